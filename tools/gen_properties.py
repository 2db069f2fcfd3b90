import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
YH="none in /repo: the check compiles /repo through an overlay that inserts a scheduler yield before every statement"
p("C01","Concurrent signing and verification give exactly the sequential results",
 "Any number of threads may sign, verify, derive public keys, hash, and inspect or serialise signatures through shared signers, key pairs, engines, signatures and message buffers. In every interleaving each call returns exactly the result that its own arguments determine - the result it returns when run alone, as the signature scheme (Ed25519 over SHA3-512) defines it - and no interleaving changes what any later call returns.",
 ["schedules","histories"],"every interleaving, at statement granularity, of any number of sign / verify / derive / hash / signature-accessor calls on shared objects, including the very first calls in a process",
 "Every existing test is single-threaded; the scheduler decides nothing there, so a shared scratch buffer, an unsafely cached intermediate or a lazily built table passes all of them.",
 ["ed25519_model.go","ed25519_encode.go","ed25519_const.go","crypto.go","signature.go","signer.go","key_pair.go","key_model.go"],
 [("signing and verification keep all intermediate values in call-local variables","ed25519_model.go: Ed25519DsaSigner.Sign / Verify"),("the shared base point is copied before use","ed25519_encode.go: BASE_POINT / copy"),("precomputed tables are package-level constants never written","ed25519_const.go: basePrecSingle, basePrecDouble"),("each hash call builds its own hash state","crypto.go: Hashes*")],
 ["return values of Sign, Verify, DerivePublicKey, NewKeyPair, Signature accessors, Hashes*"],
 [("base point and its tables","package-wide, shared by all calls","ed25519_encode.go: Ed25519Group"),("engine singletons","shared factories","crypto_engine.go: CryptoEngines")],YH)
p("C02","Concurrent encryption and decryption never mix messages, keys or randomness",
 "However many threads encrypt and decrypt through shared ciphers and key pairs, in every interleaving each ciphertext is the correct encryption, under the shared secret of its own sender and recipient and the salt and IV in its own header, of exactly the plaintext given to the call that produced it. Each decryption returns exactly the result for its own input, as if it had run alone.",
 ["schedules","histories"],"every interleaving, at statement and randomness-read granularity, of encrypt and decrypt calls on shared or separate ciphers",
 "The tests run one encryption and one decryption of one 16-byte message on one thread; no test shares a cipher.",
 ["ed25519_model.go","ed25519_encode.go","cipher_model.go"],
 [("salt, IV, shared key and buffers are allocated per call","ed25519_model.go: Encrypt / Decrypt / GetSharedKey / encode / decode"),("the peer's point and its multiplication table are decoded per call","ed25519_model.go: GetSharedKey")],
 ["return values of Encrypt and Decrypt"],
 [("block cipher object","two key pairs, key length and the randomness source, immutable after construction","ed25519_model.go: Ed25519BlockCipher")],YH)
p("C03","Key generation is all-or-nothing under a faulty randomness source",
 "When the randomness source delivers its bytes in arbitrary pieces, delivers nothing for a while, ends early or fails at any point, generating a key pair either returns an error and no key pair, or returns a key pair whose private key is exactly the 32 bytes the source delivered to that call, in order, with the matching public key. It never returns a key built from partial, stale, zero or substituted randomness, and a source that has failed for good makes the call return an error instead of hanging.",
 ["fault_sequences","inputs"],"every sequence of short reads, empty reads, errors, error-with-data and end-of-file a source can produce, at every byte offset",
 "No test of key generation injects any fault: the tests always draw from the operating system, which always fills the buffer in one read.",
 ["ed25519_model.go","key_pair.go","key_model.go"],
 [("read exactly 32 bytes or fail","ed25519_model.go: GenerateKeyPair uses io.ReadFull and returns its error"),("default source when none is given","ed25519_model.go: NewEd25519KeyGenerator")],
 ["return values of GenerateKeyPair, NewRandomKeyPair, NewKeyPairByEngine"],
 [("randomness source","an io.Reader given to the generator, or the process-wide one","ed25519_model.go: Ed25519KeyGenerator.seed")],"the source itself (io.Reader argument, and the process-wide default reader) is the seam")
p("C04","Encryption is all-or-nothing under a faulty randomness source",
 "When the randomness source delivers its bytes in arbitrary pieces, delivers nothing for a while, ends early or fails at any point, encrypting either returns an error and no ciphertext, or returns a ciphertext that begins with exactly the 48 bytes the source delivered to that call, in order, as salt and IV, and that decrypts to the plaintext. It never emits a ciphertext whose salt or IV is partial, stale, zero or substituted, and after a failed call the same cipher works again as soon as the source does.",
 ["fault_sequences","inputs"],"every sequence of short reads, empty reads, errors and end-of-file at every byte offset of the salt and IV reads, over sequences of messages on one cipher",
 "The only faulty reader in the tests is never short; no test makes the salt or the IV read fail or arrive in pieces.",
 ["ed25519_model.go"],
 [("salt and IV are read in full or the call fails","ed25519_model.go: Encrypt uses io.ReadFull twice and returns its error")],
 ["return value of Encrypt, and of Decrypt on it"],
 [("randomness source","an io.Reader given to the cipher, or the process-wide one","ed25519_model.go: Ed25519BlockCipher.seed")],"the source itself (io.Reader argument, and the process-wide default reader) is the seam")
p("C05","No random byte is ever used twice or by the wrong call",
 "Over any history of key generations and encryptions, by any number of threads on shared or separate sources and with source faults in between, each byte a source delivers ends up in at most one generated key or ciphertext header, and always in that of the call it was delivered to. Hence, as long as the source does not repeat itself, no two generated keys are equal and no two ciphertexts carry the same salt or IV; and when a caller supplies a source, nothing is drawn from any other.",
 ["schedules","histories","fault_sequences"],"every history of key generations and encryptions over shared sources, generators and ciphers, in every interleaving, with faults in some of the calls",
 "Tests compare two generated keys by pointer only and never share a source, so caching, buffering or reuse of drawn bytes across calls or threads goes unseen.",
 ["ed25519_model.go","key_pair.go","crypto_engine.go"],
 [("a fresh buffer per draw","ed25519_model.go: GenerateKeyPair, Encrypt"),("no buffering between the source and its consumers","ed25519_model.go: NewEd25519KeyGenerator, NewEd25519BlockCipher")],
 ["private keys of generated pairs, first 48 bytes of ciphertexts, bytes drawn from each source"],None,YH)
p("C06","A receiver accepts exactly what the claimed sender signed",
 "When signed messages travel over a channel that may lose, duplicate, delay, reorder, cut, extend, flip, splice or misattribute them, verification accepts a public key, message and signature if and only if the holder of that key issued that signature over exactly that message. No damaged or recombined triple is accepted or crashes the receiver, and once the channel stops failing every retransmitted message is accepted.",
 ["fault_sequences","histories","inputs"],"every history of signed messages between several parties and every sequence of channel faults on message, signature, claimed sender and addressee",
 "The tests verify only untouched seven-byte messages under the signer's own key; no test damages anything, so a verifier that ignores part of its input passes.",
 ["ed25519_model.go","signature.go","signer.go","ed25519_encode.go"],
 [("challenge hash over R, public key and message; comparison of recomputed and received R","ed25519_model.go: Verify"),("only 64-byte signatures are parsed","signature.go: NewSignatureFromBytes")],
 ["return value of Verify and of the signature parser at each receiver"],None,None)
p("C07","A signature has exactly one accepted encoding",
 "For a signature a signer issued, the only encoding that verification accepts for that message and key is the 64 bytes the signer issued: any rewriting of a valid signature on its way, including adding multiples of the group order to its second half, is reported as non-canonical or rejected, so nobody but the signer can produce a second accepted signature for a message. Making such a rewritten signature canonical gives back the issued one, and an issued signature is canonical and left as it is.",
 ["fault_sequences","inputs"],"every issued signature and every sequence of in-transit rewritings of its encoding, including all representable multiples of the group order",
 "The tests check canonicity of one tiny signature (1,1) and never alter a real one.",
 ["ed25519_model.go","signature.go"],
 [("range check on the second half before anything else","ed25519_model.go: IsCanonicalSignature, called by Sign and Verify"),("reduction modulo the group order","ed25519_model.go: MakeSignatureCanonical")],
 ["IsCanonicalSignature, MakeSignatureCanonical, Verify"],None,None)
p("C08","Decrypting damaged ciphertext never crashes and never misreports",
 "Whatever a channel or disk does to a ciphertext - cutting, extending, flipping, splicing, swapping or redirecting it - decrypting never panics and returns either an error or exactly the plaintext that the message format (salt, IV, AES-256-CBC, PKCS#7 padding) assigns to the received bytes. Bytes that are not a salt, an IV and one or more whole blocks with well-formed padding are always reported as an error, and an intact ciphertext always decrypts to the original at its recipient.",
 ["fault_sequences","inputs","crash_points"],"every ciphertext of every length and every sequence of cuts, extensions, flips, splices and redirections of it, including those that hit only padding bytes",
 "The tests decrypt two intact ciphertexts of one length; no malformed length, padding or key is ever tried.",
 ["ed25519_model.go"],
 [("length check","ed25519_model.go: Decrypt"),("padding check on every padding byte","ed25519_model.go: decode")],
 ["return value or panic of Decrypt"],None,None)
p("C09","Keys, signatures and ciphertexts survive crash and restart unchanged",
 "A process that stores its key, signatures and ciphertexts in any form the library offers (raw bytes, hexadecimal text, integers) and crashes at any moment finds, after restarting and reloading what was durable, the same public key, byte-identical new signatures over the same messages, signatures that still verify and ciphertexts that still decrypt. What a crash cut short or garbled is refused with an error when parsed if it is key text that is no longer hexadecimal for exactly 32 bytes (an odd number of digits counting as having a leading zero), a raw public key that is not 32 bytes, or a raw signature that is not 64 bytes.",
 ["crash_points","histories","fault_sequences"],"every crash point in a history of generating, storing, signing and encrypting, every torn write, and any number of restarts in fresh processes, for keys of every value including ones with leading zeros",
 "Every test lives in one process and formats or parses one fixed key; no key with leading zeros, no integer round trip of a real signature, and no restart is exercised.",
 ["key_model.go","key_pair.go","signature.go","ed25519_model.go","ed25519_encode.go"],
 [("text and raw forms of keys","key_model.go"),("forms of signatures","signature.go"),("public key and signature are functions of the private key bytes only","ed25519_model.go: DerivePublicKey, Sign")],
 ["key and signature constructors and accessors, Sign, Verify, Decrypt in each incarnation"],None,"none: restarts are real process restarts; durable state is a simulated disk")
p("C10","Calls never write to caller memory and never change earlier results",
 "No call writes to any memory it was given - messages, ciphertexts, keys, signatures, including the unused capacity behind a slice - and nothing a call has returned changes because of a later call. A caller that overwrites a returned signature, ciphertext, plaintext, hash, serialised signature or freshly generated key does not influence the result of any later call on other objects.",
 ["histories","schedules"],"every history of library calls over shared objects and buffers with arbitrary spare capacity, with caller overwrites of returned buffers in between",
 "Tests look at each result once, right after the call, and never look back at the arguments or at earlier results.",
 ["signature.go","ed25519_model.go","ed25519_encode.go","crypto.go","key_model.go"],
 [("results are built in freshly allocated buffers","signature.go: Bytes; ed25519_model.go: encode, decode, Encrypt, GenerateKeyPair; ed25519_encode.go: Encode, modQ, multiplyAndAddModQ")],
 ["contents of every argument buffer (with guard bytes) and of every result ever returned, after each step"],None,None)
p("C11","A failing call reports an error and leaves no trace",
 "A call that cannot succeed - signing, encrypting or decrypting without the private key it needs, failing or panicking randomness, malformed keys, signatures or ciphertexts, a peer key that is not on the curve - returns an error (or reports the signature invalid) and no result, and does not crash the caller; only a panic raised by a caller's own randomness source may propagate. Every other call, earlier, later or concurrent, on the same or other objects, returns exactly what it would have returned had the failing call never been made.",
 ["fault_sequences","histories","schedules"],"every history and interleaving of failing and succeeding calls on shared objects",
 "Tests exercise a handful of failing parsers and never use an object again after a failure.",
 ["ed25519_model.go","key_pair.go","signature.go","key_model.go","ed25519_encode.go"],
 [("error returns and absence of state kept between calls","ed25519_model.go: Sign, Encrypt, Decrypt, GetSharedKey, GenerateKeyPair"),("private-key check","ed25519_model.go: Sign")],
 ["error / panic of the failing calls, results of all other calls"],None,YH)
p("C12","A stalled randomness source delays only its own callers",
 "While a call waits for a slow or hung randomness source, every signing, verification, derivation, decryption and hashing call, and every key generation or encryption that uses another source, still runs to completion with its normal result. Once the source delivers again, the waiting call completes with its normal result within a bounded number of its own steps.",
 ["schedules","fault_sequences"],"every set of calls stalled inside reads of their source, at every read, and every interleaving of the remaining calls",
 "No test has two calls in progress at once or a source that blocks.",
 ["ed25519_model.go","crypto_engine.go"],
 [("no lock or shared resource is held across a read of the source","ed25519_model.go: GenerateKeyPair, Encrypt")],
 ["completion and results of the non-stalled calls, completion of the stalled call after release"],None,YH)
p("C13","Signing nonces never repeat over distinct messages or keys",
 "Over any history of signatures, by any number of threads and key holders and across related messages, two signatures share their first half only if they are by the same key over the same message, and then they are identical in full. The same holds across process restarts.",
 ["histories","schedules","inputs"],"every history and interleaving of signing calls over families of closely related messages (equal length, shared prefixes or suffixes, one-bit differences, extensions) and keys",
 "The tests sign one fixed message; the uniqueness of the nonce is a relation between signatures that no single-signature test observes.",
 ["ed25519_model.go","crypto.go"],
 [("nonce derived from the whole secret prefix and the whole message","ed25519_model.go: Sign")],
 ["first halves of all signatures in a history"],None,YH)
p("C14","A history is reproducible from its arguments and randomness alone",
 "Repeating a history of calls with the same arguments and the same bytes from the randomness sources gives byte-identical keys, signatures, ciphertexts, plaintexts and verdicts, in another process, after any other history, and however the calls are interleaved as long as each call receives the same random bytes. Nothing else - time, process identity, memory addresses, earlier calls, the process-wide source when one was supplied - influences any result.",
 ["histories","schedules","configurations"],"every history of calls over every configuration (default engine, explicit engine, caller-supplied engine, explicit source), replayed in fresh processes, in other orders and interleavings",
 "One test fixes the randomness for one encryption; no test repeats a history or compares processes.",
 ["ed25519_model.go","crypto_engine.go","key_pair.go","signer.go","cipher_model.go"],
 [("engines and factories hold only the source","ed25519_model.go: Ed25519SeedCryptoEngine"),("a supplied engine is used for everything","key_pair.go, signer.go, cipher_model.go")],
 ["results of every call of the history"],None,YH)
p("N01","Field, scalar and group arithmetic is exact for all operands",
 "For every operand within the documented bounds, field, scalar and point operations equal the mathematical operation modulo the field prime, modulo the group order, and on the curve.",
 ["inputs"],"all operands","Random operands sample a vanishing part of the input space and rare carries are never hit.",
 ["ed25519_encode.go","ed25519_const.go","math.go"],[("limb arithmetic and tables","ed25519_encode.go, ed25519_const.go")],["results of the arithmetic methods"])
p("N02","Hash helpers equal their published standards for all inputs",
 "For every input of every length each hash helper returns the digest its standard defines.",
 ["inputs"],"all byte strings","One vector per hash.",["crypto.go"],[("delegation to library hashes","crypto.go")],["return values"])
p("N03","Key text parsing accepts exactly the 32-byte hexadecimal texts",
 "Parsing a key from text succeeds exactly for hexadecimal text that denotes 32 bytes, an odd number of digits being read with a leading zero, and yields those bytes.",
 ["inputs"],"all strings","Three strings are tried.",["key_model.go"],[("hex decoding and length check","key_model.go")],["return values"])
p("N04","Signing and decryption timing does not depend on secrets",
 "The time and memory access pattern of signing, key derivation, comparison and decryption do not depend on private keys, nonces or plaintext.",
 ["inputs"],"all secrets","Nothing measures time.",["crypto.go","ed25519_encode.go","ed25519_model.go"],[("constant-time selection and comparison","crypto.go, ed25519_encode.go: Select")],["execution time"])
p("N05","Without the private key nobody can sign or decrypt",
 "No efficient adversary without a private key can produce a signature that verifies under its public key for a new message, or learn anything about a plaintext encrypted to it beyond its length.",
 ["programs"],"all efficient adversaries","It is a computational assumption about the curve, the hash and the cipher, not about executions.",["ed25519_model.go"],[("the choice of primitives","ed25519_model.go")],["nothing observable"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
