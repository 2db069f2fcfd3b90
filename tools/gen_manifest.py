import json,subprocess
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation: seeded search over "
tech={
"C01":T+"thread interleavings of the instrumented library, against a reference model",
"C02":T+"thread interleavings and randomness-source delays, against a reference model",
"C03":T+"randomness-source faults (short, empty, failing, panicking, dying sources) during key generation",
"C04":T+"randomness-source faults during encryption, with reuse afterwards",
"C05":T+"interleavings and source faults, accounting for every random byte delivered",
"C06":T+"faults of a simulated channel between signers and verifiers, with bounded-time delivery after they stop",
"C07":T+"rewritings of signatures on a simulated channel",
"C08":T+"damage to ciphertexts on a simulated channel, against the format's reference decoder",
"C09":T+"crash points, torn and lost writes on a simulated disk, with real process restarts",
"C10":T+"histories and interleavings, with guard bytes around every argument and snapshots of every result",
"C11":T+"histories and interleavings of failing and succeeding calls, with source faults",
"C12":T+"interleavings with randomness sources that hang, and progress checked at quiescence",
"C13":T+"histories and interleavings of signing over related messages, replayed in a second process",
"C14":T+"histories, each executed again in another process, order and interleaving with the same random bytes",
}
note="Sampling, not proof: each run is a seeded, exactly repeatable execution of the real library code. Trusted: the simulator, the instrumenter (which adds yields and changes nothing else) and the reference model, which is an independent implementation on the Go standard library's curve arithmetic. Weak memory effects within one statement are not simulated."
na={
"N01":"a pure function of its operands: no schedule, clock, fault or history for a simulator to decide (arithmetic is exercised, against the reference, by every run, but input coverage of limb arithmetic is not what simulation decides)",
"N02":"a pure function of its input: nothing nondeterministic for a simulator to decide",
"N03":"a pure function of its input; the part that matters after a crash (torn key files) is claimed under C09",
"N04":"a statement about execution time and memory access on real hardware, which a simulator with its own clock and scheduler cannot observe",
"N05":"a computational assumption about adversaries, not about executions of this code",
}
checks=[]
for p in P:
    i=p["id"]
    if i in tech:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":tech[i],"level":"exploration","level_note":note})
m={"version":1,"setup_cmd":"./check.sh build .build/setup","checks":checks,
"not_applicable":[{"property":p["id"],"reason":na[p["id"]]} for p in P if p["id"] in na],
"notes":"No hooks in /repo: each check compiles /repo's working tree through a build overlay written by /verif/sim/instr. 'check.sh replay FILE' replays a violation, 'check.sh selftest' repeats runs at several worker counts and compares them. Genuine defects found are repaired in /repo by 'fix:' commits and listed in known-findings.json."}
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
assert {c["property"] for c in checks}|{x["property"] for x in m["not_applicable"]}=={p["id"] for p in P}
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+"\n")
f=[("C08","dec:panic","9b9c65c","Decrypt panicked on a ciphertext of 64 bytes or more whose body is not a multiple of 16 bytes"),
("C10","input-overwritten","83a452e","Signature.Bytes wrote S into the caller's memory behind R and returned memory shared with R"),
("C07","accepted-not-issued","1d1bfda","IsCanonicalSignature looked at the low 64 bits of S only: S plus a multiple of the group order was canonical and verified"),
("C09","stored-signature-refused","4743608","NewSignatureFromBigInt refused the integers of real signatures and truncated numbers of more than 256 bits"),
("C09","public-key-changed","ae0059e","NewPrivateKeyFromBigInt dropped leading zero bytes of the private key, giving another key"),
("C11","fail1:panic","a2f833d","Encrypt, Decrypt and GetSharedKey panicked when the private key they need was missing"),
("C10","input-overwritten","3a2bec0","the signature that MakeSignatureCanonical returns shared its R with its argument"),
("C11","fail19:panic",None,"NewKeyPair panicked when given no key at all"),
("C11","fail21:panic",None,"Verify panicked on a signature whose second half is shorter than 32 bytes")]
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
def find(s): return [l.split()[0] for l in log if s in l][0]
F=[]
for prop,cls,c,what in f:
    if c is None: c=find("NewKeyPair without any key") if "NewKeyPair" in what else find("halves are not 32 bytes")
    F.append({"property":prop,"status":"fixed","class":cls,"commit":c,"what":what,"line":f"fixed: property={prop} {c} {what}"})
open('/verif/known-findings.json','w').write(json.dumps({"findings":F},indent=1)+"\n")
