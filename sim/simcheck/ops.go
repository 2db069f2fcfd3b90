package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"runtime/debug"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"golang.org/x/crypto/ripemd160"
	xsha3 "golang.org/x/crypto/sha3"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// Op is one call of a workload.
type Op struct {
	ID string `json:"id"`
	K  string `json:"k"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	M  int    `json:"m,omitempty"`
	V  int    `json:"v,omitempty"`
	S  int    `json:"s,omitempty"` // source
}

func (o *Op) String() string {
	return fmt.Sprintf("%s:%s(a=%d b=%d m=%d v=%d s=%d)", o.ID, o.K, o.A, o.B, o.M, o.V, o.S)
}

// Result is what a call returned.
type Result struct {
	Out      []byte
	Err      string
	HasErr   bool
	Returned bool // an error came together with a result
	Panic    string
	Stack    string
	hang     string
	injected bool // the panic is the one its source raised
}

func (r *Result) String() string {
	switch {
	case r == nil:
		return "no result"
	case r.hang != "":
		return "hang: " + r.hang
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.HasErr:
		return "error: " + r.Err
	}
	return short(r.Out)
}

func short(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x...%x (%d bytes)", b[:40], b[len(b)-40:], len(b))
	}
	return fmt.Sprintf("%x (%d bytes)", b, len(b))
}

// needs says how many random bytes a call of a kind needs.
func needs(k string) int {
	switch k {
	case "gen":
		return 32
	case "enc":
		return 48
	}
	return 0
}

func pick[T any](l []T, i int) T {
	n := len(l)
	return l[((i%n)+n)%n]
}

func idx(n, i int) int { return ((i % n) + n) % n }

// call executes one call and records its result.
func (u *U) call(t *Thread, op *Op) *opState {
	st := &opState{op: op, tid: t.id}
	if n := needs(op.K); n > 0 || op.K == "fail" {
		st.src = u.opSource(op)
	}
	u.ops = append(u.ops, st)
	u.byID[op.ID] = st
	t.begin(st)
	st.res = u.protect(func(res *Result) { u.exec(t, st, res) })
	t.finish()
	for _, k := range st.keep {
		u.kept = append(u.kept, k)
	}
	u.w.mix("e", op.ID, st.res.String())
	return st
}

func (u *U) protect(f func(res *Result)) (res *Result) {
	res = &Result{}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case hangUp:
			res.hang = e.why
		case srcPanic:
			res.Panic, res.injected = e.String(), true
		default:
			res.Panic = fmt.Sprint(e)
			res.Stack = trimStack(debug.Stack())
		}
	}()
	f(res)
	return
}

// opSource is the source that the call draws from.
func (u *U) opSource(op *Op) *Source {
	if op.K == "gen" && op.V%6 >= 3 {
		return defaultSource
	}
	return u.source(op.S)
}

func (res *Result) err(e error, nilResult bool) bool {
	if e == nil {
		return false
	}
	res.HasErr, res.Err, res.Returned = true, e.Error(), !nilResult
	return true
}

// own says whether the calling thread reads the input of this call into a buffer that it uses again for its next calls.
func (u *U) own(st *opState) bool {
	return u.cfg.Own > 0 && keyed(u.seed, "own/"+st.op.ID).p(u.cfg.Own, 100)
}

func (u *U) ownBuf(st *opState, what string, data []byte) []byte {
	u.w.counts["input-buffer-reused"]++
	return u.g.fill(fmt.Sprintf("thread %d's own buffer for %s", st.tid, what), 600, data)
}

// msg is message m as the call gets it.
func (u *U) msg(st *opState, m int) []byte {
	if u.own(st) && len(u.pure[m]) < 20000 {
		return u.ownBuf(st, "messages", u.pure[m])
	}
	return u.msgs[m]
}

// ct is a ciphertext as the call gets it.
func (u *U) ct(st *opState, c ctInfo) []byte {
	if u.own(st) && len(c.raw) < 20000 {
		return u.ownBuf(st, "ciphertexts", c.raw)
	}
	return c.raw
}

// ownPair is key pair a in memory that the thread uses again.
func (u *U) ownPair(st *opState, a int, private bool) *crypto.KeyPair {
	var priv *crypto.PrivateKey
	if private {
		priv = crypto.NewPrivateKey(u.ownBuf(st, "private keys", u.privs[a]))
	}
	kp, err := crypto.NewKeyPair(priv, crypto.NewPublicKey(u.ownBuf(st, "public keys", u.pubs[a])), nil)
	if err != nil {
		panic(err)
	}
	return kp
}

func (u *U) shared(op *Op) bool { return keyed(u.seed, "share/"+op.ID).p(u.cfg.Share, 100) }

func (u *U) signer(st *opState, a int) crypto.DsaSigner {
	op := st.op
	if u.own(st) && op.V%8 >= 6 {
		return crypto.NewSignerFromKeyPair(u.ownPair(st, a, true), nil)
	}
	if u.shared(op) {
		return u.sgn[a][idx(3, op.V)]
	}
	switch idx(5, op.V) {
	case 0:
		return crypto.NewSignerFromKeyPair(u.kps[a], nil)
	case 1:
		return crypto.NewEd25519DsaSigner(u.kps[a])
	case 2:
		return crypto.NewSigner(crypto.CryptoEngines.DefaultEngine.CreateDsaSigner(u.kps[a]))
	case 3:
		kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(bytes.Clone(u.privs[a])), nil, nil)
		if err != nil {
			panic(err)
		}
		return crypto.NewSignerFromKeyPair(kp, nil)
	default:
		return crypto.NewSignerFromKeyPair(u.kps[a], simEngine{u.source(0).dressed()})
	}
}

func (u *U) verifier(st *opState, a int) crypto.DsaSigner {
	op := st.op
	if u.own(st) && op.V%4 == 3 {
		return crypto.NewSignerFromKeyPair(u.ownPair(st, a, false), nil)
	}
	if u.shared(op) {
		if op.V%2 == 0 {
			return u.sgn[a][3]
		}
		return u.sgn[a][idx(3, op.V/2)]
	}
	switch idx(3, op.V) {
	case 0:
		return crypto.NewSignerFromKeyPair(u.pks[a], nil)
	case 1:
		return crypto.NewEd25519DsaSigner(u.pks[a])
	default:
		kp, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(bytes.Clone(u.pubs[a])), nil)
		if err != nil {
			panic(err)
		}
		return crypto.NewSignerFromKeyPair(kp, nil)
	}
}

func (u *U) cipher(st *opState, a, b int, fresh bool) crypto.BlockCipher {
	op := st.op
	mk := func(v int) crypto.BlockCipher {
		s, r := u.kps[a], u.pks[b]
		switch idx(3, v) {
		case 1:
			r = u.kps[b]
		case 2:
			if op.K == "dec" {
				s, r = u.pks[a], u.kps[b]
			}
		}
		if op.K == "dec" && r == u.pks[b] {
			r = u.kps[b]
		}
		if u.own(st) && v%4 == 3 {
			if op.K == "dec" {
				s = u.ownPair(st, a, false)
			} else {
				r = u.ownPair(st, b, false)
			}
			return crypto.NewEd25519BlockCipher(s, r, ioSource(u.source(op.S)))
		}
		src := u.source(op.S)
		if src == defaultSource {
			switch v % 3 {
			case 0:
				return crypto.NewBlockCipher(s, r, nil)
			case 1:
				return crypto.NewBlockCipher(s, r, crypto.CryptoEngines.Ed25519Engine)
			}
			return crypto.NewEd25519BlockCipher(s, r, nil)
		}
		if v%2 == 0 {
			return crypto.NewEd25519BlockCipher(s, r, src.dressed())
		}
		return crypto.NewBlockCipher(s, r, simEngine{src.dressed()})
	}
	if fresh || !u.shared(op) || u.own(st) && op.V%4 == 3 {
		return mk(op.V)
	}
	// A cipher that has failed at what it cannot do can still do the rest.
	src := u.source(op.S)
	if op.K == "dec" && op.V%3 == 0 {
		if c := u.lame[fmt.Sprint("to/", a, "/", b, "/", src.name)]; c != nil {
			return c
		}
	}
	if op.K == "sharedkey" && op.V%3 == 0 {
		for _, id := range []string{fmt.Sprint("to/", a, "/off/", src.name), fmt.Sprint("from/off/", b, "/", src.name)} {
			if c := u.lame[id]; c != nil {
				return c
			}
		}
	}
	if op.K == "enc" && op.V%3 == 0 {
		if c := u.lame[fmt.Sprint("from/", a, "/", b, "/", src.name)]; c != nil {
			return c
		}
	}
	id := fmt.Sprint(a, "/", b, "/", u.source(op.S).name, "/", op.K == "dec")
	if op.V%2 == 1 { // one cipher with both private keys serves both directions
		id = fmt.Sprint(a, "/", b, "/", u.source(op.S).name)
		if u.enc[id] == nil {
			u.enc[id] = crypto.NewEd25519BlockCipher(u.kps[a], u.kps[b], ioSource(u.source(op.S)))
		}
		return u.enc[id]
	}
	if u.enc[id] == nil {
		u.enc[id] = mk(op.V)
	}
	return u.enc[id]
}

func (u *U) exec(t *Thread, st *opState, res *Result) {
	op := st.op
	nk, nm := len(u.kps), len(u.msgs)
	a, b, m := idx(nk, op.A), idx(nk, op.B), idx(nm, op.M)
	kp := func(what string, parts ...[]byte) { st.keep = append(st.keep, keep(what, op.ID, parts...)) }
	switch op.K {
	case "sign":
		sig, err := u.signer(st, a).Sign(u.msg(st, m))
		if res.err(err, sig == nil) {
			return
		}
		kp("signature", sig.R, sig.S)
		res.Out = sigRaw(sig)
	case "verify":
		s := &u.sigs[idx(len(u.sigs), op.B)]
		ok := u.verifier(st, a).Verify(u.msg(st, m), s.obj)
		res.Out = boolByte(ok)
	case "iscanon":
		s := &u.sigs[idx(len(u.sigs), op.B)]
		res.Out = boolByte(u.verifier(st, a).IsCanonicalSignature(s.obj))
	case "makecanon":
		s := &u.sigs[idx(len(u.sigs), op.B)]
		sig, err := u.verifier(st, a).MakeSignatureCanonical(s.obj)
		if res.err(err, sig == nil) {
			return
		}
		kp("canonical signature", sig.R, sig.S)
		res.Out = sigRaw(sig)
	case "sigser":
		s := u.sigs[idx(len(u.sigs), op.B)].obj
		switch idx(6, op.V) {
		case 0:
			out := s.Bytes()
			kp("serialised signature", out)
			res.Out = bytes.Clone(out)
		case 1:
			res.Out = []byte(s.String())
		case 2:
			res.Out = s.GetR().Bytes()
		case 3:
			res.Out = s.GetS().Bytes()
		case 4:
			x, err := crypto.NewSignatureFromBigInt(s.GetR(), s.GetS())
			if res.err(err, x == nil) {
				return
			}
			kp("signature from integers", x.R, x.S)
			res.Out = sigRaw(x)
		case 5: // serialising what was made canonical
			x, err := u.verifier(st, a).MakeSignatureCanonical(s)
			if res.err(err, x == nil) {
				return
			}
			out := x.Bytes()
			kp("serialised signature", out)
			res.Out = bytes.Clone(out)
		}
	case "keyser":
		switch idx(7, op.V) {
		case 0:
			res.Out = []byte(u.kps[a].PrivateKey.String())
		case 1:
			res.Out = []byte(u.kps[a].PublicKey.String())
		case 2:
			k, err := crypto.NewPrivateKeyfromHexString(hex.EncodeToString(u.privs[a]))
			if !res.err(err, k == nil) {
				kp("parsed private key", k.Raw)
				res.Out = bytes.Clone(k.Raw)
			}
		case 3:
			k, err := crypto.NewPublicKeyfromHex(hex.EncodeToString(u.pubs[a]))
			if !res.err(err, k == nil) {
				kp("parsed public key", k.Raw)
				res.Out = bytes.Clone(k.Raw)
			}
		case 4:
			k := crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(u.privs[a]))
			kp("private key from an integer", k.Raw)
			res.Out = bytes.Clone(k.Raw)
		case 5:
			res.Out = boolByte(u.kps[a].HasPrivateKey() && !u.pks[b].HasPrivateKey())
		case 6:
			res.Out = boolByte(crypto.NewEd25519KeyAnalyzer().IsKeyCompressed(u.pks[a].PublicKey))
		}
	case "point":
		e := u.epts[a]
		switch idx(7, op.V) {
		case 0, 1: // decode and encode a point
			g, err := e.Decode()
			if res.err(err, g == nil) {
				return
			}
			if idx(7, op.V) == 1 {
				res.Out = boolByte(g.SatisfiesCurveEquation())
				return
			}
			x, err := g.Encode()
			if res.err(err, x == nil) {
				return
			}
			kp("encoded point", x.Raw)
			res.Out = bytes.Clone(x.Raw)
		case 2:
			res.Out = boolByte(e.Equals(u.epts[b]))
		case 3:
			x := crypto.PrepareForScalarMultiply(u.kps[a].PrivateKey)
			kp("scalar", x.Raw)
			res.Out = bytes.Clone(x.Raw)
		case 4: // a decoded point that threads share
			g := u.pts[a]
			if g == nil {
				var err error
				if g, err = e.Decode(); res.err(err, g == nil) {
					return
				}
			}
			x, err := g.Encode()
			if res.err(err, x == nil) {
				return
			}
			res.Out = bytes.Clone(x.Raw)
		case 5: // the neutral element and the base point
			g := crypto.Ed25519Group.ZERO_P3()
			if m%2 == 0 {
				g = crypto.Ed25519Group.BASE_POINT()
			}
			x, err := g.Encode()
			if res.err(err, x == nil) {
				return
			}
			kp("encoded point", x.Raw)
			res.Out = bytes.Clone(x.Raw)
		case 6:
			x, err := crypto.NewEd25519EncodedFieldElement(u.epts[a].Raw)
			if res.err(err, x == nil) {
				return
			}
			y := x.Decode().Encode()
			kp("field element", y.Raw)
			res.Out = bytes.Clone(y.Raw)
		}
	case "derive":
		var pub *crypto.PublicKey
		priv := u.kps[a].PrivateKey
		if u.own(st) {
			priv = crypto.NewPrivateKey(u.ownBuf(st, "private keys", u.privs[a]))
		} else if !u.shared(op) {
			priv = crypto.NewPrivateKey(bytes.Clone(u.privs[a]))
		}
		switch idx(4, op.V) {
		case 0:
			pub = pick(u.gens, op.S).DerivePublicKey(priv)
		case 1:
			p, err := crypto.NewKeyPair(priv, nil, nil)
			if res.err(err, p == nil) {
				return
			}
			pub = p.PublicKey
		case 2:
			pub = crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator().DerivePublicKey(priv)
		case 3:
			p, err := crypto.NewKeyPair(priv, nil, pick(u.engs, op.S))
			if res.err(err, p == nil) {
				return
			}
			pub = p.PublicKey
		}
		kp("derived public key", pub.Raw)
		res.Out = bytes.Clone(pub.Raw)
	case "hash":
		var out []byte
		var err error
		switch idx(5, op.V) {
		case 0:
			out, err = crypto.HashesSha_256(u.msg(st, m))
		case 1:
			out, err = crypto.HashesKeccak_256(u.msg(st, m))
		case 2:
			out, err = crypto.HashesSha3_256(u.msg(st, m))
		case 3:
			x := u.msg(st, m)
			n := len(x)
			out, err = crypto.HashesSha3_512(x[:n/3], x[n/3:n/2], x[n/2:])
		case 4:
			out, err = crypto.HashesRipemd160(u.msg(st, m))
		}
		if res.err(err, out == nil) {
			return
		}
		kp("hash", out)
		res.Out = bytes.Clone(out)
	case "sharedkey":
		c := &crypto.Ed25519BlockCipher{}
		if x, ok := u.cipher(st, a, b, false).(*crypto.Ed25519BlockCipher); ok {
			c = x
		} else {
			c = crypto.NewEd25519BlockCipher(u.kps[a], u.pks[b], ioSource(u.source(op.S)))
		}
		out, err := c.GetSharedKey(u.kps[a].PrivateKey, u.pks[b].PublicKey, pick(u.salts, op.M))
		if res.err(err, out == nil) {
			return
		}
		kp("shared key", out)
		res.Out = bytes.Clone(out)
	case "enc":
		out, err := u.cipher(st, a, b, false).Encrypt(u.msg(st, m))
		if res.err(err, out == nil) {
			return
		}
		kp("ciphertext", out)
		res.Out = bytes.Clone(out)
	case "dec":
		c := u.cts[idx(len(u.cts), op.B)]
		out, err := u.cipher(st, c.from, c.to, false).Decrypt(u.ct(st, c))
		if res.err(err, out == nil) {
			return
		}
		kp("plaintext", out)
		res.Out = bytes.Clone(out)
	case "decof": // decrypt what an earlier call produced
		e := u.byID[fmt.Sprintf("%d.%d", op.A, op.B)]
		if e == nil || e.res == nil || e.op.K != "enc" || e.res.HasErr || e.res.Panic != "" || e.res.hang != "" {
			return
		}
		x, y := *e.op, *st
		x.K, x.ID, x.V = "dec", op.ID, op.V
		y.op = &x
		out, err := u.cipher(&y, idx(nk, e.op.A), idx(nk, e.op.B), false).Decrypt(u.g.buf("ciphertext of "+e.op.ID, e.res.Out))
		if res.err(err, out == nil) {
			return
		}
		kp("plaintext", out)
		res.Out = bytes.Clone(out)
	case "gen":
		var p *crypto.KeyPair
		var err error
		switch idx(6, op.V) {
		case 0:
			p, err = u.gens[u.srcIdx(op.S)].GenerateKeyPair()
		case 1:
			p, err = crypto.NewKeyPairByEngine(u.engs[u.srcIdx(op.S)])
		case 2:
			p, err = crypto.NewEd25519KeyGenerator(ioSource(u.source(op.S))).GenerateKeyPair()
		case 3:
			p, err = crypto.NewRandomKeyPair()
		case 4:
			p, err = crypto.CryptoEngines.Ed25519Engine.CreateKeyGenerator().GenerateKeyPair()
		case 5:
			p, err = crypto.NewEd25519KeyGenerator(nil).GenerateKeyPair()
		}
		if res.err(err, p == nil) {
			return
		}
		if p == nil || p.PrivateKey == nil || p.PublicKey == nil {
			res.Out = []byte("incomplete key pair")
			return
		}
		kp("generated key", p.PrivateKey.Raw, p.PublicKey.Raw)
		res.Out = append(bytes.Clone(p.PrivateKey.Raw), p.PublicKey.Raw...)
	case "kin":
		u.execKin(st, res, a, b, m)
	case "peer":
		u.execPeer(st, res, a, b)
	case "fail":
		u.execFail(t, st, res, a, b, m)
	case "gc": // memory nobody refers to is reclaimed, and finalizers run
		simrt.Collect()
		u.w.counts["garbage-collected"]++
	case "scribble": // the owner overwrites what its earlier calls returned
		for _, k := range u.kept {
			if !k.ours && strings.HasPrefix(k.op, fmt.Sprintf("%d.", op.A)) && keyed(u.seed, "scrib/"+k.op+op.ID).p(u.cfg.Scrib, 100) {
				k.scribble(byte(op.V))
				if u.fscr == 0 {
					u.fscr = int(u.w.seq)
				}
				u.w.counts["result-overwritten-by-owner"]++
			}
		}
	default:
		panic("unknown call kind " + op.K)
	}
}

func (u *U) srcIdx(i int) int { return idx(len(u.srcs)+1, i) }

// ioSource is nil, which selects the process-wide source, for the default source.
func ioSource(s *Source) io.Reader {
	if s == defaultSource {
		return nil
	}
	return s.dressed()
}

const nFail = 22

// execFail makes a call that cannot succeed.
func (u *U) execFail(t *Thread, st *opState, res *Result, a, b, m int) {
	op := st.op
	off := func() *crypto.PublicKey { return crypto.NewPublicKey(bytes.Clone(u.off)) }
	offPair := func() *crypto.KeyPair {
		kp, err := crypto.NewKeyPair(nil, off(), nil)
		if err != nil {
			panic(err)
		}
		return kp
	}
	sh := func(k string) int { return keyed(u.seed, k+op.ID).n(100) }
	// Objects that cannot do some of their work are shared and used again like others.
	cipherOf := func(what string, s, r func() *crypto.KeyPair) *crypto.Ed25519BlockCipher {
		if !u.shared(op) {
			return crypto.NewEd25519BlockCipher(s(), r(), ioSource(st.src))
		}
		id := what + "/" + st.src.name
		if u.lame[id] == nil {
			u.lame[id] = crypto.NewEd25519BlockCipher(s(), r(), ioSource(st.src))
		}
		return u.lame[id]
	}
	pair := func(kps []*crypto.KeyPair, i int) func() *crypto.KeyPair {
		return func() *crypto.KeyPair { return kps[i] }
	}
	switch idx(nFail, op.V) {
	case 0: // sign without a private key
		sg := u.sgn[a][3]
		if !u.shared(op) {
			sg = crypto.NewSignerFromKeyPair(u.pks[a], nil)
		}
		s, err := sg.Sign(u.msg(st, m))
		res.err(err, s == nil)
	case 1: // encrypt without the sender's private key
		out, err := cipherOf(fmt.Sprint("to/", a, "/", b), pair(u.pks, a), pair(u.kps, b)).Encrypt(u.msg(st, m))
		res.err(err, out == nil)
	case 2: // decrypt without the recipient's private key
		c := u.cts[idx(len(u.cts), op.B)]
		out, err := cipherOf(fmt.Sprint("from/", c.from, "/", c.to), pair(u.kps, c.from), pair(u.pks, c.to)).Decrypt(c.raw)
		res.err(err, out == nil)
	case 3: // encrypt to a key that is no point
		out, err := cipherOf(fmt.Sprint("to/", a, "/off"), pair(u.kps, a), offPair).Encrypt(u.msg(st, m))
		res.err(err, out == nil)
	case 4: // decrypt from a key that is no point
		c := u.cts[idx(len(u.cts), op.B)]
		out, err := cipherOf(fmt.Sprint("from/off/", c.to), offPair, pair(u.kps, c.to)).Decrypt(c.raw)
		res.err(err, out == nil)
	case 5: // verify under a key that is no point
		s := &u.sigs[idx(len(u.sigs), op.B)]
		if u.offSgn == nil || !u.shared(op) {
			u.offSgn = crypto.NewSignerFromKeyPair(offPair(), nil)
		}
		if !u.offSgn.Verify(u.msg(st, m), s.obj) {
			res.HasErr, res.Err = true, "invalid"
		}
	case 6: // a key of the wrong size in text
		n := []int{0, 1, 2, 31, 33, 34, 64, 100}[sh("n")%8]
		k, err := crypto.NewPrivateKeyfromHexString(strings.Repeat("5a", n))
		res.err(err, k == nil)
	case 7:
		n := []int{0, 1, 2, 31, 33, 34, 64, 100}[sh("n")%8]
		k, err := crypto.NewPublicKeyfromHex(strings.Repeat("5a", n))
		res.err(err, k == nil)
	case 8: // a key that is no hexadecimal text
		h := []byte(hex.EncodeToString(u.privs[a]))
		h[sh("i")%64] = "g /-\x00zG\n"[sh("c")%8]
		k, err := crypto.NewPrivateKeyfromHexString(string(h))
		res.err(err, k == nil)
	case 9:
		h := []byte(hex.EncodeToString(u.pubs[a]))
		h[sh("i")%64] = "g /-\x00zG\n"[sh("c")%8]
		k, err := crypto.NewPublicKeyfromHex(string(h))
		res.err(err, k == nil)
	case 10: // signatures of the wrong size
		n := []int{0, 1, 32, 63, 65, 96, 128}[sh("n")%7]
		s, err := crypto.NewSignatureFromBytes(bytes.Repeat([]byte{7}, n))
		res.err(err, s == nil)
	case 11:
		x := []int{0, 31, 33, 64}[sh("n")%4]
		r, s := make([]byte, 32), make([]byte, x)
		if sh("w")%2 == 0 {
			r, s = s, r
		}
		sig, err := crypto.NewSignature(r, s)
		res.err(err, sig == nil)
	case 12: // integers that are no signature halves
		big1, neg := new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(-5)
		ok := u.sigs[idx(len(u.sigs), op.B)].obj
		x := []*big.Int{nil, big1, neg, new(big.Int).Lsh(big1, 9)}[sh("n")%4]
		r, s := ok.GetR(), x
		if sh("w")%2 == 0 {
			r, s = x, ok.GetS()
		}
		sig, err := crypto.NewSignatureFromBigInt(r, s)
		res.err(err, sig == nil)
	case 13: // damaged ciphertexts
		n := []int{0, 1, 32, 48, 49, 63}[sh("n")%6]
		c := u.cts[idx(len(u.cts), op.B)]
		if n > len(c.raw) {
			n = len(c.raw)
		}
		out, err := u.cipherFor(st, c).Decrypt(c.raw[:n:n])
		res.err(err, out == nil)
	case 14: // not whole blocks
		c := u.cts[idx(len(u.cts), op.B)]
		raw := bytes.Clone(c.raw)
		for len(raw) < 64 {
			raw = append(raw, 1)
		}
		for k := sh("n")%15 + 1; k > 0 || (len(raw)-48)%16 == 0; k-- {
			raw = append(raw, 9)
		}
		out, err := u.cipherFor(st, c).Decrypt(u.g.buf("odd ciphertext", raw))
		res.err(err, out == nil)
	case 15: // malformed padding
		c := u.cts[idx(len(u.cts), op.B)]
		key, err := ref.SharedKey(u.privs[c.to], u.pubs[c.from], u.salts[0])
		if err != nil {
			panic(err)
		}
		blk := make([]byte, 16*(1+sh("b")%3))
		last := []byte{0, 17, 32, 255, 16, 2, 5}[sh("n")%7]
		for i := range blk {
			blk[i] = byte(100 + i)
		}
		blk[len(blk)-1] = last
		raw := append(bytes.Clone(u.salts[0]), u.salts[1][:16]...)
		raw = append(raw, ref.CBC(key, u.salts[1][:16], blk)...)
		out, err := u.cipherFor(st, c).Decrypt(u.g.buf("badly padded ciphertext", raw))
		res.err(err, out == nil)
	case 16: // a public key of the wrong size
		n := []int{0, 1, 31, 33, 64}[sh("n")%5]
		kp, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(make([]byte, n)), nil)
		res.err(err, kp == nil)
	case 17: // an all-zero public key verifies nothing
		kp, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(make([]byte, 32)), nil)
		if err != nil {
			res.err(err, kp == nil)
			return
		}
		s := &u.sigs[idx(len(u.sigs), op.B)]
		if !crypto.NewSignerFromKeyPair(kp, nil).Verify(u.msg(st, m), s.obj) {
			res.HasErr, res.Err = true, "invalid"
		}
	case 18: // a signature whose second half is out of range
		s := u.sigs[idx(len(u.sigs), op.B)]
		raw := bytes.Clone(s.raw)
		switch sh("n") % 4 {
		case 0:
			for i := 32; i < 64; i++ {
				raw[i] = 0
			}
		case 1:
			for i := 32; i < 64; i++ {
				raw[i] = 0xff
			}
		case 2:
			copy(raw[32:], ref.Bytes32(ref.L))
		case 3:
			raw = ref.AddOrder(ref.Reduce(raw), int64(1+sh("k")%14))
		}
		sig, err := crypto.NewSignatureFromBytes(raw)
		if err != nil {
			res.err(err, sig == nil)
			return
		}
		if !u.verifier(st, s.key).Verify(u.msgs[s.msg], sig) {
			res.HasErr, res.Err = true, "invalid"
		}
	case 19: // no key at all
		kp, err := crypto.NewKeyPair(nil, nil, nil)
		res.err(err, kp == nil)
	case 20: // the shared secret without a private key, or with a key that is no point
		c := cipherOf(fmt.Sprint("to/", a, "/", b, "/good"), pair(u.kps, a), pair(u.pks, b))
		var out []byte
		var err error
		if sh("n")%2 == 0 {
			out, err = c.GetSharedKey(nil, u.pks[b].PublicKey, u.salts[0])
		} else {
			out, err = c.GetSharedKey(u.kps[a].PrivateKey, off(), u.salts[0])
		}
		res.err(err, out == nil)
	case 21: // a hand-made signature with halves of the wrong size
		r, s := u.sigs[idx(len(u.sigs), op.B)].raw[:32], u.sigs[idx(len(u.sigs), op.B)].raw[32:]
		n := []int{0, 1, 16, 31}[sh("n")%4]
		sig := &crypto.Signature{R: r, S: s[:n]}
		if sh("w")%2 == 0 {
			sig = &crypto.Signature{R: r[:n], S: s}
		}
		if !u.verifier(st, a).Verify(u.msg(st, m), sig) {
			res.HasErr, res.Err = true, "invalid"
		}
	}
}

func (u *U) cipherFor(st *opState, c ctInfo) crypto.BlockCipher {
	x, y := *st.op, *st
	x.K = "dec"
	y.op = &x
	return u.cipher(&y, c.from, c.to, false)
}

func sigRaw(s *crypto.Signature) []byte {
	return append(append(make([]byte, 0, 64), s.R...), s.S...)
}

func boolByte(b bool) []byte {
	if b {
		return []byte{1}
	}
	return []byte{0}
}

// expected is what the call has to return: out, or an error if bad. ok is false if the call depends on randomness.
func (u *U) expected(st *opState) (out []byte, bad bool) {
	op := st.op
	nk, nm := len(u.kps), len(u.msgs)
	a, b, m := idx(nk, op.A), idx(nk, op.B), idx(nm, op.M)
	switch op.K {
	case "sign":
		return ref.Sign(u.privs[a], u.pure[m]), false
	case "verify":
		s := u.sigs[idx(len(u.sigs), op.B)]
		return boolByte(bytes.Equal(s.raw, ref.Sign(u.privs[a], u.pure[m]))), false
	case "iscanon":
		s := ref.Int(u.sigs[idx(len(u.sigs), op.B)].raw[32:])
		return boolByte(s.Sign() > 0 && s.Cmp(ref.L) < 0), false
	case "makecanon":
		return ref.Reduce(u.sigs[idx(len(u.sigs), op.B)].raw), false
	case "sigser":
		raw := u.sigs[idx(len(u.sigs), op.B)].raw
		switch idx(6, op.V) {
		case 0, 4:
			return raw, false
		case 1:
			return []byte(hex.EncodeToString(raw)), false
		case 2:
			return ref.Int(raw[:32]).Bytes(), false
		case 3:
			return ref.Int(raw[32:]).Bytes(), false
		default:
			return ref.Reduce(raw), false
		}
	case "keyser":
		switch idx(7, op.V) {
		case 0:
			return []byte(hex.EncodeToString(u.privs[a])), false
		case 1:
			return []byte(strings.ToUpper(hex.EncodeToString(u.pubs[a]))), false
		case 2, 4:
			return u.privs[a], false
		case 3:
			return u.pubs[a], false
		default:
			return []byte{1}, false
		}
	case "derive":
		return u.pubs[a], false
	case "point":
		switch idx(7, op.V) {
		case 0, 4:
			return u.pubs[a], false
		case 1:
			return []byte{1}, false
		case 2:
			return boolByte(bytes.Equal(u.pubs[a], u.pubs[b])), false
		case 3:
			h := sha3.Sum512(u.privs[a])
			h[0] &= 248
			h[31] = h[31]&63 | 64
			return h[:32], false
		case 5:
			out := make([]byte, 32)
			out[0] = 1
			if m%2 == 0 {
				for i := range out {
					out[i] = 0x66
				}
				out[0] = 0x58
			}
			return out, false
		default:
			out := bytes.Clone(u.pubs[a])
			out[31] &= 0x7f
			return out, false
		}
	case "hash":
		switch idx(5, op.V) {
		case 0:
			h := sha256.Sum256(u.pure[m])
			return h[:], false
		case 1:
			h := xsha3.NewLegacyKeccak256()
			h.Write(u.pure[m])
			return h.Sum(nil), false
		case 2:
			h := sha3.Sum256(u.pure[m])
			return h[:], false
		case 3:
			h := sha3.Sum512(u.pure[m])
			return h[:], false
		default:
			h := ripemd160.New()
			h.Write(u.pure[m])
			return h.Sum(nil), false
		}
	case "sharedkey":
		k, err := ref.SharedKey(u.privs[a], u.pubs[b], pick(u.salts, op.M))
		return k, err != nil
	case "enc":
		if len(st.delivered) < 48 {
			return nil, true
		}
		out, err := ref.Encrypt(u.privs[a], u.pubs[b], st.delivered, u.pure[m])
		return out, err != nil
	case "dec":
		c := u.cts[idx(len(u.cts), op.B)]
		return c.want, c.bad
	case "decof":
		e := u.byID[fmt.Sprintf("%d.%d", op.A, op.B)]
		if e == nil || e.end > st.start || e.res == nil || e.op.K != "enc" || e.res.HasErr || e.res.Panic != "" || e.res.hang != "" {
			return nil, false
		}
		return u.pure[idx(nm, e.op.M)], false
	case "gen":
		if len(st.delivered) < 32 {
			return nil, true
		}
		return append(bytes.Clone(st.delivered[:32]), ref.Pub(st.delivered[:32])...), false
	case "kin":
		return u.expectedKin(op, a, b, m)
	case "peer":
		return u.expectedPeer(op, a, b)
	case "fail":
		return nil, true
	}
	return nil, false
}

// judge compares the result of a call with what it has to be.
func (u *U) judge(st *opState) {
	w, op, res := u.w, st.op, st.res
	cls := op.K
	if op.K == "fail" {
		cls = fmt.Sprintf("fail%d", idx(nFail, op.V))
	}
	if res == nil {
		w.fail(cls+":unfinished", op.ID, "%s never returned", op)
		return
	}
	if res.hang != "" {
		w.fail(cls+":hang", op.ID, "%s does not return: %s", op, res.hang)
		return
	}
	if res.Panic != "" {
		if !(res.injected && st.panicked) {
			w.fail(cls+":panic", op.ID, "%s panics: %s\n%s", op, res.Panic, res.Stack)
		}
		return
	}
	if res.HasErr && res.Returned {
		w.fail(cls+":result-with-error", op.ID, "%s returned a result together with the error %q", op, res.Err)
		return
	}
	want, bad := u.expected(st)
	if n := needs(op.K); n > 0 {
		if res.HasErr {
			if !st.hard && !st.panicked {
				w.fail(cls+":spurious-error", op.ID, "%s failed (%s) although its source delivered without error (%d bytes in %d reads; %s)", op, res.Err, len(st.delivered), st.readNo, strings.Join(st.faults, ","))
			}
			return
		}
		if len(st.delivered) != n {
			w.fail(cls+":wrong-amount", op.ID, "%s succeeded although the source delivered %d bytes to it where it needs exactly %d (faults: %s); result %s", op, len(st.delivered), n, strings.Join(st.faults, ","), short(res.Out))
			return
		}
		if !bytes.Equal(res.Out, want) {
			w.fail(cls+":wrong-result", op.ID, "%s returned %s, want %s; delivered %x (faults: %s)", op, short(res.Out), short(want), st.delivered, strings.Join(st.faults, ","))
		}
		return
	}
	switch {
	case bad && !res.HasErr:
		w.fail(cls+":accepted", op.ID, "%s reported no failure although it cannot succeed; it returned %s%s", op, short(res.Out), u.context(op))
	case !bad && res.HasErr:
		w.fail(cls+":spurious-error", op.ID, "%s failed: %s%s", op, res.Err, u.context(op))
	case !bad && !bytes.Equal(res.Out, want):
		w.fail(cls+":wrong-result", op.ID, "%s returned %s, want %s%s", op, short(res.Out), short(want), u.context(op))
	}
}

func (u *U) context(op *Op) string {
	switch op.K {
	case "verify", "iscanon", "makecanon", "sigser":
		s := u.sigs[idx(len(u.sigs), op.B)]
		return fmt.Sprintf(" [signature by key %d over message %d, %s]", s.key, s.msg, s.variant)
	case "dec":
		c := u.cts[idx(len(u.cts), op.B)]
		return fmt.Sprintf(" [ciphertext from %d to %d, %s]", c.from, c.to, c.variant)
	case "fail":
		return " [" + failName[idx(nFail, op.V)] + "]"
	}
	return ""
}

var failName = [nFail]string{"sign without private key", "encrypt without private key", "decrypt without private key", "encrypt to a key off the curve", "decrypt from a key off the curve", "verify under a key off the curve", "private key text of wrong size", "public key text of wrong size", "private key text not hexadecimal", "public key text not hexadecimal", "signature of wrong size", "signature half of wrong size", "integers out of range", "ciphertext too short", "ciphertext not whole blocks", "malformed padding", "public key of wrong size", "all-zero public key", "second half out of range", "key pair from nothing", "shared secret without keys", "hand-made signature of wrong size"}
