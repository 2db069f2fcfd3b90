package main

import (
	"bytes"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verif.local/sim/ref"
)

// Calls with keys that are easily taken for other keys of the run, and with objects of the caller's that it has used
// before for something else.

// kinPriv is raw bytes of a private key that have much in common with those of key a.
func (u *U) kinPriv(a int, v int) []byte {
	p := u.privs[a]
	cut := bytes.TrimLeft(p, "\x00")
	k := idx(12, v)
	if !u.cfg.Odd {
		k = 10 + k%2
	}
	switch k {
	case 0, 1: // the same number
		if len(cut) < len(p) {
			return bytes.Clone(cut)
		}
		return append([]byte{0}, p...)
	case 2:
		return append([]byte{0}, p...)
	case 3:
		return append(bytes.Clone(p), 0)
	case 4: // as other libraries keep it
		return append(bytes.Clone(p), u.pubs[a]...)
	case 5:
		return bytes.Clone(p[:31])
	case 6:
		return bytes.Clone(p[1:])
	case 7:
		return bytes.Clone(p[:16])
	case 8:
		return append(bytes.Clone(p), p...)
	case 9:
		return []byte{}
	case 10:
		x := bytes.Clone(p)
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
		return x
	default: // the same beginning
		x := bytes.Clone(p)
		for i := []int{1, 4, 8, 16, 31}[idx(5, v/12)]; i < 32; i++ {
			x[i] ^= byte(7*i + v)
		}
		return x
	}
}

// kinPub is 32 bytes that have much in common with the public key of key b; perhaps they are no point.
func (u *U) kinPub(b int, v int) []byte {
	for try := 0; ; try++ {
		r := keyed(u.seed, fmt.Sprintf("kin/%d/%d/%d", b, idx(16, v), try))
		x := bytes.Clone(u.pubs[b])
		if r.p(1, 4) {
			x = special(r)
			if ref.OnCurve(x) && !ref.SmallOrder(x) {
				return x
			}
		}
		switch r.n(9) {
		case 0: // the other sign
			x[31] ^= 0x80
		case 1, 2, 3: // the same beginning
			copy(x[[]int{4, 8, 8, 16, 24, 28, 30}[r.n(7)]:], r.bytes(32))
		case 4, 5: // the same end
			n := []int{1, 2, 4, 8, 16, 24}[r.n(6)]
			copy(x[:n], r.bytes(n))
		case 6: // the same beginning and end
			copy(x[14:18], r.bytes(4))
		case 7:
			x[r.n(32)] ^= 1 << r.n(8)
		default:
			x = collide(r, x)
		}
		// Every other encoding is no point: take few of those. Keys of small order are another matter.
		if !bytes.Equal(x, u.pubs[b]) && (ref.OnCurve(x) && !ref.SmallOrder(x) || !ref.OnCurve(x) && try > 0 && r.p(1, 4)) {
			return x
		}
	}
}

// special is 32 bytes that are at the edge of something: near multiples of the field prime or the group order, near
// powers of two, of a pattern, or with limbs that are.
func special(r *rng) []byte {
	one := big.NewInt(1)
	pow := func(n int) *big.Int { return new(big.Int).Lsh(one, uint(n)) }
	x := new(big.Int)
	switch r.n(8) {
	case 0:
		x.Sub(pow(255), big.NewInt(19))
	case 1:
		x.Mul(ref.L, big.NewInt(int64(r.n(16))))
	case 2, 3:
		x = pow(r.n(257))
	case 4: // the limbs of field elements
		at := []int{0, 26, 51, 77, 102, 128, 153, 179, 204, 230, 255}
		for i := 0; i < 10; i++ {
			n := at[i+1] - at[i]
			l := []*big.Int{new(big.Int), one, pow(n - 1), new(big.Int).Sub(pow(n-1), one), new(big.Int).Sub(pow(n), one), new(big.Int).Add(pow(n-1), one)}[r.n(6)]
			x.Or(x, new(big.Int).Lsh(l, uint(at[i])))
		}
	case 5: // the limbs of scalars
		for i := 0; i < 13; i++ {
			n := 21
			if i == 12 {
				n = 4
			}
			l := []*big.Int{new(big.Int), one, pow(n - 1), new(big.Int).Sub(pow(n-1), one), new(big.Int).Sub(pow(n), one)}[r.n(5)]
			x.Or(x, new(big.Int).Lsh(l, uint(21*i)))
		}
	case 6:
		b := bytes.Repeat([]byte{[]byte{0, 0xff, 0x55, 0xaa, 0x7f, 0x80, 0x0f, 0xf0, 0x88, 0x77}[r.n(10)]}, 32)
		x.SetBytes(b)
	default:
		b := bytes.Repeat(r.bytes([]int{1, 2, 4}[r.n(3)]), 32)[:32]
		x.SetBytes(b)
	}
	x.Add(x, big.NewInt(int64(r.in(-20, 20))))
	if r.p(1, 8) {
		x.SetBit(x, 255, 1)
	}
	x.Mod(x, pow(256))
	return ref.Bytes32(x)
}

func (u *U) special(what string, v int) []byte {
	return special(keyed(u.seed, fmt.Sprint("special/", what, idx(64, v))))
}

// recycled is the objects that a thread uses again and again.
type recycled struct {
	priv *crypto.PrivateKey
	pub  *crypto.PublicKey
	pair *crypto.KeyPair
	sig  *crypto.Signature
}

func (u *U) recycle(st *opState) *recycled {
	if u.rec == nil {
		u.rec = map[int]*recycled{}
	}
	x := u.rec[st.tid]
	if x == nil {
		x = &recycled{}
		x.priv = crypto.NewPrivateKey(u.kinBuf(st, "private key", u.privs[0]))
		x.pub = crypto.NewPublicKey(u.kinBuf(st, "public key", u.pubs[0]))
		x.pair = &crypto.KeyPair{PrivateKey: x.priv, PublicKey: x.pub}
		x.sig = &crypto.Signature{R: u.kinBuf(st, "signature R", make([]byte, 32)), S: u.kinBuf(st, "signature S", make([]byte, 32))}
		u.rec[st.tid] = x
	}
	return x
}

// kinBuf fills memory of the thread's objects.
func (u *U) kinBuf(st *opState, what string, data []byte) []byte {
	u.w.counts["object-reused"]++
	return u.g.fill(fmt.Sprintf("thread %d's %s", st.tid, what), 32, data)
}

func (u *U) execKin(st *opState, res *Result, a, b, m int) {
	op := st.op
	kp := func(what string, parts ...[]byte) { st.keep = append(st.keep, keep(what, op.ID, parts...)) }
	signed := func(sig *crypto.Signature, err error) {
		if !res.err(err, sig == nil) {
			kp("signature", sig.R, sig.S)
			res.Out = sigRaw(sig)
		}
	}
	derived := func(p *crypto.PublicKey) {
		kp("derived public key", p.Raw)
		res.Out = bytes.Clone(p.Raw)
	}
	switch idx(12, op.V) {
	case 0: // the public key of a relative
		derived(pick(u.gens, op.S).DerivePublicKey(crypto.NewPrivateKey(u.kinPriv(a, op.B))))
	case 1:
		p, err := crypto.NewKeyPair(crypto.NewPrivateKey(u.kinPriv(a, op.B)), nil, nil)
		if !res.err(err, p == nil) {
			derived(p.PublicKey)
		}
	case 2: // a relative signs
		priv := u.kinPriv(a, op.B)
		p, err := crypto.NewKeyPair(crypto.NewPrivateKey(priv), crypto.NewPublicKey(ref.Pub(priv)), nil)
		if !res.err(err, p == nil) {
			signed(crypto.NewSignerFromKeyPair(p, nil).Sign(u.msg(st, m)))
		}
	case 3: // a relative of the public key verifies
		s := u.sigs[idx(len(u.sigs), op.B)]
		p, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(u.kinPub(s.key, op.A)), nil)
		if !res.err(err, p == nil) {
			res.Out = boolByte(crypto.NewSignerFromKeyPair(p, nil).Verify(u.msgs[s.msg], s.obj))
		}
	case 4: // a private key object that was another key before
		x := u.recycle(st)
		u.kinBuf(st, "private key", u.privs[a])
		derived(pick(u.gens, op.S).DerivePublicKey(x.priv))
	case 5: // a key pair that was another one before signs
		x := u.recycle(st)
		u.kinBuf(st, "private key", u.privs[a])
		u.kinBuf(st, "public key", u.pubs[a])
		signed(crypto.NewSignerFromKeyPair(x.pair, nil).Sign(u.msg(st, m)))
	case 6: // a signature object that was another one before
		x := u.recycle(st)
		s := u.sigs[idx(len(u.sigs), op.B)]
		u.kinBuf(st, "signature R", s.raw[:32])
		u.kinBuf(st, "signature S", s.raw[32:])
		res.Out = boolByte(u.verifier(st, s.key).Verify(u.msgs[s.msg], x.sig))
	case 7: // under a public key that was another one before
		x := u.recycle(st)
		s := u.sigs[idx(len(u.sigs), op.B)]
		u.kinBuf(st, "public key", u.pubs[a])
		res.Out = boolByte(crypto.NewSignerFromKeyPair(&crypto.KeyPair{PublicKey: x.pub}, nil).Verify(u.msgs[s.msg], s.obj))
	case 8: // a point at the edge of something
		e, err := crypto.NewEd25519EncodedGroupElement(u.g.buf("special point", u.special("point", op.B)))
		if res.err(err, e == nil) {
			return
		}
		g, err := e.Decode()
		if res.err(err, g == nil) {
			return
		}
		x, err := g.Encode()
		if !res.err(err, x == nil) {
			kp("encoded point", x.Raw)
			res.Out = bytes.Clone(x.Raw)
		}
	case 9: // such a field element
		x, err := crypto.NewEd25519EncodedFieldElement(u.g.buf("special field element", u.special("field", op.B)))
		if !res.err(err, x == nil) {
			y := x.Decode().Encode()
			kp("field element", y.Raw)
			res.Out = bytes.Clone(y.Raw)
		}
	case 10: // such a second half
		s := u.sigs[idx(len(u.sigs), op.B)]
		x, err := crypto.NewSignature(u.g.buf("first half", s.raw[:32]), u.g.buf("special second half", u.special("half", op.M)))
		if res.err(err, x == nil) {
			return
		}
		signed(u.verifier(st, a).MakeSignatureCanonical(x))
	case 11:
		s := u.sigs[idx(len(u.sigs), op.B)]
		x, err := crypto.NewSignature(u.g.buf("first half", s.raw[:32]), u.g.buf("special second half", u.special("half", op.M)))
		if res.err(err, x == nil) {
			return
		}
		v := u.verifier(st, s.key)
		res.Out = append(boolByte(v.IsCanonicalSignature(x)), boolByte(v.Verify(u.msgs[s.msg], x))...)
	}
}

func (u *U) expectedKin(op *Op, a, b, m int) ([]byte, bool) {
	s := u.sigs[idx(len(u.sigs), op.B)]
	issued := func(key int) bool { return bytes.Equal(s.raw, ref.Sign(u.privs[key], u.pure[s.msg])) }
	switch idx(12, op.V) {
	case 0, 1:
		return ref.Pub(u.kinPriv(a, op.B)), false
	case 2:
		return ref.Sign(u.kinPriv(a, op.B), u.pure[m]), false
	case 3:
		return []byte{0}, false
	case 4:
		return u.pubs[a], false
	case 5:
		return ref.Sign(u.privs[a], u.pure[m]), false
	case 6:
		return boolByte(issued(s.key)), false
	case 7:
		return boolByte(issued(a)), false
	case 8:
		x, ok := ref.Reencode(u.special("point", op.B))
		return x, !ok
	case 9:
		x := ref.Int(u.special("field", op.B))
		x.SetBit(x, 255, 0)
		return ref.Bytes32(x.Mod(x, ref.P)), false
	case 10:
		return ref.Reduce(append(bytes.Clone(s.raw[:32]), u.special("half", op.M)...)), false
	default:
		x := ref.Int(u.special("half", op.M))
		full := append(bytes.Clone(s.raw[:32]), u.special("half", op.M)...)
		return append(boolByte(x.Sign() > 0 && x.Cmp(ref.L) < 0), boolByte(bytes.Equal(full, ref.Sign(u.privs[s.key], u.pure[s.msg])))...), false
	}
}

// execPeer is calls of ciphers with such keys.
func (u *U) execPeer(st *opState, res *Result, a, b int) {
	op := st.op
	kp := func(what string, parts ...[]byte) { st.keep = append(st.keep, keep(what, op.ID, parts...)) }
	secret := func(priv *crypto.PrivateKey, pub *crypto.PublicKey) {
		x, y := *op, *st
		x.K = "sharedkey"
		y.op = &x
		c, ok := u.cipher(&y, a, b, false).(*crypto.Ed25519BlockCipher)
		if !ok {
			c = crypto.NewEd25519BlockCipher(u.kps[a], u.pks[b], ioSource(u.source(op.S)))
		}
		out, err := c.GetSharedKey(priv, pub, pick(u.salts, op.M))
		if !res.err(err, out == nil) {
			kp("shared key", out)
			res.Out = bytes.Clone(out)
		}
	}
	plain := func(c crypto.BlockCipher, ct []byte) {
		out, err := c.Decrypt(ct)
		if !res.err(err, out == nil) {
			kp("plaintext", out)
			res.Out = bytes.Clone(out)
		}
	}
	switch idx(6, op.V) {
	case 0, 1: // the shared secret with a relative of the peer
		secret(u.kps[a].PrivateKey, crypto.NewPublicKey(u.kinPub(b, op.M)))
	case 2: // or of a relative with the peer
		secret(crypto.NewPrivateKey(u.kinPriv(a, op.M)), u.pks[b].PublicKey)
	case 3: // decryption of what is said to come from a relative of the sender
		c := u.cts[idx(len(u.cts), op.B)]
		p, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(u.kinPub(c.from, op.M)), nil)
		if !res.err(err, p == nil) {
			plain(crypto.NewEd25519BlockCipher(p, u.kps[c.to], nil), u.ct(st, c))
		}
	case 4: // keys that were others before
		x := u.recycle(st)
		u.kinBuf(st, "private key", u.privs[a])
		u.kinBuf(st, "public key", u.pubs[b])
		secret(x.priv, x.pub)
	case 5:
		x := u.recycle(st)
		c := u.cts[idx(len(u.cts), op.B)]
		u.kinBuf(st, "public key", u.pubs[c.from])
		plain(crypto.NewEd25519BlockCipher(&crypto.KeyPair{PublicKey: x.pub}, u.kps[c.to], nil), u.ct(st, c))
	}
}

func (u *U) expectedPeer(op *Op, a, b int) ([]byte, bool) {
	salt := pick(u.salts, op.M)
	secret := func(priv, pub []byte) ([]byte, bool) {
		k, err := ref.SharedKey(priv, pub, salt)
		return k, err != nil
	}
	c := u.cts[idx(len(u.cts), op.B)]
	switch idx(6, op.V) {
	case 0, 1:
		return secret(u.privs[a], u.kinPub(b, op.M))
	case 2:
		return secret(u.kinPriv(a, op.M), u.pubs[b])
	case 3:
		out, err := ref.Decrypt(u.privs[c.to], u.kinPub(c.from, op.M), c.raw)
		return out, err != nil
	case 4:
		return secret(u.privs[a], u.pubs[b])
	default:
		return c.want, c.bad
	}
}
