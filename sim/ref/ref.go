// Package ref is the reference model: the signature scheme and the message format written down once more, from their
// definitions, on top of an independent curve implementation (package refed, vendored from the Go standard library)
// and the standard library's SHA-3 and AES. Every function is pure; results are memoised.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"crypto/sha3"
	"encoding/binary"
	"errors"
	"math/big"

	"verif.local/sim/refed"
)

const (
	PlainHeader = 48 // salt and IV
)

// P is the field prime.
var P = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

// L is the order of the base point.
var L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

type key struct {
	clamped [32]byte
	a       *refed.Scalar // clamped mod L
	a8      *refed.Scalar // clamped/8 mod L
	prefix  [32]byte
	pub     [32]byte
}

var (
	keys   = map[string]*key{}
	sigs   = map[string][]byte{}
	shared = map[string][]byte{}
)

// Reset drops memoised results when there are many.
func Reset() {
	if len(keys) > 4096 {
		clear(keys)
	}
	if len(sigs) > 8192 {
		clear(sigs)
	}
	if len(shared) > 8192 {
		clear(shared)
	}
}

func scalar(b []byte) *refed.Scalar {
	var w [64]byte
	copy(w[:], b)
	s, err := new(refed.Scalar).SetUniformBytes(w[:])
	if err != nil {
		panic(err)
	}
	return s
}

func getKey(priv []byte) *key {
	if k := keys[string(priv)]; k != nil {
		return k
	}
	h := sha3.Sum512(priv)
	k := &key{}
	copy(k.clamped[:], h[:32])
	copy(k.prefix[:], h[32:])
	k.clamped[0] &= 248
	k.clamped[31] &= 63
	k.clamped[31] |= 64
	k.a = scalar(k.clamped[:])
	// clamped/8: shift the little-endian number right by 3.
	var s [32]byte
	for i := range s {
		s[i] = k.clamped[i] >> 3
		if i+1 < 32 {
			s[i] |= k.clamped[i+1] << 5
		}
	}
	k.a8 = scalar(s[:])
	copy(k.pub[:], new(refed.Point).ScalarBaseMult(k.a).Bytes())
	keys[string(priv)] = k
	return k
}

// Pub is the public key of priv.
func Pub(priv []byte) []byte { return bytes.Clone(getKey(priv).pub[:]) }

// Prefix is the secret that the nonces of priv are made with.
func Prefix(priv []byte) []byte { return bytes.Clone(getKey(priv).prefix[:]) }

// Sign is the signature of msg under priv.
func Sign(priv, msg []byte) []byte {
	h := sha256.Sum256(msg)
	id := string(priv) + string(h[:])
	if s := sigs[id]; s != nil {
		return bytes.Clone(s)
	}
	k := getKey(priv)
	hr := sha3.New512()
	hr.Write(k.prefix[:])
	hr.Write(msg)
	r := scalar64(hr.Sum(nil))
	R := new(refed.Point).ScalarBaseMult(r).Bytes()
	hh := sha3.New512()
	hh.Write(R)
	hh.Write(k.pub[:])
	hh.Write(msg)
	c := scalar64(hh.Sum(nil))
	s := new(refed.Scalar).MultiplyAdd(c, k.a, r)
	sig := append(bytes.Clone(R), s.Bytes()...)
	sigs[id] = bytes.Clone(sig)
	return sig
}

func scalar64(b []byte) *refed.Scalar {
	s, err := new(refed.Scalar).SetUniformBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

// OnCurve reports whether pub decodes to a curve point.
func OnCurve(pub []byte) bool {
	_, err := new(refed.Point).SetBytes(pub)
	return err == nil
}

// Reencode is the encoding of the point that b decodes to.
func Reencode(b []byte) ([]byte, bool) {
	p, err := new(refed.Point).SetBytes(b)
	if err != nil {
		return nil, false
	}
	return p.Bytes(), true
}

// SmallOrder reports whether pub decodes to one of the eight points whose order divides eight. Such a key is nobody's,
// and anybody can make signatures that satisfy the curve equation under it.
func SmallOrder(pub []byte) bool {
	p, err := new(refed.Point).SetBytes(pub)
	if err != nil {
		return false
	}
	for i := 0; i < 3; i++ {
		p = new(refed.Point).Add(p, p)
	}
	return p.Equal(refed.NewIdentityPoint()) == 1
}

// Secret is the shared secret of the pair (priv, pub).
func Secret(priv, pub []byte) ([]byte, error) {
	id := string(priv) + string(pub)
	s := shared[id]
	if s == nil {
		p, err := new(refed.Point).SetBytes(pub)
		if err != nil {
			return nil, err
		}
		p8 := new(refed.Point).Add(p, p)
		p8.Add(p8, p8)
		p8.Add(p8, p8)
		s = new(refed.Point).ScalarMult(getKey(priv).a8, p8).Bytes()
		shared[id] = s
	}
	return bytes.Clone(s), nil
}

// SharedKey is the AES key of the pair (priv, pub) under salt.
func SharedKey(priv, pub, salt []byte) ([]byte, error) {
	x, err := Secret(priv, pub)
	if err != nil {
		return nil, err
	}
	for i := range x {
		x[i] ^= salt[i]
	}
	h := sha3.Sum256(x)
	return h[:], nil
}

// Encrypt is the ciphertext of msg with the given salt and IV (48 bytes together).
func Encrypt(priv, pub, header, msg []byte) ([]byte, error) {
	k, err := SharedKey(priv, pub, header[:32])
	if err != nil {
		return nil, err
	}
	c, err := aes.NewCipher(k)
	if err != nil {
		return nil, err
	}
	n := 16 - len(msg)%16
	buf := append(bytes.Clone(msg), bytes.Repeat([]byte{byte(n)}, n)...)
	cipher.NewCBCEncrypter(c, header[32:48]).CryptBlocks(buf, buf)
	return append(bytes.Clone(header[:48]), buf...), nil
}

// Decrypt is what the message format assigns to ct.
func Decrypt(priv, pub, ct []byte) ([]byte, error) {
	if len(ct) < 64 || (len(ct)-48)%16 != 0 {
		return nil, errors.New("ref: not a salt, an IV and whole blocks")
	}
	k, err := SharedKey(priv, pub, ct[:32])
	if err != nil {
		return nil, err
	}
	c, err := aes.NewCipher(k)
	if err != nil {
		return nil, err
	}
	buf := bytes.Clone(ct[48:])
	cipher.NewCBCDecrypter(c, ct[32:48]).CryptBlocks(buf, buf)
	n := int(buf[len(buf)-1])
	if n == 0 || n > 16 {
		return nil, errors.New("ref: padding length")
	}
	for _, b := range buf[len(buf)-n:] {
		if int(b) != n {
			return nil, errors.New("ref: padding bytes")
		}
	}
	return buf[:len(buf)-n], nil
}

// Int is the little-endian number in b.
func Int(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// Bytes32 is the 32-byte little-endian form of v, which must fit.
func Bytes32(v *big.Int) []byte {
	b := v.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}

// AddOrder is the signature with k times the group order added to its second half; nil if that does not fit.
func AddOrder(sig []byte, k int64) []byte {
	s := Int(sig[32:])
	s.Add(s, new(big.Int).Mul(big.NewInt(k), L))
	if s.BitLen() > 256 || s.Sign() < 0 {
		return nil
	}
	return append(bytes.Clone(sig[:32]), Bytes32(s)...)
}

// Reduce is the signature with its second half reduced modulo the group order.
func Reduce(sig []byte) []byte {
	return append(bytes.Clone(sig[:32]), Bytes32(new(big.Int).Mod(Int(sig[32:]), L))...)
}

// Stream is an unbounded keyed byte stream.
type Stream struct {
	key [32]byte
	n   uint64
	buf []byte
}

func NewStream(label string, seed uint64) *Stream {
	s := &Stream{}
	s.key = sha256.Sum256(binary.LittleEndian.AppendUint64([]byte(label+"\x00"), seed))
	return s
}

func (s *Stream) Next(n int) []byte {
	for len(s.buf) < n {
		h := sha256.Sum256(binary.LittleEndian.AppendUint64(s.key[:], s.n))
		s.n++
		s.buf = append(s.buf, h[:]...)
	}
	b := bytes.Clone(s.buf[:n])
	s.buf = s.buf[n:]
	return b
}

// CBC encrypts whole blocks.
func CBC(key, iv, blocks []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(blocks))
	cipher.NewCBCEncrypter(c, iv).CryptBlocks(out, blocks)
	return out
}

// ForgeSmall is a first and second half with R = s*B, which satisfies the curve equation under a public key of small
// order whenever the challenge is a multiple of that order.
func ForgeSmall(seed []byte) []byte {
	h := sha3.Sum512(seed)
	s := scalar64(h[:])
	return append(bytes.Clone(new(refed.Point).ScalarBaseMult(s).Bytes()), s.Bytes()...)
}
