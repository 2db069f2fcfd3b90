package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/hex"
	"fmt"

	"verif.local/sim/ref"
)

// Values that a short-cut may take for one another: two messages, keys or headers that differ but agree in their ends,
// or in a common checksum.

// twinKeys are numbers of keys whose public keys agree in what the name says.
var twinKeys = [][2]uint64{
	{2876, 6331}, {9315, 11327}, // Adler-32
	{5921, 29861}, {1411, 111738}, // first four bytes
	{2098, 99191}, {82907, 101794}, // last four bytes
	{8469, 48655}, {152130, 156254}, // CRC-32
	{5447, 118645}, {103231, 125027}, // CRC-32C
	{51047, 54942}, {96160, 139711}, // FNV-1a
	{72189, 96555}, {169449, 201678}, // FNV-1
	{52771, 63622}, {96359, 110818}, // XOR of the words
	{7688, 148553}, {139339, 212162}, // polynomial in 31
}

func twinKey(n uint64) []byte { return ref.NewStream("twin", n).Next(32) }

// rareSigs are messages "rare n" that one of the common keys signs in a way that is rare: a half of the signature (R, S),
// the nonce (r), the challenge (c), or one of their hashes begins or ends in zeros or ones.
var rareSigs = []struct {
	key int
	n   uint64
}{
	{1, 37438}, {1, 5906}, {3, 52562}, // R ends with 0000
	{1, 22331}, {1, 43747}, {2, 23615}, // R ends with 0080
	{0, 3880}, {4, 10693}, {4, 18068}, // R ends with ffXf
	{1, 59837}, {3, 21220}, {4, 31975}, // R starts with 0000
	{0, 20213}, {1, 8505}, {4, 1573}, // R starts with ffff
	{1, 11}, {3, 691}, {4, 521}, // S ends with 0000
	{0, 262415},                      // S ends with 000000
	{4, 13748}, {4, 3765}, {4, 6962}, // S starts with 0000
	{1, 17026}, {2, 5333}, {3, 18835}, // S starts with ffff
	{0, 678}, {3, 1821}, {4, 3358}, // c ends with 0000
	{0, 26089}, {0, 8136}, {1, 49082}, // c starts with 0000
	{2, 13352}, {2, 573}, {3, 17421}, // c starts with ffff
	{0, 5823}, {2, 40047}, {2, 40074}, // ch ends with 0000
	{1, 1849}, {1, 966}, {2, 731}, // r ends with 0000
	{1, 246392},                        // r ends with 000000
	{1, 12969}, {1, 46894}, {4, 27465}, // r starts with 0000
	{0, 17465}, {3, 12659}, {4, 26303}, // r starts with ffff
	{0, 99373}, {3, 53040}, {3, 80604}, // rh ends with 0000
}

// rareKeys are numbers of keys, like those of twinKeys, whose public keys begin or end in zeros or ones.
var rareKeys = []uint64{
	1237, 14352, 154647, // pub ends with 0000
	15450, 32260, 34209, // pub ends with ffXf
	15141, 64385, 99208, // pub starts with 0000
	2874, 62791, 95210, // pub starts with ffff
}

// rareOf is a key and a message with a rare signature, in some runs.
func rareOf(seed uint64) (key, msg []byte) {
	r := keyed(seed, "rare")
	if !r.p(1, 6) {
		return nil, nil
	}
	t := rareSigs[r.n(len(rareSigs))]
	return commonKey(t.key), []byte(fmt.Sprint("rare ", t.n))
}

// fnvTwins are prefixes after which FNV-1 or FNV-1a are in the same state.
var fnvTwins = [][2]string{
	{"\xeb\xfa\x9ez|I\xbal", "-f\xf1\x17\x1eh\xc2\xa5"}, {"\xd7$\x13\xd0\x135N\x1a", "\x19\x9c\ap\x19\xbd\xf1\xff"},
	{".\r\xa9\xfa\xda\xd6\xbbN", "\x03&#n\\w\xc1\xb1"}, {"@:\xf9_\x02\x952%", "\x8d>!G%\xa8\x95\x1f"},
	{"&e\xe1p/\x06.\xd7", "3\x8d\xa7b\a\xec1\x87"}, {"!I\xa4\xb7l\x8e\x85\x8f", "I\xc4&\x96T/{\xe6"},
}

// collide changes b without changing its length.
func collide(r *rng, b []byte) []byte {
	b = bytes.Clone(b)
	n := len(b)
	if n < 2 {
		for i := range b {
			b[i] ^= 0x20
		}
		return b
	}
	for _, t := range fnvTwins {
		for k := 0; k < 2; k++ {
			if bytes.HasPrefix(b, []byte(t[k])) {
				copy(b, t[1-k])
				return b
			}
		}
	}
	orig := bytes.Clone(b)
	switch r.n(14) {
	case 12, 13: // two blocks change places, or one is repeated
		k := []int{8, 16, 16, 32, 64, 64, 72, 128, 136, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536}[r.n(17)]
		for k > n/2 && k > 1 {
			k /= 2
		}
		i, j := r.n(n/k)*k, r.n(n/k)*k
		x := bytes.Clone(b[i : i+k])
		copy(b[i:i+k], b[j:j+k])
		if r.p(3, 4) {
			copy(b[j:j+k], x)
		}
	case 0: // two bytes change places
		i, j := r.n(n), r.n(n)
		b[i], b[j] = b[j], b[i]
	case 1: // neighbours change places
		i := r.n(n - 1)
		b[i], b[i+1] = b[i+1], b[i]
	case 2: // the same sum
		i, j := r.n(n), r.n(n)
		b[i]++
		b[j]--
	case 3: // the same XOR, of bytes or of words
		d := []int{1, 2, 4, 8, 16, 32}[r.n(6)]
		if n > d {
			i := r.n(n - d)
			x := byte(r.in(1, 255))
			b[i] ^= x
			b[i+d] ^= x
		}
	case 4, 5: // the same CRC-32 or CRC-32C
		if n >= 5 {
			p := uint64(0xEDB88320)<<1 | 1
			if r.p(1, 3) {
				p = uint64(0x82F63B78)<<1 | 1
			}
			p <<= uint(r.n(8))
			i := r.n(n - 4)
			for k := 0; k < 5; k++ {
				b[i+k] ^= byte(p >> (8 * k))
			}
		}
	case 6: // the same polynomial in 31, 33, 37, 65599 ... for neighbouring bytes
		i := r.n(n - 1)
		k := []byte{31, 33, 37, 131}[r.n(4)]
		if b[i] < 255 && b[i+1] >= k {
			b[i]++
			b[i+1] -= k
		} else {
			b[i]--
			b[i+1] += k
		}
	case 7: // the same Adler-32
		if n >= 3 {
			i := r.n(n - 2)
			b[i]++
			b[i+1] -= 2
			b[i+2]++
		}
	case 8: // the same beginning and end, another middle
		b[n/2] ^= byte(r.in(1, 255))
	case 9: // the same first half
		b[n/2+r.n(n-n/2)] ^= byte(r.in(1, 255))
	case 10: // the same last half
		b[r.n((n+1)/2)] ^= byte(r.in(1, 255))
	default: // turned round
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	if bytes.Equal(b, orig) {
		b[r.n(n)] ^= 1 << r.n(8)
	}
	return b
}

// text is a message that invites being interpreted or normalised.
func text(r *rng) []byte {
	words := []string{"transfer", "100", "Alice", "bob", "true", "null", "{}", "%s%n", "\u00e9", "e\u0301", "\ufeff", "\u2028", "\xff\xfe", "\x00", "\x1a", "0x", "=", "=="}
	s := ""
	for i := r.in(0, 6); i > 0; i-- {
		s += words[r.n(len(words))] + []string{"", " ", "\t", "\n", "\r\n", ","}[r.n(6)]
	}
	switch r.n(6) {
	case 0:
		s = hex.EncodeToString(r.bytes(r.in(0, 40)))
	case 1:
		s = "0x" + hex.EncodeToString(r.bytes(r.in(0, 40)))
	case 2:
		s = fmt.Sprint(r.next()>>1, []string{"", "\n", ".0", "e5"}[r.n(4)])
	}
	return []byte(s)
}

// digest is what someone might sign in place of b.
func digest(r *rng, b []byte) []byte {
	switch r.n(5) {
	case 0:
		x := sha256.Sum256(b)
		return x[:]
	case 1:
		x := sha512.Sum512(b)
		return x[:]
	case 2:
		x := sha3.Sum256(b)
		return x[:]
	case 3:
		x := sha3.Sum512(b)
		return []byte(hex.EncodeToString(x[:]))
	}
	x := sha3.Sum512(b)
	return x[:]
}

// respell is another spelling of the same text.
func respell(r *rng, b []byte) []byte {
	b = bytes.Clone(b)
	switch r.n(17) {
	case 14, 15:
		return digest(r, b)
	case 16: // the beginning only
		for _, k := range []int{1 << 20, 1 << 16, 1 << 15, 1 << 14, 1 << 12, 1 << 10, 512, 256, 136, 128, 72, 64, 48, 32, 16} {
			if k < len(b) && (r.p(1, 3) || k == 16) {
				return b[:k]
			}
		}
		return append(b, b...)
	case 0:
		return append(b, ' ')
	case 1:
		return append(b, '\n')
	case 2:
		return append(b, 0)
	case 3:
		return append([]byte{[]byte{0, ' ', '\n', '0'}[r.n(4)]}, b...)
	case 4:
		return append([]byte("0x"), b...)
	case 5:
		return bytes.TrimSpace(b)
	case 6:
		return bytes.ToUpper(b)
	case 7:
		return bytes.ToLower(b)
	case 8:
		return bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n"))
	case 9:
		return bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
	case 10:
		return bytes.Trim(b, "\x00")
	case 11:
		return []byte(hex.EncodeToString(b))
	case 12:
		if x, err := hex.DecodeString(string(b)); err == nil {
			return x
		}
		return bytes.ToValidUTF8(b, []byte("\ufffd"))
	default:
		return bytes.TrimLeft(b, "\x000 ")
	}
}
