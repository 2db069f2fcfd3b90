package main

import (
	"bytes"
	"fmt"
	"io"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verif.local/sim/ref"
	"verif.local/sim/simrt"
)

// Cfg is how one run is set up: sizes, mixes, rates. It is drawn per run (swarm style) and kept in the replay file.
type Cfg struct {
	Arms    int   `json:"arms"`             // preemption points per call
	ArmP    int   `json:"armp"`             // percent of them that are used
	LockP   int   `json:"lockp"`            // percent of those that repeat
	Stay    int   `json:"stay"`             // percent: stay on the thread at the end of a call
	SrcSw   int   `json:"srcsw"`            // percent: switch inside a randomness source
	FaultP  int   `json:"faultp"`           // percent of reads that meet a fault
	Faults  []int `json:"faults,omitempty"` // enabled fault kinds
	Pieces  int   `json:"pieces,omitempty"` // deliver at most that many bytes at a time
	Keys    int   `json:"keys"`
	Msgs    int   `json:"msgs"`
	MaxLen  int   `json:"maxlen"`
	Srcs    int   `json:"srcs"`
	Lazy    bool  `json:"lazy"`              // set up without calling into the scheme
	Hang    []int `json:"hang,omitempty"`    // per source: read at which it hangs
	HangMs  []int `json:"hangms,omitempty"`  // per source: for how long, 0: until nothing else can run
	Share   int   `json:"share"`             // percent of calls that use shared objects
	Scrib   int   `json:"scrib,omitempty"`   // percent of results that their owner overwrites
	Jump    int   `json:"jump,omitempty"`    // percent of calls before which the clock jumps, if the library reads it
	Content int   `json:"content,omitempty"` // percent of calls whose random bytes are far from random
	Odd     bool  `json:"odd,omitempty"`     // some private keys are not 32 bytes
	Own     int   `json:"own,omitempty"`     // percent of calls whose thread reads their input into a buffer it uses again and again
}

// guard owns the memory handed to the library.
type guard struct {
	bufs []guarded
	seed uint64
}

type guarded struct {
	name string
	all  []byte
	orig []byte
	off  int
	n    int
}

const guardPad = 80

// buf is a slice of memory around which, and in whose unused capacity, every byte is known.
func (g *guard) buf(name string, data []byte) []byte {
	behind := guardPad
	r := keyed(g.seed, "room/"+name)
	if r.p(1, 5) {
		// much room, as in a buffer that was made for something larger, or that this was cut from
		behind += min(len(data)*r.in(1, 3), 4<<20) + r.n(200)
	}
	all := make([]byte, guardPad+len(data)+behind)
	for i := range all {
		all[i] = byte(0xC3^i*7) ^ byte(simrt.Env*31)
	}
	copy(all[guardPad:], data)
	g.bufs = append(g.bufs, guarded{name, all, bytes.Clone(all), guardPad, len(data)})
	if r.p(1, 5) {
		return all[guardPad : guardPad+len(data) : guardPad+len(data)] // no room as far as one is told
	}
	return all[guardPad : guardPad+len(data)]
}

// fill is what a caller does that reads something new into a buffer of its own.
func (g *guard) fill(name string, size int, data []byte) []byte {
	for i := range g.bufs {
		if b := &g.bufs[i]; b.name == name && b.n >= len(data) {
			copy(b.all[b.off:], data)
			copy(b.orig[b.off:], data)
			return b.all[b.off : b.off+len(data)]
		}
	}
	x := g.buf(name, make([]byte, max(size, len(data))))
	g.fill(name, 0, data)
	return x[:len(data)]
}

// check names a buffer that is no longer as the caller left it.
func (g *guard) check() string {
	for _, b := range g.bufs {
		if !bytes.Equal(b.all, b.orig) {
			for i := range b.all {
				if b.all[i] != b.orig[i] {
					where := fmt.Sprintf("byte %d of %d", i-b.off, b.n)
					if i < b.off {
						where = fmt.Sprintf("%d bytes before it", b.off-i)
					} else if i >= b.off+b.n {
						where = fmt.Sprintf("byte %d of the unused capacity behind its %d bytes", i-b.off-b.n, b.n)
					}
					return fmt.Sprintf("%s was overwritten: %s is %#02x, was %#02x", b.name, where, b.all[i], b.orig[i])
				}
			}
		}
	}
	return ""
}

// kept is something a call has returned.
type kept struct {
	what  string
	op    string
	ours  bool // overwritten by its owner
	parts [][]byte
	snap  [][]byte
}

func keep(what, op string, parts ...[]byte) *kept {
	k := &kept{what: what, op: op, parts: parts}
	for _, p := range parts {
		k.snap = append(k.snap, bytes.Clone(p))
	}
	return k
}

func (k *kept) changed() bool {
	if k.ours {
		return false
	}
	for i, p := range k.parts {
		if !bytes.Equal(p, k.snap[i]) {
			return true
		}
	}
	return false
}

// scribble is what the owner of a returned object does to it.
func (k *kept) scribble(v byte) {
	k.ours = true
	for _, p := range k.parts {
		p = p[:cap(p)]
		for i := range p {
			p[i] = v + byte(i)
		}
	}
}

// sigInfo is one signature of the universe.
type sigInfo struct {
	key, msg int
	variant  string // "issued", or how it was damaged
	raw      []byte
	obj      *crypto.Signature
}

type ctInfo struct {
	from, to int
	variant  string
	raw      []byte // guarded
	want     []byte
	bad      bool // the format assigns no plaintext to it
}

// U is the objects of one run.
type U struct {
	w       *World
	cfg     *Cfg
	seed    uint64
	g       *guard
	privs   [][]byte
	pubs    [][]byte
	msgs    [][]byte // as handed to the library
	pure    [][]byte // copies
	salts   [][]byte
	kps     []*crypto.KeyPair // with private key
	pks     []*crypto.KeyPair // public key only
	epts    []*crypto.Ed25519EncodedGroupElement
	pts     []*crypto.Ed25519GroupElement // nil: not decoded beforehand
	sgn     [][]crypto.DsaSigner
	sigs    []sigInfo
	cts     []ctInfo
	srcs    []*Source
	gens    []crypto.KeyGenerator
	engs    []crypto.CryptoEngine
	enc     map[string]crypto.BlockCipher
	lame    map[string]*crypto.Ed25519BlockCipher
	offSgn  *crypto.Signer
	off     []byte // an encoding that is no point
	ops     []*opState
	byID    map[string]*opState
	rec     map[int]*recycled
	kept    []*kept
	suspect []string
	fscr    int // sequence number of the first overwriting by an owner
}

// simEngine is a caller-supplied engine over a caller-supplied source.
type simEngine struct{ src io.Reader }

func (e simEngine) CreateDsaSigner(kp *crypto.KeyPair) crypto.DsaSigner {
	return crypto.NewEd25519DsaSigner(kp)
}
func (e simEngine) CreateKeyGenerator() crypto.KeyGenerator {
	return crypto.NewEd25519KeyGenerator(e.src)
}
func (e simEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	return crypto.NewEd25519BlockCipher(s, r, e.src)
}
func (e simEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return crypto.NewEd25519KeyAnalyzer() }

// commonKeys are keys that runs in one process share.
func commonKey(i int) []byte { return ref.NewStream("common", uint64(i)).Next(32) }

var msgSizes = []int{0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 71, 72, 73, 79, 80, 95, 96, 100, 103, 104, 105, 127, 128, 129, 135, 136, 137, 143, 144, 145, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 131073, 262145, 1048576, 1048577}

func (u *U) genKeys() {
	r := keyed(u.seed, "keys")
	rk, _ := rareOf(u.seed)
	var twin []byte
	for i := 0; i < u.cfg.Keys; i++ {
		var k []byte
		switch x := r.n(10); {
		case i == 0 && rk != nil:
			k = rk
		case twin != nil:
			k, twin = twin, nil
		case r.p(1, 10) && i+1 < u.cfg.Keys:
			t := twinKeys[r.n(len(twinKeys))]
			j := r.n(2)
			k, twin = twinKey(t[j]), twinKey(t[1-j])
		case r.p(1, 8) && i > 0:
			k = collide(r, u.privs[r.n(i)])
		case r.p(1, 20):
			k = twinKey(rareKeys[r.n(len(rareKeys))])
		case x < 4:
			k = commonKey(r.n(5))
		case x < 5 && i > 0: // one bit away from another key
			k = bytes.Clone(u.privs[r.n(i)])
			k[r.n(32)] ^= 1 << r.n(8)
		case x < 6:
			k = r.bytes(32)
			for j := 0; j < r.in(1, 16); j++ {
				k[j] = 0
			}
		case x < 7:
			k = r.bytes(32)
			for j := 0; j < r.in(1, 16); j++ {
				k[31-j] = 0
			}
		default:
			k = r.bytes(32)
		}
		for j := 0; j < i; j++ {
			if bytes.Equal(k, u.privs[j]) {
				k = r.bytes(32)
			}
		}
		u.privs = append(u.privs, k)
		u.pubs = append(u.pubs, ref.Pub(k))
	}
}

func (u *U) genMsgs() {
	r := keyed(u.seed, "msgs")
	_, rm := rareOf(u.seed)
	for i := 0; i < u.cfg.Msgs; i++ {
		var m []byte
		switch x := r.n(10); {
		case i == 0 && rm != nil:
			m = rm
		case r.p(1, 8) && i > 0: // easily taken for an earlier message
			m = collide(r, u.pure[r.n(i)])
		case r.p(1, 12) && i > 0:
			m = respell(r, u.pure[r.n(i)])
		case r.p(1, 12):
			m = text(r)
		case r.p(1, 16): // made of other things that the library handles
			m = u.composed(r, i)
		case r.p(1, 30):
			t := fnvTwins[r.n(len(fnvTwins))]
			m = []byte(t[r.n(2)])
			if i > 0 && r.p(1, 2) {
				m = append(m, u.pure[r.n(i)]...)
			}
		case x < 4 && i > 0: // related to an earlier message
			m = bytes.Clone(u.pure[r.n(i)])
			switch r.n(7) {
			case 0:
				if len(m) > 0 {
					m[len(m)-1] ^= byte(r.in(1, 255))
				}
			case 1:
				if len(m) > 0 {
					m[r.n(len(m))] ^= 1 << r.n(8)
				}
			case 2:
				if len(m) > 0 {
					m = m[:len(m)-1]
				}
			case 3:
				m = append(m, 0)
			case 4:
				m = append(m, byte(r.n(256)))
			case 5:
				m = m[:len(m)/2]
			case 6:
				if len(m) > 0 {
					m[0] ^= byte(r.in(1, 255))
				}
			}
		case x < 5: // runs of one value
			m = bytes.Repeat([]byte{byte([]int{0, 0, 1, 16, 17, 32, 33, 48, 64, 255, r.n(256)}[r.n(11)])}, u.size(r))
		default:
			n := u.size(r)
			m = ref.NewStream(fmt.Sprint("msg", i), u.seed).Next(n)
		}
		u.pure = append(u.pure, m)
	}
	for i, m := range u.pure {
		if len(m) == 0 && r.p(1, 2) {
			u.msgs = append(u.msgs, nil)
			continue
		}
		u.msgs = append(u.msgs, u.g.buf(fmt.Sprintf("message %d", i), m))
	}
}

// composed makes a message that is, or begins or ends with, a key, an issued signature or the like.
func (u *U) composed(r *rng, i int) []byte {
	k := r.n(len(u.privs))
	var m []byte
	other := []byte{}
	if i > 0 {
		other = u.pure[r.n(i)]
	}
	switch r.n(8) {
	case 0:
		m = u.pubs[k]
	case 1:
		m = u.privs[k]
	case 2:
		m = ref.Prefix(u.privs[k])
	case 3:
		m = ref.Sign(u.privs[k], other)
	case 4:
		m = ref.Sign(u.privs[k], other)[:32]
	case 5:
		m = append(bytes.Clone(u.pubs[k]), u.pubs[r.n(len(u.pubs))]...)
	case 6:
		m = []byte(fmt.Sprintf("%x", u.pubs[k]))
	case 7:
		m = append(ref.Prefix(u.privs[k]), other...)
	}
	m = bytes.Clone(m)
	switch r.n(4) {
	case 0:
		m = append(m, other...)
	case 1:
		m = append(bytes.Clone(other), m...)
	}
	return m
}

func (u *U) size(r *rng) int {
	for {
		var n int
		switch x := r.n(10); {
		case x < 6:
			n = msgSizes[r.n(len(msgSizes))]
		case x < 9:
			n = r.n(150)
		default:
			n = r.n(1 << 13)
		}
		if u.cfg.MaxLen >= 9000 && r.p(1, 6) {
			n = u.cfg.MaxLen - r.n(u.cfg.MaxLen*7/8)
			if r.p(1, 2) {
				n &^= 15
			}
		}
		if n <= u.cfg.MaxLen || n <= 300 {
			return n
		}
	}
}

func newU(w *World, cfg *Cfg, seed uint64) *U {
	u := &U{w: w, cfg: cfg, seed: seed, g: &guard{seed: seed}, enc: map[string]crypto.BlockCipher{}, lame: map[string]*crypto.Ed25519BlockCipher{}, byID: map[string]*opState{}}
	u.genKeys()
	u.genMsgs()
	r := keyed(seed, "misc")
	for i := 0; i < 4; i++ {
		u.salts = append(u.salts, u.g.buf(fmt.Sprintf("salt %d", i), r.bytes(32)))
	}
	for {
		b := r.bytes(32)
		b[31] &= 0x7f
		if !ref.OnCurve(b) {
			u.off = b
			break
		}
	}
	for i := 0; i < cfg.Srcs; i++ {
		s := &Source{w: w, name: fmt.Sprintf("S%d", i)}
		if i < len(cfg.Hang) {
			s.hungAt = cfg.Hang[i]
			if i < len(cfg.HangMs) {
				s.hungFor = int64(cfg.HangMs[i]) * 1_000_000
			}
		}
		u.srcs = append(u.srcs, s)
	}
	return u
}

// src i; the last one is the process-wide source.
func (u *U) source(i int) *Source {
	i = ((i % (len(u.srcs) + 1)) + len(u.srcs) + 1) % (len(u.srcs) + 1)
	if i == len(u.srcs) {
		return defaultSource
	}
	return u.srcs[i]
}

// setup builds the shared objects; it runs on a simulated thread of its own.
func (u *U) setup() {
	r := keyed(u.seed, "setup")
	for i, raw := range u.privs {
		buf := u.g.buf(fmt.Sprintf("private key %d", i), raw)
		pbuf := u.g.buf(fmt.Sprintf("public key %d", i), u.pubs[i])
		priv := crypto.NewPrivateKey(buf)
		var kp *crypto.KeyPair
		var err error
		if u.cfg.Lazy || r.p(1, 2) {
			kp, err = crypto.NewKeyPair(priv, crypto.NewPublicKey(pbuf), nil)
		} else {
			kp, err = crypto.NewKeyPair(priv, nil, crypto.CryptoEngines.Ed25519Engine)
		}
		if err != nil || kp == nil {
			u.w.fail("setup", "setup", "NewKeyPair failed for a good key: %v", err)
			return
		}
		u.kps = append(u.kps, kp)
		pk, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(u.g.buf(fmt.Sprintf("public key %d (peer)", i), u.pubs[i])), nil)
		if err != nil || pk == nil {
			u.w.fail("setup", "setup", "NewKeyPair failed for a good public key: %v", err)
			return
		}
		u.pks = append(u.pks, pk)
		ep, err := crypto.NewEd25519EncodedGroupElement(u.g.buf(fmt.Sprintf("point %d", i), u.pubs[i]))
		if err != nil || ep == nil {
			u.w.fail("setup", "setup", "NewEd25519EncodedGroupElement failed for 32 bytes: %v", err)
			return
		}
		u.epts, u.pts = append(u.epts, ep), append(u.pts, nil)
		if !u.cfg.Lazy {
			if u.pts[i], err = ep.Decode(); err != nil {
				u.w.fail("setup", "setup", "a public key does not decode: %v", err)
				return
			}
		}
		u.sgn = append(u.sgn, []crypto.DsaSigner{
			crypto.NewSignerFromKeyPair(kp, nil),
			crypto.NewSignerFromKeyPair(kp, crypto.CryptoEngines.Ed25519Engine),
			crypto.NewEd25519DsaSigner(kp),
			crypto.NewSignerFromKeyPair(pk, nil),
		})
	}
	for i := 0; i <= len(u.srcs); i++ {
		if i == len(u.srcs) {
			u.gens = append(u.gens, crypto.NewEd25519KeyGenerator(nil))
			u.engs = append(u.engs, crypto.CryptoEngines.DefaultEngine)
			break
		}
		u.gens = append(u.gens, crypto.NewEd25519KeyGenerator(u.srcs[i].dressed()))
		u.engs = append(u.engs, simEngine{u.srcs[i].dressed()})
	}
	for i := range u.sigs {
		s := &u.sigs[i]
		buf := u.g.buf(fmt.Sprintf("signature %d", i), s.raw)
		obj, err := crypto.NewSignatureFromBytes(buf)
		if err != nil {
			u.w.fail("setup", "setup", "NewSignatureFromBytes failed on 64 bytes: %v", err)
			return
		}
		s.obj = obj
	}
}

// addSig adds a signature by key over msg, damaged as variant says.
func (u *U) addSig(r *rng) int {
	s := sigInfo{key: r.n(len(u.privs)), msg: r.n(len(u.pure)), variant: "issued"}
	if k, _ := rareOf(u.seed); k != nil && r.p(1, 2) {
		s.key, s.msg = 0, 0
	}
	s.raw = ref.Sign(u.privs[s.key], u.pure[s.msg])
	switch r.n(8) {
	case 0:
		s.variant = "bit flipped"
		s.raw[r.n(64)] ^= 1 << r.n(8)
	case 1:
		k := int64(r.in(1, 14))
		if b := ref.AddOrder(s.raw, k); b != nil {
			s.variant, s.raw = fmt.Sprintf("order added %d times", k), b
		}
	case 2:
		s.variant = "zero second half"
		for i := 32; i < 64; i++ {
			s.raw[i] = 0
		}
	}
	u.sigs = append(u.sigs, s)
	return len(u.sigs) - 1
}

// addCT adds a ciphertext made by the reference, perhaps damaged.
func (u *U) addCT(r *rng, damage bool) int {
	c := ctInfo{from: r.n(len(u.privs)), to: r.n(len(u.privs)), variant: "intact"}
	m := u.pure[r.n(len(u.pure))]
	if len(m) > 5000 {
		m = m[:5000]
	}
	head := r.bytes(48)
	if n := len(u.cts); n > 0 && r.p(1, 3) && len(u.cts[n-1].raw) >= 48 {
		// The header of another ciphertext, or one much like it: senders whose sources repeat themselves.
		head = bytes.Clone(u.cts[r.n(n)].raw)
		if len(head) < 48 {
			head = bytes.Clone(u.cts[n-1].raw)
		}
		head = head[:48:48]
		switch r.n(5) {
		case 0:
			copy(head[:32], collide(r, head[:32]))
		case 1:
			copy(head[32:], collide(r, head[32:]))
		case 2:
			copy(head[32:], r.bytes(16))
		}
	}
	if r.p(1, 10) { // a salt that takes out a part of the shared secret
		x, err := ref.Secret(u.privs[c.from], u.pubs[c.to])
		if err != nil {
			panic(err)
		}
		i, n := 0, []int{1, 2, 4, 16, 31, 32}[r.n(6)]
		if r.p(1, 2) {
			i = 32 - n
		}
		v := byte(0xff * r.n(2))
		for ; n > 0; n-- {
			head[i] = x[i] ^ v
			i++
		}
	}
	raw, err := ref.Encrypt(u.privs[c.from], u.pubs[c.to], head, m)
	if err != nil {
		panic(err)
	}
	if damage {
		raw, c.variant = damageCT(r, raw)
	}
	c.want, err = ref.Decrypt(u.privs[c.to], u.pubs[c.from], raw)
	c.bad = err != nil
	c.raw = u.g.buf(fmt.Sprintf("ciphertext %d", len(u.cts)), raw)
	u.cts = append(u.cts, c)
	return len(u.cts) - 1
}

// damageCT is what a disk or channel may do to a ciphertext.
func damageCT(r *rng, b []byte) ([]byte, string) {
	b = bytes.Clone(b)
	switch r.n(9) {
	case 0:
		i := r.n(len(b))
		b[i] ^= 1 << r.n(8)
		return b, fmt.Sprintf("bit flip at byte %d", i)
	case 1:
		n := r.n(len(b))
		return b[:n], fmt.Sprintf("cut to %d bytes", n)
	case 2:
		n := []int{0, 1, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 81, len(b) - 1, len(b) - 15, len(b) - 16, len(b) - 17}[r.n(18)]
		if n < 0 || n > len(b) {
			n = len(b)
		}
		return b[:n], fmt.Sprintf("cut to %d bytes", n)
	case 3:
		n := r.in(1, 40)
		return append(b, r.bytes(n)...), fmt.Sprintf("%d bytes appended", n)
	case 4: // aim at the padding: change the last byte of the block before the last
		i := len(b) - 17
		x := byte(r.in(1, 255))
		if r.p(2, 3) {
			x = byte(r.in(1, 31))
		}
		b[i] ^= x
		return b, fmt.Sprintf("padding byte changed by %#02x", x)
	case 5: // any byte of the padding
		i := len(b) - 17 - r.n(16)
		x := byte(r.in(1, 31))
		b[i] ^= x
		return b, fmt.Sprintf("byte %d of the last plaintext block changed by %#02x", 31-(len(b)-1-i), x)
	case 6:
		n := (len(b) - 48) / 16
		i, j := r.n(n), r.n(n)
		var t [16]byte
		copy(t[:], b[48+16*i:])
		copy(b[48+16*i:48+16*i+16], b[48+16*j:48+16*j+16])
		copy(b[48+16*j:], t[:])
		return b, fmt.Sprintf("blocks %d and %d swapped", i, j)
	case 7:
		i := r.n(len(b))
		n := r.in(1, len(b)-i)
		for k := i; k < i+n; k++ {
			b[k] = 0
		}
		return b, fmt.Sprintf("%d bytes from %d zeroed", n, i)
	default:
		n := (len(b) - 48) / 16
		i := r.n(n)
		return append(b[:48+16*i:48+16*i], b[48+16*(i+1):]...), fmt.Sprintf("block %d dropped", i)
	}
}
