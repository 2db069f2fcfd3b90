package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verif.local/sim/ref"
)

// NetCase is a run of nodes that exchange messages over a simulated channel.
type NetCase struct {
	Nodes   int       `json:"nodes"`
	Msgs    []*NetMsg `json:"msgs"`
	Loss    int       `json:"loss"` // percent, while faults last
	Dup     int       `json:"dup"`
	Corrupt int       `json:"corrupt"`
	Jitter  int       `json:"jitter"` // ms
	Retry   int       `json:"retry"`  // ms
	UntilMs int       `json:"until"`  // faults end
	Flood   int       `json:"flood"`  // percent of packets followed by many damaged copies
	PartMs  [2]int    `json:"part"`   // a partition between odd and even nodes
	Cache   bool      `json:"cache"`  // receivers keep verifiers and ciphers per peer
	Hex     bool      `json:"hex"`    // keys and signatures travel as text
	Reuse   bool      `json:"reuse"`  // a node receives into the same memory again and again
	Kinds   []int     `json:"kinds"`  // enabled kinds of damage
}

// NetMsg is one message to be delivered.
type NetMsg struct {
	ID   string `json:"id"`
	From int    `json:"from"`
	To   int    `json:"to"`
	M    int    `json:"m"`
}

// packet is what travels.
type packet struct {
	id      string
	attempt int
	from    int // claimed sender, for ciphertexts
	pk      []byte
	msg     []byte
	sig     []byte // or the ciphertext
	damage  string
	rewrite bool // the second half is the issued one plus multiples of the order
}

func genNet(c *Case, r *rng) {
	g := &c.Cfg
	n := &NetCase{}
	c.Net = n
	g.Keys = r.in(2, 4)
	g.Msgs = r.in(2, 6)
	g.MaxLen = []int{300, 300, 300, 2000, 9000}[r.n(5)]
	if r.p(1, 12) {
		g.MaxLen = 300000
	}
	big := r.p(1, 150)
	if big {
		g.MaxLen = 2500000
	}
	g.Arms = []int{0, 0, 1, 2, 4}[r.n(5)]
	g.ArmP = []int{30, 60, 100}[r.n(3)]
	g.LockP = []int{0, 0, 10}[r.n(3)]
	g.Stay = []int{0, 30, 60, 90}[r.n(4)]
	g.Lazy = r.p(3, 4)
	g.Srcs = 1
	g.Jump = []int{0, 5, 30}[r.n(3)]
	n.Nodes = g.Keys
	k := r.in(2, 7)
	if c.Prop == "C08" {
		k = r.in(1, 4)
	}
	if big {
		k = r.in(1, 2)
	}
	for i := 0; i < k; i++ {
		m := &NetMsg{ID: fmt.Sprintf("m%d", i), From: r.n(n.Nodes), To: r.n(n.Nodes), M: r.n(g.Msgs)}
		n.Msgs = append(n.Msgs, m)
	}
	n.Loss = []int{0, 10, 30, 60}[r.n(4)]
	n.Dup = []int{0, 20, 60}[r.n(3)]
	n.Corrupt = []int{30, 60, 90, 100}[r.n(4)]
	n.Jitter = []int{0, 5, 50, 500}[r.n(4)]
	n.Retry = []int{20, 50, 200}[r.n(3)]
	n.UntilMs = n.Retry * r.in(2, 12)
	if !big && r.p(1, 60) { // bad times last
		n.UntilMs = n.Retry * r.in(30, 150)
	} else if r.p(1, 25) {
		n.Flood = r.in(5, 60)
	}
	if r.p(1, 4) {
		a := r.n(n.UntilMs)
		n.PartMs = [2]int{a, a + r.n(n.UntilMs-a)}
	}
	n.Cache = r.p(1, 2)
	n.Hex = r.p(1, 4)
	n.Reuse = r.p(1, 2)
	all := sigDamage
	if c.Prop == "C07" {
		all = rewriteDamage
	}
	if c.Prop == "C08" {
		all = ctDamage
	}
	for i := range all {
		if r.p(1, 2) {
			n.Kinds = append(n.Kinds, i)
		}
	}
	if len(n.Kinds) == 0 {
		n.Kinds = []int{r.n(len(all))}
	}
}

// A damage changes p; old holds earlier packets of the run.
type damage struct {
	name string
	f    func(p *packet, r *rng, old []*packet)
}

func flip(b []byte, r *rng) {
	if len(b) > 0 {
		b[r.n(len(b))] ^= 1 << r.n(8)
	}
}

func resize(b []byte, r *rng) []byte {
	switch r.n(4) {
	case 0:
		return b[:r.n(len(b)+1)]
	case 1:
		if len(b) > 0 {
			return b[:len(b)-1]
		}
		return b
	case 2:
		return append(b, 0)
	default:
		return append(b, r.bytes(r.in(1, 33))...)
	}
}

var sigDamage = []damage{
	{"key bit flipped", func(p *packet, r *rng, _ []*packet) { flip(p.pk, r) }},
	{"message bit flipped", func(p *packet, r *rng, _ []*packet) { flip(p.msg, r) }},
	{"signature bit flipped", func(p *packet, r *rng, _ []*packet) { flip(p.sig, r) }},
	{"top bits of the signature flipped", func(p *packet, r *rng, _ []*packet) { p.sig[31+32*r.n(2)] ^= byte(r.in(1, 15)) << 4 }},
	{"message cut or extended", func(p *packet, r *rng, _ []*packet) { p.msg = resize(p.msg, r) }},
	{"signature cut or extended", func(p *packet, r *rng, _ []*packet) { p.sig = resize(p.sig, r) }},
	{"key cut or extended", func(p *packet, r *rng, _ []*packet) { p.pk = resize(p.pk, r) }},
	{"key of another packet", func(p *packet, r *rng, old []*packet) { p.pk = bytes.Clone(pick(old, r.n(99)).pk) }},
	{"message of another packet", func(p *packet, r *rng, old []*packet) { p.msg = bytes.Clone(pick(old, r.n(99)).msg) }},
	{"signature of another packet", func(p *packet, r *rng, old []*packet) { p.sig = bytes.Clone(pick(old, r.n(99)).sig) }},
	{"first half of another packet's signature", func(p *packet, r *rng, old []*packet) { copy(p.sig[:32], pick(old, r.n(99)).sig) }},
	{"second half of another packet's signature", func(p *packet, r *rng, old []*packet) { copy(p.sig[32:], pick(old, r.n(99)).sig[32:]) }},
	{"halves swapped", func(p *packet, r *rng, _ []*packet) {
		p.sig = append(bytes.Clone(p.sig[32:]), p.sig[:32]...)
	}},
	{"key and first half swapped", func(p *packet, r *rng, _ []*packet) {
		k := bytes.Clone(p.pk)
		copy(p.pk, p.sig[:32])
		copy(p.sig[:32], k)
	}},
	{"bytes zeroed", func(p *packet, r *rng, _ []*packet) {
		b := [][]byte{p.pk, p.msg, p.sig, p.sig[:32], p.sig[32:]}[r.n(5)]
		if r.p(1, 2) && len(b) > 0 {
			i := r.n(len(b))
			b = b[i : i+r.in(0, len(b)-i)]
		}
		for i := range b {
			b[i] = 0
		}
	}},
	{"bytes replaced", func(p *packet, r *rng, _ []*packet) {
		b := [][]byte{p.pk, p.msg, p.sig, p.sig[:32], p.sig[32:]}[r.n(5)]
		copy(b, r.bytes(len(b)))
	}},
	{"first half of the message only", func(p *packet, r *rng, _ []*packet) { p.msg = p.msg[:len(p.msg)/2] }},
	{"message doubled", func(p *packet, r *rng, _ []*packet) { p.msg = append(p.msg, p.msg...) }},
	{"last byte of the message changed", func(p *packet, r *rng, _ []*packet) {
		if len(p.msg) > 0 {
			p.msg[len(p.msg)-1] ^= byte(r.in(1, 255))
		}
	}},
	{"byte moved between message and signature", func(p *packet, r *rng, _ []*packet) {
		p.msg = append(p.msg, p.sig[0])
		p.sig = p.sig[1:]
	}},
	{"order added to the second half", func(p *packet, r *rng, _ []*packet) {
		if b := ref.AddOrder(p.sig, int64(r.in(1, 15))); b != nil {
			p.sig = b
		}
	}},
	{"signature by the wrong key", func(p *packet, r *rng, _ []*packet) {
		p.sig = ref.Sign(r.bytes(32), p.msg)
	}},
	{"key negated", func(p *packet, r *rng, _ []*packet) { p.pk[31] ^= 0x80 }},
	{"first half negated", func(p *packet, r *rng, _ []*packet) { p.sig[31] ^= 0x80 }},
	{"forged for the all-zero key", func(p *packet, r *rng, _ []*packet) {
		p.pk, p.sig = make([]byte, 32), ref.ForgeSmall(r.bytes(8))
		p.msg = append(p.msg[:len(p.msg):len(p.msg)], r.bytes(4)...)
	}},
	{"message rearranged", func(p *packet, r *rng, _ []*packet) { p.msg = collide(r, p.msg) }},
	{"message spelt otherwise", func(p *packet, r *rng, _ []*packet) { p.msg = respell(r, p.msg) }},
	{"digest of the message", func(p *packet, r *rng, _ []*packet) { p.msg = digest(r, p.msg) }},
	{"signature rearranged", func(p *packet, r *rng, _ []*packet) { p.sig = collide(r, p.sig) }},
	{"key rearranged", func(p *packet, r *rng, _ []*packet) { p.pk = collide(r, p.pk) }},
	{"two kinds at once", nil},
	{"two kinds at once", nil},
	{"two kinds at once", nil},
}

// twice applies two kinds of damage one after the other.
func twice(all *[]damage) func(p *packet, r *rng, old []*packet) {
	return func(p *packet, r *rng, old []*packet) {
		defer func() {
			_ = recover() // the second kind does not apply to what the first has left
		}()
		name := ""
		for i := 0; i < 2; i++ {
			d := pick(*all, r.n(99))
			for d.name == "two kinds at once" {
				d = pick(*all, r.n(99))
			}
			p.damage = ""
			d.f(p, r, old)
			p.rewrite = false
			if p.damage != "" {
				name += " + " + p.damage
			} else {
				name += " + " + d.name
			}
			p.damage = "two kinds at once" + name
		}
	}
}

var rewriteDamage = []damage{
	{"order added", func(p *packet, r *rng, _ []*packet) {
		if b := ref.AddOrder(p.sig, int64(r.in(1, 15))); b != nil {
			p.sig, p.rewrite = b, true
		}
	}},
	{"order added once", func(p *packet, r *rng, _ []*packet) {
		if b := ref.AddOrder(p.sig, 1); b != nil {
			p.sig, p.rewrite = b, true
		}
	}},
	{"order added as often as fits", func(p *packet, r *rng, _ []*packet) {
		for k := int64(15); k > 0; k-- {
			if b := ref.AddOrder(p.sig, k); b != nil {
				p.sig, p.rewrite = b, true
				return
			}
		}
	}},
	{"order doubled until it fits in 255 or 256 bits", func(p *packet, r *rng, _ []*packet) {
		if b := ref.AddOrder(p.sig, []int64{2, 4, 7, 8}[r.n(4)]); b != nil {
			p.sig, p.rewrite = b, true
		}
	}},
	{"second half negated", func(p *packet, r *rng, _ []*packet) {
		s := new(big.Int).Sub(ref.L, ref.Int(p.sig[32:]))
		p.sig = append(p.sig[:32:32], ref.Bytes32(s)...)
	}},
	{"second half negated and first half negated", func(p *packet, r *rng, _ []*packet) {
		s := new(big.Int).Sub(ref.L, ref.Int(p.sig[32:]))
		p.sig = append(p.sig[:32:32], ref.Bytes32(s)...)
		p.sig[31] ^= 0x80
	}},
	{"first half negated", func(p *packet, r *rng, _ []*packet) { p.sig[31] ^= 0x80 }},
	{"second half zero", func(p *packet, r *rng, _ []*packet) { clear(p.sig[32:]) }},
	{"second half is the order", func(p *packet, r *rng, _ []*packet) { copy(p.sig[32:], ref.Bytes32(ref.L)) }},
	{"second half is the order plus or minus little", func(p *packet, r *rng, _ []*packet) {
		copy(p.sig[32:], ref.Bytes32(new(big.Int).Add(ref.L, big.NewInt(int64(r.in(-3, 3))))))
	}},
	{"low 64 bits of the order", func(p *packet, r *rng, _ []*packet) { copy(p.sig[32:40], ref.Bytes32(ref.L)[:8]) }},
	{"low 64 bits zero", func(p *packet, r *rng, _ []*packet) { clear(p.sig[32:40]) }},
	{"high bits set", func(p *packet, r *rng, _ []*packet) { p.sig[63] |= byte(r.in(1, 15)) << 4 }},
	{"a power of two added", func(p *packet, r *rng, _ []*packet) {
		s := new(big.Int).Add(ref.Int(p.sig[32:]), new(big.Int).Lsh(big.NewInt(1), uint(r.in(0, 255))))
		if s.BitLen() <= 256 {
			p.sig = append(p.sig[:32:32], ref.Bytes32(s)...)
		}
	}},
	{"second half all ones", func(p *packet, r *rng, _ []*packet) {
		for i := 32; i < 64; i++ {
			p.sig[i] = 0xff
		}
	}},
	{"signature bit flipped", func(p *packet, r *rng, _ []*packet) { flip(p.sig, r) }},
	{"halves swapped", func(p *packet, r *rng, _ []*packet) { p.sig = append(bytes.Clone(p.sig[32:]), p.sig[:32]...) }},
	{"field prime added to the first half", func(p *packet, r *rng, _ []*packet) {
		prime := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
		s := new(big.Int).Add(ref.Int(p.sig[:32]), prime)
		if s.BitLen() <= 256 {
			copy(p.sig[:32], ref.Bytes32(s))
		}
	}},
	{"cut or extended", func(p *packet, r *rng, _ []*packet) { p.sig = resize(p.sig, r) }},
	{"two kinds at once", nil},
}

func init() {
	for _, l := range []*[]damage{&sigDamage, &rewriteDamage, &ctDamage} {
		for i := range *l {
			if (*l)[i].f == nil {
				(*l)[i].f = twice(l)
			}
		}
	}
}

var ctDamage = []damage{
	{"generic", func(p *packet, r *rng, _ []*packet) { p.sig, p.damage = damageCT(r, p.sig) }},
	{"generic, twice", func(p *packet, r *rng, _ []*packet) {
		p.sig, p.damage = damageCT(r, p.sig)
		if len(p.sig) >= 64 && (len(p.sig)-48)%16 == 0 {
			var d string
			p.sig, d = damageCT(r, p.sig)
			p.damage += "; " + d
		}
	}},
	{"misattributed", func(p *packet, r *rng, _ []*packet) { p.from = r.n(1 << 10) }},
	{"header of another packet", func(p *packet, r *rng, old []*packet) { copy(p.sig[:48], pick(old, r.n(99)).sig) }},
	{"salt of another packet", func(p *packet, r *rng, old []*packet) { copy(p.sig[:32], pick(old, r.n(99)).sig) }},
	{"IV of another packet", func(p *packet, r *rng, old []*packet) { copy(p.sig[32:48], pick(old, r.n(99)).sig[32:]) }},
	{"body of another packet", func(p *packet, r *rng, old []*packet) {
		p.sig = append(p.sig[:48:48], pick(old, r.n(99)).sig[48:]...)
	}},
	{"body of another packet appended", func(p *packet, r *rng, old []*packet) { p.sig = append(p.sig, pick(old, r.n(99)).sig[48:]...) }},
	{"cut", func(p *packet, r *rng, _ []*packet) { p.sig = p.sig[:r.n(len(p.sig))] }},
	{"cut to a boundary", func(p *packet, r *rng, _ []*packet) {
		n := []int{0, 16, 32, 48, 63, 64, 65, 80}[r.n(8)]
		if n <= len(p.sig) {
			p.sig = p.sig[:n]
		}
	}},
	{"extended", func(p *packet, r *rng, _ []*packet) { p.sig = append(p.sig, r.bytes(r.in(1, 64))...) }},
	{"padding rewritten", func(p *packet, r *rng, _ []*packet) {
		// The last plaintext byte becomes any value of interest.
		p.sig[len(p.sig)-17] ^= byte(r.in(1, 31))
	}},
	{"padding rewritten consistently", func(p *packet, r *rng, _ []*packet) {
		// XOR all of the last plaintext block with one value: a full block of padding stays well-formed for some.
		x := byte(r.in(1, 31))
		k := r.in(1, 16)
		for i := 0; i < k; i++ {
			p.sig[len(p.sig)-17-i] ^= x
		}
	}},
	{"random bytes", func(p *packet, r *rng, _ []*packet) { p.sig = r.bytes(r.in(0, 160)) }},
	{"random blocks", func(p *packet, r *rng, _ []*packet) { p.sig = r.bytes(48 + 16*r.in(1, 6)) }},
	{"last block only", func(p *packet, r *rng, _ []*packet) {
		p.sig = append(p.sig[:48:48], p.sig[len(p.sig)-16:]...)
	}},
	{"sector zeroed", func(p *packet, r *rng, _ []*packet) {
		i := r.n(len(p.sig)) &^ 15
		for j := i; j < i+16 && j < len(p.sig); j++ {
			p.sig[j] = 0
		}
	}},
	{"two kinds at once", nil},
	{"two kinds at once", nil},
}

// net is the state of a run.
type net struct {
	c       *Case
	n       *NetCase
	w       *World
	u       *U
	inbox   [][]*packet
	acked   map[string]bool
	got     map[string]bool // intact and accepted
	flying  int
	closed  bool
	old     []*packet
	issued  map[string]bool
	known   map[string][]byte // key and message -> issued signature
	vcache  []map[string]crypto.DsaSigner
	dcache  map[string]crypto.BlockCipher
	rbuf    map[string][]byte
	nops    int
	lastAct int64
}

func runNet(c *Case) *CaseResult {
	w := start(c)
	u := newU(w, &c.Cfg, c.USeed)
	n := &net{c: c, n: c.Net, w: w, u: u, acked: map[string]bool{}, got: map[string]bool{}, issued: map[string]bool{}, known: map[string][]byte{}, dcache: map[string]crypto.BlockCipher{}, rbuf: map[string][]byte{}}
	w.inPhase("setup", func() {
		w.spawn("setup", func(*Thread) { u.setup() })
		w.run()
	})
	if w.viol == nil {
		w.threads = nil
		for i := 0; i < n.n.Nodes; i++ {
			i := i
			n.inbox = append(n.inbox, nil)
			n.vcache = append(n.vcache, map[string]crypto.DsaSigner{})
			w.spawn(fmt.Sprintf("n%d", i), func(t *Thread) { n.node(t, i) })
		}
		limit := int64(n.n.UntilMs+n.n.Jitter+40*n.n.Retry) * 1_000_000
		w.after(limit, func() { n.closed = true })
		w.run()
	}
	if w.viol == nil {
		for _, m := range n.n.Msgs {
			if !n.got[m.ID] {
				w.fail("undelivered", m.ID, "message %s from node %d to node %d was never accepted although the channel stopped failing at %d ms and it was retransmitted until %d ms", m.ID, m.From, m.To, n.n.UntilMs, w.now/1_000_000)
			}
		}
	}
	res := result(c, w, u)
	res.Calls = n.nops
	if wantTrace {
		for _, st := range u.ops {
			res.Trace = append(res.Trace, fmt.Sprintf("[%d..%d] node %d %s -> %s", st.start, st.end, st.tid, st.op.ID, st.res))
		}
	}
	return res
}

// pair and triple identify a key and message, and a signature with them; keys and signatures are told apart by length.
func pair(p *packet) string   { return fmt.Sprintf("%x/%x", p.pk, p.msg) }
func triple(p *packet) string { return fmt.Sprintf("%x/%x/%x", p.pk, p.msg, p.sig) }

func (n *net) finished() bool {
	if n.closed {
		return true
	}
	for _, m := range n.n.Msgs {
		if !n.acked[m.ID] {
			return false
		}
	}
	return n.flying == 0
}

// rx is received data in the memory of node me.
func (n *net) rx(me int, what string, data []byte) []byte {
	if !n.n.Reuse || len(data) > 20000 {
		return n.u.g.buf("received "+what, data)
	}
	k := fmt.Sprint(me, what)
	if cap(n.rbuf[k]) < len(data) {
		n.rbuf[k] = make([]byte, max(len(data), 600))
	}
	b := n.rbuf[k][:len(data)]
	copy(b, data)
	return b
}

// lib makes one library call.
func (n *net) lib(t *Thread, id, kind string, src *Source, f func(res *Result)) *Result {
	op := &Op{ID: id, K: kind}
	st := &opState{op: op, tid: t.id, src: src}
	n.u.ops = append(n.u.ops, st)
	n.nops++
	t.begin(st)
	st.res = n.u.protect(f)
	t.finish()
	n.w.mix("e", id, st.res.String())
	if st.res.hang != "" {
		n.w.fail(kind+":hang", id, "%s does not return: %s", id, st.res.hang)
	} else if st.res.Panic != "" {
		n.w.fail(kind+":panic", id, "call %s (%s) panics: %s\n%s", id, kind, st.res.Panic, st.res.Stack)
	}
	return st.res
}

// node sends its messages and serves what arrives.
func (n *net) node(t *Thread, me int) {
	type pending struct {
		m   *NetMsg
		p   *packet
		at  int64
		try int
	}
	var out []*pending
	for _, m := range n.n.Msgs {
		if m.From == me {
			out = append(out, &pending{m: m})
		}
	}
	w := n.w
	for w.viol == nil {
		// Something to send?
		for _, o := range out {
			if o.p == nil && w.viol == nil {
				o.p = n.make(t, o.m)
				if o.p == nil {
					return
				}
				n.old = append(n.old, o.p)
				t.st = ready
				t.park()
			}
			if !n.acked[o.m.ID] && w.now >= o.at && w.viol == nil {
				o.at = w.now + int64(n.n.Retry)*1_000_000
				n.transmit(o.p, o.m, o.try)
				o.try++
				w.after(o.at-w.now, func() {}) // wakes the clock
			}
		}
		for len(n.inbox[me]) > 0 && w.viol == nil {
			p := n.inbox[me][0]
			n.inbox[me] = n.inbox[me][1:]
			n.receive(t, me, p)
			n.flying--
			t.st = ready
			t.park()
		}
		if n.finished() {
			return
		}
		t.waitUntil(func() bool {
			if len(n.inbox[me]) > 0 || n.finished() {
				return true
			}
			for _, o := range out {
				if !n.acked[o.m.ID] && w.now >= o.at {
					return true
				}
			}
			return false
		})
	}
}

func clonePacket(p *packet) *packet {
	q := *p
	q.pk, q.msg, q.sig = bytes.Clone(p.pk), bytes.Clone(p.msg), bytes.Clone(p.sig)
	return &q
}

// transmit hands a packet to the channel.
func (n *net) transmit(p *packet, m *NetMsg, try int) {
	w := n.w
	key := fmt.Sprintf("%s/%d", m.ID, try)
	faulty := w.now < int64(n.n.UntilMs)*1_000_000
	if faulty && n.n.PartMs[1] > 0 && (m.From+m.To)%2 == 1 && w.now >= int64(n.n.PartMs[0])*1e6 && w.now < int64(n.n.PartMs[1])*1e6 {
		w.counts["net-partitioned"]++
		return
	}
	kinds := sigDamage
	if n.c.Prop == "C07" {
		kinds = rewriteDamage
	}
	if n.c.Prop == "C08" {
		kinds = ctDamage
	}
	copies := 1
	if faulty {
		// 0: intact, on time. Otherwise bit 0: lost; bits 1-2: extra copies.
		v := w.ch.pick("net/"+key, func(v int64) string {
			if v&1 != 0 {
				return "lost"
			}
			return fmt.Sprintf("%d extra copies", v>>1)
		}, func(r *rng) int64 {
			if r.p(n.n.Loss, 100) {
				return 1
			}
			if r.p(n.n.Dup, 100) {
				return int64(r.in(1, 2)) << 1
			}
			return 0
		})
		if v&1 != 0 {
			w.counts["net-lost"]++
			copies = 0
		} else if v > 0 {
			copies += int(v >> 1)
			w.counts["net-duplicated"]++
		}
	}
	plain := copies
	if faulty && n.n.Flood > 0 && len(p.msg)+len(p.sig) < 4000 {
		if v := w.ch.pick("flood/"+key, func(v int64) string { return fmt.Sprintf("%d damaged copies", v) }, func(r *rng) int64 {
			if r.p(n.n.Flood, 100) {
				return int64([]int{4, 9, 17, 33, 65, 101, 130}[r.n(7)])
			}
			return 0
		}); v > 0 {
			copies += int(v)
			w.counts["net-flooded"]++
		}
	}
	for i := 0; i < copies; i++ {
		q := clonePacket(p)
		q.attempt = try
		to := m.To
		delay := int64(1)
		ck := fmt.Sprintf("%s/%d", key, i)
		if faulty {
			d := w.ch.pick("delay/"+ck, func(v int64) string { return fmt.Sprintf("%d ms late", v) }, func(r *rng) int64 {
				if n.n.Jitter == 0 || r.p(1, 3) {
					return 0
				}
				return int64(r.n(n.n.Jitter))
			})
			if d > 0 {
				delay += d
				w.counts["net-delayed"]++
			}
			v := w.ch.pick("damage/"+ck, func(v int64) string { return kinds[int(v&0xff)-1].name }, func(r *rng) int64 {
				if i < plain && !r.p(n.n.Corrupt, 100) {
					return 0
				}
				k := n.n.Kinds[r.n(len(n.n.Kinds))]
				return int64(k+1) | int64(r.next()&0xffffffff)<<8
			})
			if v != 0 {
				k := kinds[int(v&0xff)-1]
				q.damage = k.name
				k.f(q, &rng{uint64(v >> 8)}, n.old)
				if q.damage != k.name {
					q.damage = k.name + ": " + q.damage
				}
				w.counts["net-damaged: "+k.name]++
			}
			if n.c.Prop == "C08" {
				if x := w.ch.pick("redirect/"+ck, nil, func(r *rng) int64 {
					if r.p(n.n.Corrupt, 400) {
						return int64(r.in(1, n.n.Nodes))
					}
					return 0
				}); x > 0 {
					to = int(x-1) % n.n.Nodes
					w.counts["net-misdelivered"]++
				}
			}
		}
		n.flying++
		w.after(delay*1_000_000, func() { n.inbox[to] = append(n.inbox[to], q) })
	}
}

// make produces the packet of a message.
func (n *net) make(t *Thread, m *NetMsg) *packet {
	u := n.u
	msg := u.pure[idx(len(u.pure), m.M)]
	p := &packet{id: m.ID, from: m.From, pk: bytes.Clone(u.pubs[m.From]), msg: bytes.Clone(msg)}
	if n.c.Prop == "C08" {
		r := n.lib(t, "enc/"+m.ID, "enc", u.srcs[0], func(res *Result) {
			out, err := crypto.NewEd25519BlockCipher(u.kps[m.From], u.pks[m.To], u.srcs[0]).Encrypt(u.msgs[idx(len(u.msgs), m.M)])
			if !res.err(err, out == nil) {
				res.Out = bytes.Clone(out)
			}
		})
		if n.w.viol != nil {
			return nil
		}
		if r.HasErr || len(r.Out) < 64 {
			n.w.fail("enc:failed", "enc/"+m.ID, "encrypting message %s failed: %s", m.ID, r)
			return nil
		}
		p.sig = r.Out
		return p
	}
	r := n.lib(t, "sign/"+m.ID, "sign", nil, func(res *Result) {
		sig, err := u.sgn[m.From][0].Sign(u.msgs[idx(len(u.msgs), m.M)])
		if !res.err(err, sig == nil) {
			res.Out = sigRaw(sig)
		}
	})
	if n.w.viol != nil {
		return nil
	}
	if r.HasErr || len(r.Out) != 64 {
		n.w.fail("sign:failed", "sign/"+m.ID, "signing message %s failed: %s", m.ID, r)
		return nil
	}
	p.sig = r.Out
	n.issued[triple(p)] = true
	if o, ok := n.known[pair(p)]; ok && !bytes.Equal(o, p.sig) && n.c.Prop == "C07" {
		// Two issued signatures of one message: both are the signer's, nothing to say here.
		n.w.probes["two_issued"]++
	}
	n.known[pair(p)] = p.sig
	return p
}

func (n *net) receive(t *Thread, me int, p *packet) {
	if n.c.Prop == "C08" {
		n.decrypt(t, me, p)
		return
	}
	u, w := n.u, n.w
	id := fmt.Sprintf("recv/%s/%d/%d", p.id, p.attempt, n.nops)
	truth := n.issued[triple(p)]
	var canon, again bool
	var fixed []byte
	r := n.lib(t, id, "verify", nil, func(res *Result) {
		res.Out = []byte{0}
		var v crypto.DsaSigner
		if n.n.Cache {
			v = n.vcache[me][string(p.pk)]
		}
		if v == nil {
			pk := p.pk
			if !n.n.Cache {
				pk = n.rx(me, "key", p.pk)
			}
			pub := crypto.NewPublicKey(pk)
			if n.n.Hex {
				var err error
				pub, err = crypto.NewPublicKeyfromHex(hex.EncodeToString(p.pk))
				if err != nil {
					res.err(err, pub == nil)
					return
				}
			}
			kp, err := crypto.NewKeyPair(nil, pub, nil)
			if err != nil {
				res.err(err, kp == nil)
				return
			}
			v = crypto.NewSignerFromKeyPair(kp, nil)
			if n.n.Cache {
				n.vcache[me][string(p.pk)] = v
			}
		}
		sig, err := crypto.NewSignatureFromBytes(n.rx(me, "signature", p.sig))
		if err != nil {
			res.err(err, sig == nil)
			return
		}
		msg := n.rx(me, "message", p.msg)
		if v.Verify(msg, sig) {
			res.Out = []byte{1}
		}
		if n.c.Prop == "C07" {
			canon = v.IsCanonicalSignature(sig)
			f, err := v.MakeSignatureCanonical(sig)
			if err == nil && f != nil {
				fixed = sigRaw(f)
				again = v.Verify(msg, f)
			}
		}
	})
	u.g.bufs = u.g.bufs[:0] // received packets are not kept
	if w.viol != nil {
		return
	}
	got := !r.HasErr && len(r.Out) == 1 && r.Out[0] == 1
	if got && !truth && !bytes.Equal(p.pk, make([]byte, 32)) && ref.SmallOrder(p.pk) {
		w.probes["key_of_small_order"]++ // nobody's key; the property speaks of the all-zero one alone
		return
	}
	what := p.damage
	if what == "" {
		what = "undamaged"
	}
	if got != truth {
		if got {
			w.fail("accepted-not-issued", id, "the receiver accepted a signature that the key's holder never issued over this message [%s]: key %x message %s signature %x", what, p.pk, short(p.msg), p.sig)
		} else {
			w.fail("rejected-issued", id, "the receiver rejected (%s) a signature that the key's holder issued over exactly this message [%s]: key %x message %s signature %x", r, what, p.pk, short(p.msg), p.sig)
		}
		return
	}
	if n.c.Prop == "C07" && len(p.sig) == 64 {
		switch {
		case truth:
			if !canon {
				w.fail("issued-not-canonical", id, "an issued signature is reported as not canonical: %x", p.sig)
			} else if !bytes.Equal(fixed, p.sig) {
				w.fail("canonical-changed", id, "making an issued signature canonical changed it from %x to %x", p.sig, fixed)
			} else if !again {
				w.fail("canonical-rejected", id, "an issued signature made canonical no longer verifies: %x", fixed)
			}
		case p.rewrite:
			iss := n.known[pair(p)]
			w.probes["rewritten_received"]++
			if canon {
				w.fail("rewritten-canonical", id, "a signature with multiples of the group order added [%s] is reported as canonical: %x, issued was %x", what, p.sig, iss)
			} else if !bytes.Equal(fixed, iss) {
				w.fail("rewritten-not-restored", id, "making a rewritten signature [%s] canonical gave %x, issued was %x", what, fixed, iss)
			} else if !again {
				w.fail("canonical-rejected", id, "a rewritten signature made canonical does not verify: %x", fixed)
			}
		}
		if w.viol != nil {
			return
		}
	}
	if got {
		w.probes["accepted"]++
	} else {
		w.probes["rejected"]++
	}
	if got && p.damage == "" || got && truth && n.isOwn(p) {
		n.got[p.id] = true
		n.ack(p)
	}
}

// isOwn reports whether the packet still says what its message says.
func (n *net) isOwn(p *packet) bool {
	for _, m := range n.n.Msgs {
		if m.ID == p.id {
			return bytes.Equal(p.pk, n.u.pubs[m.From]) && bytes.Equal(p.msg, n.u.pure[idx(len(n.u.pure), m.M)])
		}
	}
	return false
}

func (n *net) ack(p *packet) {
	w := n.w
	if w.now < int64(n.n.UntilMs)*1_000_000 {
		if w.ch.pick(fmt.Sprintf("ack/%s/%d", p.id, p.attempt), nil, func(r *rng) int64 {
			if r.p(n.n.Loss, 100) {
				return 1
			}
			return 0
		}) != 0 {
			w.counts["net-ack-lost"]++
			return
		}
	}
	w.after(1_000_000, func() { n.acked[p.id] = true })
}

func (n *net) decrypt(t *Thread, me int, p *packet) {
	u, w := n.u, n.w
	from := idx(n.n.Nodes, p.from)
	id := fmt.Sprintf("recv/%s/%d/%d", p.id, p.attempt, n.nops)
	want, werr := ref.Decrypt(u.privs[me], u.pubs[from], p.sig)
	r := n.lib(t, id, "dec", nil, func(res *Result) {
		ck := fmt.Sprint(me, "/", from)
		c := n.dcache[ck]
		if c == nil || !n.n.Cache {
			c = crypto.NewBlockCipher(u.pks[from], u.kps[me], nil)
			n.dcache[ck] = c
		}
		out, err := c.Decrypt(n.rx(me, "ciphertext", p.sig))
		if !res.err(err, out == nil) {
			res.Out = bytes.Clone(out)
		}
	})
	u.g.bufs = u.g.bufs[:0]
	if w.viol != nil {
		return
	}
	what := p.damage
	if what == "" {
		what = "undamaged"
	}
	switch {
	case werr != nil && !r.HasErr:
		w.fail("bad-ciphertext-accepted", id, "decrypting bytes that are no ciphertext [%s, %d bytes] returned %s instead of an error: %s", what, len(p.sig), r, short(p.sig))
	case werr == nil && r.HasErr:
		w.fail("good-ciphertext-refused", id, "decrypting a well-formed ciphertext [%s, %d bytes] failed: %s; the format assigns it %s", what, len(p.sig), r.Err, short(want))
	case werr == nil && !bytes.Equal(r.Out, want):
		w.fail("wrong-plaintext", id, "decrypting [%s, %d bytes] returned %s, the format assigns it %s", what, len(p.sig), short(r.Out), short(want))
	case r.HasErr && r.Returned:
		w.fail("result-with-error", id, "decrypting [%s] returned a result together with the error %q", what, r.Err)
	}
	if w.viol != nil {
		return
	}
	if werr == nil {
		w.probes["well_formed_received"]++
	} else {
		w.probes["malformed_received"]++
	}
	for _, m := range n.n.Msgs {
		if m.ID == p.id && m.To == me && m.From == from && werr == nil && bytes.Equal(want, u.pure[idx(len(u.pure), m.M)]) {
			n.got[p.id] = true
			n.ack(p)
		} else if m.ID == p.id && p.damage == "" && m.To == me && m.From == from {
			w.fail("intact-not-original", id, "an intact ciphertext did not decrypt to the original at its recipient: %s", short(p.sig))
		}
	}
}
