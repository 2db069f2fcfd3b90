package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strings"

	crypto "github.com/proximax-storage/go-xpx-crypto"

	"verif.local/sim/ref"
)

// DiskCase is a run of a program that keeps its keys, signatures and ciphertexts on a disk, crashes and restarts. Every
// incarnation is a process of its own; the disk, the crash points and all faults are the simulator's.
type DiskCase struct {
	Incs   []*Inc `json:"incs"`
	Crash  int    `json:"crash"`  // percent: crash at a given disk operation
	Full   int    `json:"full"`   // percent: no space left at a given write
	Short  int    `json:"short"`  // percent: a read delivers only a part and is repeated
	Garble int    `json:"garble"` // percent: what a read delivers is garbled, and is read again
	Sector int    `json:"sector"` // bytes that are written atomically
	Rename bool   `json:"rename"` // files are written under another name, synced and renamed
	// Also is what the process does besides, on threads of its own and with keys of its own.
	Also [][]*Op `json:"also,omitempty"`
}

// Inc is what one incarnation does after it has loaded everything.
type Inc struct {
	Steps []*Op `json:"steps"`
}

// dfile is one file.
type dfile struct {
	Durable []byte `json:"durable"`
	Exists  bool   `json:"exists"` // durably
	Pending []byte `json:"pending"`
	Dirty   bool   `json:"dirty"`
}

// fact is what the program once knew about a file.
type fact struct {
	File  string `json:"file"`
	Kind  string `json:"kind"` // priv, pub, sig, ct
	Form  int    `json:"form"`
	Acked bool   `json:"acked"`
	Data  []byte `json:"data"` // as written
	Slot  int    `json:"slot"`
	Raw   []byte `json:"raw"` // what it stands for
	Msg   int    `json:"msg"`
	To    int    `json:"to"`
}

type slotInfo struct {
	Pub  []byte            `json:"pub"`
	Sigs map[string][]byte `json:"sigs"` // by message index
}

type diskState struct {
	Files map[string]*dfile `json:"files"`
	Facts []*fact           `json:"facts"`
	Slots []*slotInfo       `json:"slots"`
	Seq   int               `json:"seq"`
}

type incIn struct {
	Case  *Case      `json:"case"`
	Inc   int        `json:"inc"`
	State *diskState `json:"state"`
	Calm  bool       `json:"calm"`
}

type incOut struct {
	State   *diskState     `json:"state"`
	Crashed bool           `json:"crashed"`
	Viol    *Violation     `json:"viol,omitempty"`
	Entries []Entry        `json:"entries"`
	Counts  map[string]int `json:"counts"`
	Probes  map[string]int `json:"probes"`
	Digest  uint64         `json:"digest"`
	Calls   int            `json:"calls"`
	Steps   int            `json:"steps"`
	Ns      int64          `json:"ns"`
	Sched   uint64         `json:"sched"`
	Switch  int            `json:"switch"`
	CutAt   []int          `json:"cutat"`
	Trace   []string       `json:"trace,omitempty"`
}

func genDisk(c *Case, r *rng) {
	d := &DiskCase{}
	c.Disk = d
	g := &c.Cfg
	g.Keys, g.Msgs, g.Srcs = 1, r.in(2, 5), 1
	g.MaxLen = []int{300, 300, 2000}[r.n(3)]
	d.Crash = []int{0, 3, 8, 20, 40}[r.n(5)]
	d.Full = []int{0, 0, 5}[r.n(3)]
	d.Short = []int{0, 0, 10}[r.n(3)]
	d.Garble = []int{0, 4, 15}[r.n(3)]
	d.Sector = []int{1, 4, 16, 16, 32, 512}[r.n(6)]
	d.Rename = r.p(1, 3)
	n := r.in(2, 4)
	for i := 0; i < n; i++ {
		inc := &Inc{}
		k := r.in(1, 6)
		for j := 0; j < k; j++ {
			kinds := []weight{{"newkey", 30}, {"sign", 25}, {"enc", 15}, {"convert", 15}, {"pub", 8}, {"resign", 10}}
			ws := make([]int, len(kinds))
			for x, w := range kinds {
				ws[x] = w.w
			}
			what := kinds[r.weighted(ws)].k
			if i == 0 && j == 0 {
				what = "newkey"
			}
			inc.Steps = append(inc.Steps, &Op{ID: fmt.Sprintf("%d.%d", i, j), K: what, A: r.n(8), B: r.n(8), M: r.n(8), V: r.n(60)})
		}
		d.Incs = append(d.Incs, inc)
	}
	if r.p(1, 2) {
		g.Arms, g.ArmP, g.Stay = []int{1, 2, 4, 10}[r.n(4)], []int{60, 100}[r.n(2)], []int{0, 30, 60}[r.n(3)]
		for i := r.in(1, 2); i > 0; i-- {
			var ops []*Op
			for j := r.in(1, 3); j > 0; j-- {
				kinds := []string{"format", "format", "format", "parse", "parse", "sig", "sign", "dec"}
				ops = append(ops, &Op{K: kinds[r.n(len(kinds))], A: r.n(3), V: r.n(60)})
			}
			d.Also = append(d.Also, ops)
		}
	}
}

// also makes calls on other objects until the program ends.
func (a *app) also(t *Thread, me int, ops []*Op) {
	w := a.w
	for n := 0; n < 16*len(ops) && !a.done && w.viol == nil; n++ {
		op := ops[n%len(ops)]
		if (op.K == "sign" || op.K == "dec") && n >= 2*len(ops) {
			op = &Op{K: "format", A: op.A, V: op.V}
		}
		id := fmt.Sprintf("also%d.%d", me, n)
		raw := ref.NewStream(fmt.Sprint("also", me, op.A), a.c.USeed).Next(32)
		if op.A == 2 {
			raw[0], raw[1] = 0, 0
		}
		pub := ref.Pub(raw)
		m := a.u.pure[op.V%len(a.u.pure)]
		var want, got []byte
		var r *Result
		switch op.K {
		case "format":
			want = append(bytes.Clone(raw), pub...)
			r = a.lib(t, id, "format", nil, func(res *Result) {
				x := crypto.NewPrivateKey(bytes.Clone(raw)).String()
				y := crypto.NewPublicKey(bytes.Clone(pub)).String()
				b, ok1 := denotes([]byte(x))
				c, ok2 := denotes([]byte(y))
				if got = append(bytes.Clone(b), c...); !ok1 || !ok2 {
					got = []byte(x + y)
				}
			})
		case "parse":
			want = append(bytes.Clone(raw), pub...)
			r = a.lib(t, id, "loadpriv", nil, func(res *Result) {
				x, err := crypto.NewPrivateKeyfromHexString(hex.EncodeToString(raw))
				if res.err(err, x == nil) {
					return
				}
				y, err := crypto.NewPublicKeyfromHex(hex.EncodeToString(pub))
				if res.err(err, y == nil) {
					return
				}
				got = append(bytes.Clone(x.Raw), y.Raw...)
			})
		case "sig":
			want = ref.Sign(raw, m)
			r = a.lib(t, id, "loadsig", nil, func(res *Result) {
				x, err := crypto.NewSignatureFromBytes(bytes.Clone(want))
				if res.err(err, x == nil) {
					return
				}
				y, err := crypto.NewSignatureFromBigInt(x.GetR(), x.GetS())
				if res.err(err, y == nil) {
					return
				}
				var text []byte
				if text, err = hex.DecodeString(y.String()); err != nil || !bytes.Equal(text, x.Bytes()) {
					text = []byte(y.String())
				}
				got = text
			})
		case "sign":
			want = ref.Sign(raw, m)
			r = a.lib(t, id, "sign", nil, func(res *Result) {
				kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(bytes.Clone(raw)), crypto.NewPublicKey(bytes.Clone(pub)), nil)
				if res.err(err, kp == nil) {
					return
				}
				x, err := crypto.NewSignerFromKeyPair(kp, nil).Sign(m)
				if res.err(err, x == nil) {
					return
				}
				got = sigRaw(x)
			})
		case "dec":
			want = m
			ct, err := ref.Encrypt(raw, pub, ref.NewStream("also/"+id, a.c.USeed).Next(48), m)
			if err != nil {
				fatal("reference: %v", err)
			}
			r = a.lib(t, id, "dec", nil, func(res *Result) {
				kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(bytes.Clone(raw)), crypto.NewPublicKey(bytes.Clone(pub)), nil)
				if res.err(err, kp == nil) {
					return
				}
				x, err := crypto.NewBlockCipher(kp, kp, nil).Decrypt(ct)
				if res.err(err, x == nil) {
					return
				}
				got = bytes.Clone(x)
			})
		}
		if w.viol != nil || a.out.Crashed {
			return
		}
		if r.HasErr {
			w.fail("beside-refused", id, "%s of a well-formed key, signature or ciphertext failed beside other calls: %s", op.K, r.Err)
		} else if !bytes.Equal(want, got) {
			w.fail("beside-changed", id, "%s gave %s beside other calls, want %s", op.K, short(got), short(want))
		}
		t.st = ready
		t.park()
	}
}

// runDisk runs the incarnations of a case one after another.
func runDisk(c *Case) *CaseResult {
	st := &diskState{Files: map[string]*dfile{}}
	res := &CaseResult{Seed: c.Seed, Counts: map[string]int{}, Probes: map[string]int{}, Digest: 14695981039346656037}
	var log []Entry
	var cut []int
	n := len(c.Disk.Incs)
	for i := 0; i <= n && res.Viol == nil; i++ {
		// After the last one, one more only loads everything.
		out := incarnation(&incIn{Case: c, Inc: i, State: st, Calm: i == n})
		st = out.State
		log = append(log, out.Entries...)
		for k, v := range out.Counts {
			res.Counts[k] += v
		}
		for k, v := range out.Probes {
			res.Probes[k] += v
		}
		res.Viol = out.Viol
		res.Digest = res.Digest*1099511628211 ^ out.Digest
		res.Calls += out.Calls
		res.Steps += out.Steps
		res.Sched = res.Sched*1099511628211 ^ out.Sched
		res.Switch += out.Switch
		cut = append(cut, out.CutAt...)
		res.SimNs += out.Ns
		res.Trace = append(res.Trace, out.Trace...)
		if out.Crashed {
			res.Counts["crash"]++
			crashDisk(c, st, i, res, &log)
		} else {
			// An orderly end leaves unsynced data to the same fate as a crash only if the machine goes down.
			res.Counts["restart-after-orderly-end"]++
			for _, name := range sortedKeys(st.Files) {
				f := st.Files[name]
				if f.Dirty {
					f.Durable, f.Exists, f.Dirty = f.Pending, true, false
				}
			}
		}
	}
	sort.Ints(cut)
	res.CutAt = slices.Compact(cut)
	if res.Viol != nil || wantEntries {
		res.Entries = log
	}
	return res
}

// crashDisk decides what of the unsynced data survives.
func crashDisk(c *Case, st *diskState, inc int, res *CaseResult, log *[]Entry) {
	ch := newChooser(c.Seed, c.Entries, c.Replay)
	for _, name := range sortedKeys(st.Files) {
		f := st.Files[name]
		if !f.Dirty {
			continue
		}
		f.Dirty = false
		v := ch.pick(fmt.Sprintf("lose/%d/%s", inc, name), func(v int64) string {
			return fmt.Sprintf("crash: unsynced data of %s: %s", name, loseName[v&0xff])
		}, func(r *rng) int64 {
			return int64(r.n(len(loseName))) | int64(r.next()&0xffffffff)<<8
		})
		kind, r := int(v&0xff), &rng{uint64(v >> 8)}
		res.Counts["disk-"+loseName[kind]]++
		switch kind {
		case 0: // everything had reached the disk
			f.Durable, f.Exists = f.Pending, true
		case 1: // nothing
		default:
			f.Durable, f.Exists = damaged(f.Pending, kind, r, c.Disk.Sector), true
		}
	}
	for _, name := range sortedKeys(st.Files) {
		if !st.Files[name].Exists {
			delete(st.Files, name)
		}
	}
	*log = append(*log, ch.log...)
}

// damaged is what a crash or the medium makes of data.
func damaged(data []byte, kind int, r *rng, sector int) []byte {
	switch kind {
	case 2: // a prefix
		return data[:r.n(len(data)+1)]
	case 3, 4, 5: // some sectors; the others hold zeros, garbage or what was there before
		b := bytes.Clone(data)
		s := sector
		for i := 0; i < len(b); i += s {
			if r.p(1, 2) {
				continue
			}
			for j := i; j < i+s && j < len(b); j++ {
				switch kind {
				case 3:
					b[j] = 0
				case 4:
					b[j] = byte(r.n(256))
				case 5:
					b[j] = "0123456789abcdef"[r.n(16)]
				}
			}
		}
		return b
	case 6: // the size, but no data
		return make([]byte, len(data))
	case 7: // the data, and the zeros of a block allocated for more
		return append(bytes.Clone(data), make([]byte, r.in(1, 64))...)
	case 8: // the data, and behind it some of what was there before
		b := bytes.Clone(data)
		if r.p(1, 2) {
			for k := r.in(1, 64); k > 0; k-- {
				b = append(b, "0123456789abcdefABCDEF \n\r\t\x00xg"[r.n(29)])
			}
		} else {
			b = append(b, tails[r.n(len(tails))]...)
		}
		return b
	case 9: // one byte is another
		b := bytes.Clone(data)
		if len(b) > 0 {
			b[[]int{0, len(b) - 1, r.n(len(b))}[r.n(3)]] = "0123456789abcdefABCDEF \n\r\t\x00xg"[r.n(29)]
		}
		return b
	case 10: // something in front of the data
		return append([]byte(heads[r.n(len(heads))]), data...)
	case 11: // the data twice, or the end of it
		b := bytes.Clone(data)
		return append(b, b[[]int{0, 0, len(b) / 2, r.n(len(b) + 1)}[r.n(4)]:]...)
	}
	return data
}

var loseName = []string{"survives", "lost", "cut", "sectors-zeroed", "sectors-garbled", "sectors-garbled-hex", "all-zero", "zeros-behind", "remains-behind", "byte-changed", "something-in-front", "written-twice"}

// What may stand in front of a file's data and behind it.
var (
	heads = []string{"\xef\xbb\xbf", "0x", "0X", "0", "00", " ", "\n", "\x00", "+", "-", "\"", "04", "{", "x"}
	tails = []string{"\n", "\n", "\r\n", "\r", " ", "\x00", "\x00\x00", "\x1a", "\n\n", "\t", "=", "0", "00", "h", "\"", ";", ",", "L"}
)

// incarnation runs one incarnation in a process of its own.
func incarnation(in *incIn) *incOut {
	if inProcess {
		return runInc(in)
	}
	b, err := json.Marshal(in)
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(selfPath, "incarnation")
	cmd.Stdin = bytes.NewReader(b)
	// Each incarnation lives under other circumstances.
	env := append(os.Environ(), fmt.Sprintf("TZ=%s", []string{"UTC", "Asia/Tokyo", "America/New_York"}[in.Inc%3]), fmt.Sprintf("LANG=%s", []string{"C", "tr_TR.UTF-8"}[in.Inc%2]), fmt.Sprintf("GOGC=%d", 50+50*in.Inc), fmt.Sprintf("SIM_ENV=%d", in.Case.Env+uint64(in.Inc)*977))
	cmd.Env = env
	var eb, ob bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &ob
	if err := cmd.Run(); err != nil {
		if died := libraryDeath(eb.String()); died != "" {
			return &incOut{State: in.State, Viol: &Violation{"process-death", fmt.Sprint("incarnation ", in.Inc), died}}
		}
		fatal("incarnation process: %v\n%s", err, eb.String())
	}
	out := &incOut{}
	if err := json.Unmarshal(ob.Bytes(), out); err != nil {
		fatal("incarnation output: %v\n%s", err, ob.String())
	}
	return out
}

var inProcess bool

// app is the program in one incarnation.
type app struct {
	w    *World
	c    *Case
	in   *incIn
	st   *diskState
	u    *U
	ops  int
	dops int
	priv []*crypto.KeyPair // by slot
	pubs []*crypto.KeyPair
	done bool
	out  *incOut
}

type crashNow struct{}

func runInc(in *incIn) *incOut {
	w := start(in.Case)
	if in.Case.Replay {
		w.ch = newChooser(in.Case.Seed, in.Case.Entries, true)
	}
	w.ch.prefix = fmt.Sprintf("i%d/", in.Inc)
	u := newU(w, &in.Case.Cfg, in.Case.USeed)
	a := &app{w: w, c: in.Case, in: in, st: in.State, u: u, out: &incOut{}}
	if a.st.Files == nil {
		a.st.Files = map[string]*dfile{}
	}
	a.priv = make([]*crypto.KeyPair, len(a.st.Slots))
	a.pubs = make([]*crypto.KeyPair, len(a.st.Slots))
	for i, ops := range in.Case.Disk.Also {
		w.spawn(fmt.Sprintf("also%d", i), func(t *Thread) { a.also(t, i, ops) })
	}
	w.spawn("app", func(t *Thread) {
		defer func() {
			a.done = true
			switch e := recover().(type) {
			case nil:
			case crashNow:
				a.out.Crashed = true
			default:
				panic(e)
			}
		}()
		a.load(t)
		if !in.Calm && in.Inc < len(in.Case.Disk.Incs) {
			for _, op := range in.Case.Disk.Incs[in.Inc].Steps {
				if w.viol != nil {
					return
				}
				a.step(t, op)
			}
		}
	})
	w.run()
	o := a.out
	o.Sched, o.Switch, o.CutAt = w.sched, w.nswitch, nil
	for i := range w.cutAt {
		o.CutAt = append(o.CutAt, i)
	}
	sort.Ints(o.CutAt)
	o.State, o.Viol, o.Entries, o.Counts, o.Probes, o.Digest, o.Calls, o.Steps, o.Ns = a.st, w.viol, w.ch.log, w.counts, w.probes, w.digest, a.ops, w.steps+a.dops, w.now+int64(a.dops)*1_000_000
	if !wantTrace {
		o.Trace = nil
	}
	return o
}

func (a *app) trace(f string, v ...any) {
	s := fmt.Sprintf(f, v...)
	a.w.mix(s)
	if wantTrace {
		a.out.Trace = append(a.out.Trace, fmt.Sprintf("incarnation %d: %s", a.in.Inc, s))
	}
}

// disk is called before every disk operation; the process may crash there.
func (a *app) disk(what string) {
	a.dops++
	if a.in.Calm {
		return
	}
	if a.w.ch.pick(fmt.Sprintf("crash/%d/%d", a.in.Inc, a.dops), func(int64) string { return "crash before " + what }, func(r *rng) int64 {
		if r.p(a.c.Disk.Crash, 100) {
			return 1
		}
		return 0
	}) != 0 {
		a.trace("crash before %s", what)
		panic(crashNow{})
	}
}

// put stores a file; only when it returns true is the data durable.
func (a *app) put(f *fact) {
	a.st.Facts = append(a.st.Facts, f)
	name := f.File
	if a.c.Disk.Rename {
		name += ".tmp"
	}
	a.disk("writing " + name)
	data := f.Data
	full := a.w.ch.pick(fmt.Sprintf("full/%d/%d", a.in.Inc, a.dops), func(v int64) string { return fmt.Sprintf("no space left after %d bytes", v-1) }, func(r *rng) int64 {
		if !a.in.Calm && r.p(a.c.Disk.Full, 100) {
			return int64(1 + r.n(len(data)+1))
		}
		return 0
	})
	if full > 0 {
		a.w.counts["disk-full"]++
		n := min(int(full-1), len(data))
		a.st.Files[name] = &dfile{Pending: bytes.Clone(data[:n]), Dirty: true}
		a.trace("write of %s fails after %d bytes", name, n)
		return
	}
	a.st.Files[name] = &dfile{Pending: bytes.Clone(data), Dirty: true}
	a.disk("syncing " + name)
	df := a.st.Files[name]
	df.Durable, df.Exists, df.Dirty = df.Pending, true, false
	if a.c.Disk.Rename {
		a.disk("renaming " + name)
		delete(a.st.Files, name)
		a.st.Files[f.File] = df
	}
	f.Acked = true
	a.trace("stored %s (%s, form %d, %d bytes)", f.File, f.Kind, f.Form, len(f.Data))
}

// lib makes one library call.
func (a *app) lib(t *Thread, id, kind string, src *Source, f func(res *Result)) *Result {
	op := &Op{ID: fmt.Sprintf("%d/%s", a.in.Inc, id), K: kind}
	st := &opState{op: op, tid: t.id, src: src}
	a.u.ops = append(a.u.ops, st)
	a.ops++
	if len(a.c.Disk.Also) > 0 {
		t.st = ready
		t.park()
	}
	t.begin(st)
	st.res = a.u.protect(f)
	t.finish()
	a.trace("%s %s -> %s", id, kind, st.res)
	if st.res.hang != "" {
		a.w.fail(kind+":hang", op.ID, "%s does not return: %s", id, st.res.hang)
	} else if st.res.Panic != "" {
		a.w.fail(kind+":panic", op.ID, "%s panics: %s\n%s", id, st.res.Panic, st.res.Stack)
	}
	return st.res
}

const (
	formHex = iota
	formRaw
	formInt
	formHalves
)

var formName = []string{"hexadecimal text", "raw bytes", "integers", "halves"}

// nForms is how many forms a kind of object can be stored in.
var nForms = map[string]int{"priv": 3, "pub": 2, "sig": 4, "ct": 1}

func intText(n *big.Int) string { return n.Text(10) }

// parsePriv is how the program reads a private key; ok is false if it does not accept it.
func parsePriv(form int, b []byte) (*crypto.PrivateKey, error) {
	switch form {
	case formHex:
		return crypto.NewPrivateKeyfromHexString(string(b))
	case formRaw:
		if len(b) != 32 {
			return nil, fmt.Errorf("the program wants 32 bytes")
		}
		return crypto.NewPrivateKey(bytes.Clone(b)), nil
	default:
		n, ok := new(big.Int).SetString(string(b), 10)
		if !ok || n.Sign() < 0 || n.BitLen() > 256 {
			return nil, fmt.Errorf("the program wants an integer of 256 bits")
		}
		return crypto.NewPrivateKeyFromBigInt(n), nil
	}
}

// parseSig is how it reads a signature.
func parseSig(form int, b []byte) (*crypto.Signature, error) {
	switch form {
	case formHex:
		raw, err := hex.DecodeString(string(b))
		if err != nil {
			return nil, err
		}
		return crypto.NewSignatureFromBytes(raw)
	case formRaw:
		return crypto.NewSignatureFromBytes(bytes.Clone(b))
	case formInt:
		p := strings.Split(string(b), ",")
		if len(p) != 2 {
			return nil, fmt.Errorf("the program wants two integers")
		}
		r, ok1 := new(big.Int).SetString(p[0], 10)
		s, ok2 := new(big.Int).SetString(p[1], 10)
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("the program wants two integers")
		}
		return crypto.NewSignatureFromBigInt(r, s)
	default:
		if len(b) < 1 {
			return nil, fmt.Errorf("the program wants two halves")
		}
		n := len(b) / 2
		return crypto.NewSignature(bytes.Clone(b[:n]), bytes.Clone(b[n:]))
	}
}

func sigForm(form int, s *crypto.Signature) []byte {
	switch form {
	case formHex:
		return []byte(s.String())
	case formRaw:
		return bytes.Clone(s.Bytes())
	case formInt:
		return []byte(intText(s.GetR()) + "," + intText(s.GetS()))
	default:
		return append(bytes.Clone(s.R), s.S...)
	}
}

// denotes says which bytes hexadecimal text stands for, if any.
func denotes(b []byte) ([]byte, bool) {
	s := string(b)
	if len(s)%2 == 1 {
		s = "0" + s
	}
	raw, err := hex.DecodeString(s)
	return raw, err == nil && len(raw) == 32
}

// load is what the program does first: read everything that is there.
func (a *app) load(t *Thread) {
	w := a.w
	for i, f := range a.st.Facts {
		if w.viol != nil {
			return
		}
		df := a.st.Files[f.File]
		if df == nil {
			if f.Acked {
				fatal("the simulated disk lost a durable file")
			}
			w.probes["file_absent_after_crash"]++
			continue
		}
		a.disk("reading " + f.File)
		data := df.Durable
		if n := w.ch.pick(fmt.Sprintf("short/%d/%d", a.in.Inc, i), func(v int64) string { return fmt.Sprintf("a read delivers %d bytes only", v-1) }, func(r *rng) int64 {
			if !a.in.Calm && r.p(a.c.Disk.Short, 100) {
				return int64(1 + r.n(len(data)))
			}
			return 0
		}); n > 0 {
			w.counts["disk-short-read"]++
			a.loadOne(t, f, data[:min(int(n-1), len(data))], fmt.Sprintf("load/%d/short", i))
			if w.viol != nil {
				return
			}
		}
		// The medium may garble what is read; reading again helps.
		if v := w.ch.pick(fmt.Sprintf("garbled/%d/%d", a.in.Inc, i), func(v int64) string { return "a read is garbled: " + loseName[v&0xff] }, func(r *rng) int64 {
			if !a.in.Calm && r.p(a.c.Disk.Garble, 100) {
				return int64(r.in(2, len(loseName)-1)) | int64(r.next()&0xffffffff)<<8
			}
			return 0
		}); v > 0 {
			kind := int(v & 0xff)
			w.counts["read-"+loseName[kind]]++
			a.loadOne(t, f, damaged(bytes.Clone(data), kind, &rng{uint64(v >> 8)}, a.c.Disk.Sector), fmt.Sprintf("load/%d/garbled", i))
			if w.viol != nil {
				return
			}
		}
		a.loadOne(t, f, data, fmt.Sprintf("load/%d", i))
	}
}

func (a *app) loadOne(t *Thread, f *fact, data []byte, id string) {
	w := a.w
	intact := bytes.Equal(data, f.Data)
	if f.Acked && !intact && !strings.HasSuffix(id, "short") && !strings.HasSuffix(id, "garbled") {
		fatal("the simulated disk changed a durable file")
	}
	state := "intact"
	if !intact {
		state = "damaged"
		w.probes["damaged_"+f.Kind+"_loaded"]++
	} else {
		w.probes["intact_"+f.Kind+"_loaded"]++
	}
	what := fmt.Sprintf("%s %s (%s, %d of %d bytes)", state, f.File, formName[f.Form], len(data), len(f.Data))
	slot := a.st.Slots[f.Slot]
	switch f.Kind {
	case "priv":
		var kp *crypto.KeyPair
		r := a.lib(t, id, "loadpriv", nil, func(res *Result) {
			p, err := parsePriv(f.Form, data)
			if res.err(err, p == nil) {
				return
			}
			k, err := crypto.NewKeyPair(p, nil, nil)
			if res.err(err, k == nil) {
				return
			}
			kp = k
			res.Out = append(bytes.Clone(k.PrivateKey.Raw), k.PublicKey.Raw...)
		})
		if w.viol != nil {
			return
		}
		if !intact {
			if f.Form == formHex {
				raw, ok := denotes(data)
				if !ok && !r.HasErr {
					w.fail("damaged-key-accepted", id, "a private key file cut short or garbled was accepted as a key: %s %q gave %x", what, data, kp.PrivateKey.Raw)
				} else if ok && !r.HasErr && !bytes.Equal(kp.PrivateKey.Raw, raw) {
					w.fail("key-misread", id, "%s: %q was read as %x", what, data, kp.PrivateKey.Raw)
				}
			}
			return
		}
		if r.HasErr {
			w.fail("stored-key-refused", id, "a private key stored as %s was refused when loaded: %s; file holds %q", formName[f.Form], r.Err, data)
			return
		}
		if !bytes.Equal(kp.PublicKey.Raw, slot.Pub) {
			w.fail("public-key-changed", id, "after a restart the private key %x, stored as %s (%q), gives public key %x, before it was %x", f.Raw, formName[f.Form], data, kp.PublicKey.Raw, slot.Pub)
			return
		}
		a.priv[f.Slot] = kp
		// Sign again what was signed before.
		for _, m := range sortedKeys(slot.Sigs) {
			if w.viol != nil {
				return
			}
			a.resign(t, f.Slot, kp, m, id)
		}
	case "pub":
		var kp *crypto.KeyPair
		r := a.lib(t, id, "loadpub", nil, func(res *Result) {
			p := crypto.NewPublicKey(bytes.Clone(data))
			if f.Form == formHex {
				var err error
				p, err = crypto.NewPublicKeyfromHex(string(data))
				if res.err(err, p == nil) {
					return
				}
			}
			k, err := crypto.NewKeyPair(nil, p, nil)
			if res.err(err, k == nil) {
				return
			}
			kp = k
			res.Out = bytes.Clone(k.PublicKey.Raw)
		})
		if w.viol != nil {
			return
		}
		if !intact {
			raw, ok := data, len(data) == 32
			if f.Form == formHex {
				raw, ok = denotes(data)
			}
			if !ok && !r.HasErr {
				w.fail("damaged-key-accepted", id, "a public key file cut short or garbled was accepted as a key: %s %q gave %x", what, data, kp.PublicKey.Raw)
			} else if ok && !r.HasErr && !bytes.Equal(kp.PublicKey.Raw, raw) {
				w.fail("key-misread", id, "%s: %q was read as %x", what, data, kp.PublicKey.Raw)
			}
			return
		}
		if r.HasErr {
			w.fail("stored-key-refused", id, "a public key stored as %s was refused when loaded: %s; file holds %q", formName[f.Form], r.Err, data)
			return
		}
		if !bytes.Equal(kp.PublicKey.Raw, f.Raw) {
			w.fail("public-key-changed", id, "public key %x, stored as %s, is %x after a restart", f.Raw, formName[f.Form], kp.PublicKey.Raw)
			return
		}
		a.pubs[f.Slot] = kp
	case "sig":
		msg := a.u.pure[f.Msg]
		var verified bool
		r := a.lib(t, id, "loadsig", nil, func(res *Result) {
			s, err := parseSig(f.Form, data)
			if res.err(err, s == nil) {
				return
			}
			kp := a.pubs[f.Slot]
			if kp == nil {
				kp, err = crypto.NewKeyPair(nil, crypto.NewPublicKey(bytes.Clone(slot.Pub)), nil)
				if err != nil {
					res.err(err, true)
					return
				}
			}
			res.Out = sigRaw(s)
			verified = crypto.NewSignerFromKeyPair(kp, nil).Verify(msg, s)
		})
		if w.viol != nil {
			return
		}
		if !intact {
			if (f.Form == formRaw || f.Form == formHalves) && len(data) != 64 && !r.HasErr {
				w.fail("damaged-signature-accepted", id, "a signature file cut short was parsed as a signature: %s gave %x", what, r.Out)
			}
			if raw, err := hex.DecodeString(string(data)); f.Form == formHex && err == nil && len(raw) != 64 && !r.HasErr {
				w.fail("damaged-signature-accepted", id, "a signature text cut short was parsed as a signature: %s gave %x", what, r.Out)
			}
			return
		}
		switch {
		case r.HasErr:
			w.fail("stored-signature-refused", id, "signature %x, stored as %s (%q), was refused when loaded: %s", f.Raw, formName[f.Form], short(data), r.Err)
		case !bytes.Equal(r.Out, f.Raw):
			w.fail("signature-changed", id, "signature %x, stored as %s (%q), is %x after a restart", f.Raw, formName[f.Form], data, r.Out)
		case !verified:
			w.fail("stored-signature-invalid", id, "signature %x, stored as %s, does not verify after a restart", f.Raw, formName[f.Form])
		}
	case "ct":
		kp := a.priv[f.To]
		from := a.pubs[f.Slot]
		if kp == nil {
			return
		}
		var got []byte
		r := a.lib(t, id, "dec", nil, func(res *Result) {
			if from == nil {
				k, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(bytes.Clone(slot.Pub)), nil)
				if err != nil {
					res.err(err, true)
					return
				}
				from = k
			}
			out, err := crypto.NewBlockCipher(from, kp, nil).Decrypt(a.u.g.buf("stored ciphertext", data))
			if !res.err(err, out == nil) {
				got = bytes.Clone(out)
				res.Out = got
			}
		})
		if w.viol != nil || !intact {
			return
		}
		if r.HasErr {
			w.fail("stored-ciphertext-lost", id, "a stored ciphertext no longer decrypts after a restart: %s", r.Err)
		} else if !bytes.Equal(got, a.u.pure[f.Msg]) {
			w.fail("stored-ciphertext-lost", id, "a stored ciphertext decrypts to %s after a restart, it was %s", short(got), short(a.u.pure[f.Msg]))
		}
	}
}

// resign signs once more what was signed before.
func (a *app) resign(t *Thread, slot int, kp *crypto.KeyPair, m, id string) {
	w := a.w
	var mi int
	fmt.Sscan(m, &mi)
	id = fmt.Sprintf("%s/resign/%s", id, m)
	r := a.lib(t, id, "sign", nil, func(res *Result) {
		s, err := crypto.NewSignerFromKeyPair(kp, nil).Sign(a.u.msgs[mi])
		if !res.err(err, s == nil) {
			res.Out = sigRaw(s)
		}
	})
	if w.viol != nil {
		return
	}
	old := a.st.Slots[slot].Sigs[m]
	if r.HasErr {
		w.fail("cannot-sign", id, "a key stored and loaded again cannot sign: %s", r.Err)
	} else if !bytes.Equal(r.Out, old) {
		w.fail("signature-differs", id, "the same key signs the same message differently after a restart: %x, before it was %x", r.Out, old)
	} else {
		w.probes["signed_again"]++
	}
}

func (a *app) step(t *Thread, op *Op) {
	w := a.w
	nm := len(a.u.msgs)
	var have []int
	for i, k := range a.priv {
		if k != nil {
			have = append(have, i)
		}
	}
	file := func(kind string) string {
		a.st.Seq++
		return fmt.Sprintf("%s%d", kind, a.st.Seq)
	}
	storePriv := func(slot int, kp *crypto.KeyPair, form int) {
		f := &fact{File: file("priv"), Kind: "priv", Form: form, Slot: slot, Raw: bytes.Clone(kp.PrivateKey.Raw)}
		a.lib(t, "format/"+op.ID, "format", nil, func(res *Result) {
			switch form {
			case formHex:
				f.Data = []byte(kp.PrivateKey.String())
			case formRaw:
				f.Data = bytes.Clone(kp.PrivateKey.Raw)
			default:
				f.Data = []byte(intText(new(big.Int).SetBytes(kp.PrivateKey.Raw)))
			}
			res.Out = f.Data
		})
		if w.viol == nil {
			a.put(f)
		}
	}
	storePub := func(slot int, kp *crypto.KeyPair, form int) {
		f := &fact{File: file("pub"), Kind: "pub", Form: form, Slot: slot, Raw: bytes.Clone(kp.PublicKey.Raw)}
		f.Data = bytes.Clone(kp.PublicKey.Raw)
		if form == formHex {
			f.Data = []byte(kp.PublicKey.String())
		}
		a.put(f)
	}
	switch op.K {
	case "newkey":
		var kp *crypto.KeyPair
		src := a.u.srcs[0]
		r := a.lib(t, "gen/"+op.ID, "gen", src, func(res *Result) {
			var err error
			switch op.V % 3 {
			case 0:
				kp, err = crypto.NewEd25519KeyGenerator(src).GenerateKeyPair()
			case 1:
				kp, err = crypto.NewKeyPairByEngine(simEngine{src})
			default: // a key made from fixed bytes, often with zeros in front or behind
				k := keyed(a.c.USeed, "key/"+op.ID)
				raw := ref.NewStream("key/"+op.ID, a.c.USeed).Next(32)
				for i := 0; i < k.n(6); i++ {
					raw[i] = 0
				}
				if k.p(1, 4) {
					raw[31] = 0
				}
				if rk, _ := rareOf(a.c.USeed); rk != nil && k.p(3, 4) {
					raw = rk
				} else if k.p(1, 8) {
					raw = twinKey(rareKeys[k.n(len(rareKeys))])
				}
				kp, err = crypto.NewKeyPair(crypto.NewPrivateKey(raw), nil, nil)
			}
			if !res.err(err, kp == nil) {
				res.Out = bytes.Clone(kp.PublicKey.Raw)
			}
		})
		if w.viol != nil {
			return
		}
		if r.HasErr {
			w.fail("gen:failed", op.ID, "making a key failed: %s", r.Err)
			return
		}
		a.st.Slots = append(a.st.Slots, &slotInfo{Pub: bytes.Clone(kp.PublicKey.Raw), Sigs: map[string][]byte{}})
		a.priv = append(a.priv, kp)
		a.pubs = append(a.pubs, nil)
		storePriv(len(a.st.Slots)-1, kp, op.B%nForms["priv"])
	case "convert": // store a key that may have been loaded in one form in another one
		if len(have) > 0 {
			s := have[op.A%len(have)]
			storePriv(s, a.priv[s], op.B%nForms["priv"])
		}
	case "pub":
		if len(have) > 0 {
			s := have[op.A%len(have)]
			storePub(s, a.priv[s], op.B%nForms["pub"])
		}
	case "sign", "resign":
		if len(have) == 0 {
			return
		}
		s, m := have[op.A%len(have)], op.M%nm
		var sig *crypto.Signature
		form := op.B % nForms["sig"]
		f := &fact{File: file("sig"), Kind: "sig", Form: form, Slot: s, Msg: m}
		r := a.lib(t, "sign/"+op.ID, "sign", nil, func(res *Result) {
			x, err := crypto.NewSignerFromKeyPair(a.priv[s], nil).Sign(a.u.msgs[m])
			if res.err(err, x == nil) {
				return
			}
			sig = x
			f.Raw = sigRaw(x)
			f.Data = sigForm(form, x)
			res.Out = f.Raw
		})
		if w.viol != nil {
			return
		}
		if r.HasErr {
			w.fail("cannot-sign", op.ID, "signing failed: %s", r.Err)
			return
		}
		key := fmt.Sprint(m)
		if old := a.st.Slots[s].Sigs[key]; old != nil && !bytes.Equal(old, sigRaw(sig)) {
			w.fail("signature-differs", op.ID, "the same key signs the same message differently: %x, before it was %x", sigRaw(sig), old)
			return
		}
		a.st.Slots[s].Sigs[key] = f.Raw
		if op.K == "sign" {
			a.put(f)
		}
	case "enc":
		if len(have) == 0 {
			return
		}
		s, to, m := have[op.A%len(have)], have[op.B%len(have)], op.M%nm
		f := &fact{File: file("ct"), Kind: "ct", Form: formRaw, Slot: s, Msg: m, To: to}
		src := a.u.srcs[0]
		r := a.lib(t, "enc/"+op.ID, "enc", src, func(res *Result) {
			out, err := crypto.NewEd25519BlockCipher(a.priv[s], a.priv[to], src).Encrypt(a.u.msgs[m])
			if !res.err(err, out == nil) {
				f.Data = bytes.Clone(out)
				res.Out = f.Data
			}
		})
		if w.viol != nil {
			return
		}
		if r.HasErr {
			w.fail("enc:failed", op.ID, "encrypting failed: %s", r.Err)
			return
		}
		a.put(f)
	}
}
