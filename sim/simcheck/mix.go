package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif.local/sim/ref"
)

// Case is one run, as generated or as replayed.
type Case struct {
	Prop    string    `json:"prop"`
	Seed    uint64    `json:"seed"`          // decides the schedule and the faults
	USeed   uint64    `json:"useed"`         // decides keys, messages and random bytes
	Env     uint64    `json:"env,omitempty"` // the circumstances of its process
	Cfg     Cfg       `json:"cfg"`
	NSig    int       `json:"nsig,omitempty"`
	NCT     int       `json:"nct,omitempty"`
	Damage  bool      `json:"damage,omitempty"`
	Threads [][]*Op   `json:"threads,omitempty"`
	Post    []*Op     `json:"post,omitempty"` // afterwards, one at a time
	Net     *NetCase  `json:"net,omitempty"`
	Disk    *DiskCase `json:"disk,omitempty"`
	Replay  bool      `json:"replay"` // take exactly the decisions in Entries
	Entries []Entry   `json:"entries,omitempty"`
	Bare    bool      `json:"bare,omitempty"` // judge every call, whatever the property
}

// CaseResult is what one run showed.
type CaseResult struct {
	Seed    uint64            `json:"seed"`
	USeed   uint64            `json:"useed"`
	Digest  uint64            `json:"digest"`
	Sched   uint64            `json:"sched,omitempty"`
	CutAt   []int             `json:"cutat,omitempty"`
	Suspect []string          `json:"suspect,omitempty"` // C14: calls whose result is not the reference's
	Viol    *Violation        `json:"viol,omitempty"`
	Entries []Entry           `json:"entries,omitempty"`
	Counts  map[string]int    `json:"counts,omitempty"`
	Probes  map[string]int    `json:"probes,omitempty"`
	Steps   int               `json:"steps"`
	SimNs   int64             `json:"simns"`
	Switch  int               `json:"switches"`
	Calls   int               `json:"calls"`
	Outs    map[string]string `json:"outs,omitempty"`
	Nonces  []nonce           `json:"nonces,omitempty"`
	Trace   []string          `json:"trace,omitempty"`
}

type nonce struct {
	R   string `json:"r"`
	S   string `json:"s"`
	Key string `json:"k"`
	Msg string `json:"m"`
	Op  string `json:"o"`
}

var (
	curWorld      *World
	defaultSource = &Source{name: "process-wide"}
	coarseBuild   bool
	profiles      map[string][]siteHits
	curProf       map[string][]uint32
)

func runCase(c *Case) *CaseResult {
	ref.Reset()
	switch {
	case c.Net != nil:
		return runNet(c)
	case c.Disk != nil:
		return runDisk(c)
	}
	return runMix(c)
}

func result(c *Case, w *World, u *U) *CaseResult {
	r := &CaseResult{Seed: c.Seed, USeed: c.USeed, Digest: w.digest, Viol: w.viol, Counts: w.counts, Probes: w.probes, Steps: w.steps, SimNs: w.now, Switch: w.nswitch}
	if u != nil {
		r.Calls = len(u.ops)
	}
	r.Sched = w.sched
	for i := range w.cutAt {
		r.CutAt = append(r.CutAt, i)
	}
	sort.Ints(r.CutAt)
	if w.viol != nil || wantEntries {
		r.Entries = w.ch.log
	}
	return r
}

var wantEntries, wantTrace bool

func start(c *Case) *World {
	w := newWorld(newChooser(c.Seed, c.Entries, c.Replay), &c.Cfg, c.USeed)
	w.profiles = profiles
	w.prof = curProf
	curWorld = w
	defaultSource.w = w
	defaultSource.dead, defaultSource.hung, defaultSource.hungAt, defaultSource.hungFor = nil, false, 0, 0
	defaultSource.reads, defaultSource.total, defaultSource.zeros = 0, 0, 0
	defaultSource.idle = 0
	if n := len(c.Cfg.Hang); n > c.Cfg.Srcs {
		defaultSource.hungAt = c.Cfg.Hang[c.Cfg.Srcs]
		defaultSource.hungFor = int64(c.Cfg.HangMs[c.Cfg.Srcs]) * 1_000_000
	}
	return w
}

// judged lists the calls whose results a property speaks about; nil: all.
var judged = map[string]map[string]bool{
	"C01": {"sign": true, "verify": true, "derive": true, "hash": true, "iscanon": true, "makecanon": true, "sigser": true, "keyser": true, "point": true, "kin": true},
	"C02": {"enc": true, "dec": true, "decof": true, "sharedkey": true, "peer": true},
	"C03": {"gen": true},
	"C04": {"enc": true, "decof": true},
	"C05": {"gen": true, "enc": true},
	"C13": {},
}

func runMix(c *Case) *CaseResult {
	w := start(c)
	u := newU(w, &c.Cfg, c.USeed)
	r := keyed(c.USeed, "objs")
	for i := 0; i < c.NSig; i++ {
		u.addSig(r)
	}
	for i := 0; i < c.NCT; i++ {
		u.addCT(r, c.Damage && r.p(1, 3))
	}
	isolate := c.Prop == "C10"
	if isolate {
		w.onSwitch = func() { u.isolation() }
	}
	w.inPhase("setup", func() {
		w.spawn("setup", func(*Thread) { u.setup() })
		w.run()
	})
	if w.viol == nil {
		w.threads = nil
		for i, ops := range c.Threads {
			ops := ops
			w.spawn(fmt.Sprint(i), func(t *Thread) {
				for _, op := range ops {
					st := u.call(t, op)
					u.after(c, st)
					if w.viol != nil {
						return
					}
					t.st = ready
					t.park()
				}
			})
		}
		if c.Prop == "C12" {
			u.stallChecks()
		}
		w.run()
		w.onIdle, w.onQuiet = nil, nil
	}
	if w.viol == nil && len(c.Post) > 0 {
		// The calls afterwards meet no faults.
		calm := *w.cfg
		calm.FaultP, calm.Pieces, calm.SrcSw = 0, 0, 0
		w.cfg = &calm
		w.threads = nil
		for _, s := range append([]*Source{defaultSource}, u.srcs...) {
			s.dead, s.hung, s.hungAt, s.idle = nil, false, 0, 0
		}
		w.spawn("post", func(t *Thread) {
			for _, op := range c.Post {
				st := u.call(t, op)
				u.after(c, st)
				if w.viol != nil {
					return
				}
			}
		})
		w.run()
	}
	if w.viol == nil && isolate {
		u.isolation()
	}
	res := result(c, w, u)
	res.Suspect = u.suspect
	if c.Prop == "C14" || wantTrace {
		res.Outs = map[string]string{}
		for _, st := range u.ops {
			res.Outs[st.op.ID] = st.res.String() + string(digestOf(st.res))
		}
	}
	if c.Prop == "C13" {
		for _, st := range u.ops {
			if st.op.K == "sign" && !st.res.HasErr && st.res.Panic == "" && len(st.res.Out) == 64 {
				a, m := idx(len(u.kps), st.op.A), idx(len(u.msgs), st.op.M)
				res.Nonces = append(res.Nonces, nonce{hexs(st.res.Out[:32]), hexs(st.res.Out[32:]), hexs(u.privs[a]), msgID(u.pure[m]), st.op.ID})
			}
		}
		if res.Viol == nil {
			res.Viol = repeated(res.Nonces)
		}
	}
	if wantTrace {
		for _, st := range u.ops {
			res.Trace = append(res.Trace, fmt.Sprintf("[%d..%d] thread %d %s -> %s; delivered %d bytes in %d reads %v", st.start, st.end, st.tid, st.op, st.res, len(st.delivered), st.readNo, st.faults))
		}
	}
	return res
}

// inPhase runs f without preemptions or faults.
func (w *World) inPhase(name string, f func()) {
	calm := *w.cfg
	calm.Arms, calm.FaultP, calm.Pieces, calm.SrcSw = 0, 0, 0, 0
	old := w.cfg
	w.cfg = &calm
	f()
	w.cfg = old
}

// after checks a call as soon as it has returned.
func (u *U) after(c *Case, st *opState) {
	if st.op.K == "scribble" {
		return
	}
	w := u.w
	if c.Bare {
		u.judge(st)
		return
	}
	switch c.Prop {
	case "C05":
		if st.src != nil && st.fromWrong > 0 {
			w.fail(st.op.K+":wrong-source", st.op.ID, "%s was given source %s but drew %d bytes from another one", st.op, st.src.name, st.fromWrong)
			return
		}
		// Only where the random bytes went matters here.
		if n := needs(st.op.K); n > 0 && st.res.Panic == "" && st.res.hang == "" && !st.res.HasErr {
			d := st.delivered
			if len(d) > n {
				d = d[:n]
			}
			if len(st.res.Out) < n || !bytes.Equal(st.res.Out[:n], d) {
				w.fail(st.op.K+":wrong-bytes", st.op.ID, "%s succeeded with random bytes %s in its result, but its source delivered %x to it (faults: %v)", st.op, short(st.res.Out[:min(n, len(st.res.Out))]), st.delivered, st.faults)
			}
		}
		return
	case "C14":
		if st.src != nil && st.fromWrong > 0 {
			w.fail(st.op.K+":wrong-source", st.op.ID, "%s was given source %s but drew %d bytes from another one", st.op, st.src.name, st.fromWrong)
			return
		}
		// Whether a result is the right one is for other properties to say; here it only hints at where to look.
		saved := w.viol
		u.judge(st)
		if w.viol != saved {
			w.viol = saved
			u.suspect = append(u.suspect, st.op.ID)
		}
		return
	case "C03", "C04":
		if st.src != nil && st.fromWrong > 0 && needs(st.op.K) > 0 && judged[c.Prop][st.op.K] && !st.res.HasErr && st.res.Panic == "" && st.res.hang == "" {
			w.fail(st.op.K+":wrong-source", st.op.ID, "%s succeeded with %d bytes that its source %s did not deliver: they came from another one (faults: %s)", st.op, st.fromWrong, st.src.name, strings.Join(st.faults, ","))
			return
		}
	case "C10":
		// Results count only where an owner's overwriting could have changed them.
		if u.fscr == 0 || st.start < u.fscr {
			return
		}
	}
	if j := judged[c.Prop]; j != nil && !j[st.op.K] {
		return
	}
	u.judge(st)
}

// isolation checks that nothing the callers own has changed behind their backs.
func (u *U) isolation() {
	if s := u.g.check(); s != "" {
		u.w.fail("input-overwritten", u.lastOp(), "%s (last call to begin or end: %s)", s, u.lastOp())
		return
	}
	for _, k := range u.kept {
		if k.changed() {
			u.w.fail("result-changed", k.op, "the %s that call %s returned has changed since: now %s, was %s (last call to begin or end: %s)", k.what, k.op, short(bytes.Join(k.parts, nil)), short(bytes.Join(k.snap, nil)), u.lastOp())
			return
		}
	}
}

func (u *U) lastOp() string {
	best, at := "setup", -1
	for _, st := range u.ops {
		if st.end > at {
			best, at = st.op.String(), st.end
		} else if st.start > at {
			best, at = st.op.String(), st.start
		}
	}
	return best
}

// stallChecks sets up the invariant of C12.
func (u *U) stallChecks() {
	w := u.w
	blameless := func(t *Thread) bool {
		return t.op != nil && t.op.src != nil && t.op.src.hung
	}
	check := func() bool {
		for _, t := range w.unfinished() {
			if !blameless(t) {
				w.fail("stall-delays-others", t.opID(), "while a randomness source is stalled, a call that does not use it cannot proceed: %s", describe(w.unfinished()))
				return false
			}
		}
		return true
	}
	// Whenever nothing can run, every unfinished thread must be a caller of a stalled source.
	w.onQuiet = func() {
		if len(w.unfinished()) > 0 {
			w.probes["all_others_done_while_stalled"]++
			check()
		}
	}
	w.onIdle = func() bool {
		hung := false
		for _, s := range append([]*Source{defaultSource}, u.srcs...) {
			hung = hung || s.hung
		}
		if !hung {
			return false
		}
		if !check() {
			return false
		}
		for _, s := range append([]*Source{defaultSource}, u.srcs...) {
			s.hung = false
		}
		w.probes["released_after_quiescence"]++
		return true
	}
}

func digestOf(r *Result) []byte {
	if len(r.Out) <= 96 {
		return nil
	}
	return []byte(fmt.Sprintf(" #%016x", hash64(1, string(r.Out))))
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }

func msgID(m []byte) string {
	return fmt.Sprintf("%d:%016x%016x", len(m), hash64(7, string(m)), hash64(8, string(m)))
}

// repeated looks for two signatures that share their first half.
func repeated(ns []nonce) *Violation {
	seen := map[string]nonce{}
	for _, n := range ns {
		o, ok := seen[n.R]
		if !ok {
			seen[n.R] = n
			continue
		}
		if o.Key != n.Key || o.Msg != n.Msg {
			return &Violation{"nonce-repeated", n.Op, fmt.Sprintf("calls %s and %s, over different messages or by different keys, produced signatures with the same first half %s (keys %s and %s, messages %s and %s)", o.Op, n.Op, n.R, o.Key, n.Key, o.Msg, n.Msg)}
		}
		if o.S != n.S {
			return &Violation{"nonce-reused", n.Op, fmt.Sprintf("calls %s and %s signed the same message by the same key with the same first half %s but different second halves %s and %s", o.Op, n.Op, n.R, o.S, n.S)}
		}
	}
	return nil
}
