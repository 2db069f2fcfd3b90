package main

import (
	"container/heap"
	"fmt"
	"iter"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Violation is one way in which a property was broken.
type Violation struct {
	Class  string `json:"class"` // what kind of failure, stable under minimisation
	Op     string `json:"op"`
	Detail string `json:"detail"`
}

type event struct {
	at  int64
	seq int64
	f   func()
	lib bool // a thread of the library's own wakes
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

const (
	ready = iota
	blocked
	waiting
	asleep
	done
)

// opState is what the simulator knows about one call.
type opState struct {
	op        *Op
	tid       int
	src       *Source // the source the call was given
	delivered []byte
	readNo    int
	fromWrong int      // bytes drawn from a source other than the call's
	faults    []string // error-class faults that the call met
	hard      bool     // an error was delivered to it
	panicked  bool     // its source panicked
	stalls    int
	deadReads int
	idle      int // empty reads in a row
	res       *Result
	start     int
	end       int
	switches  int
	spins     int
	keep      []*kept
}

type armAt struct {
	hit    uint32
	period uint32
}

// Thread is one simulated caller thread.
type Thread struct {
	simrt.Thread
	w      *World
	id     int
	name   string
	next   func() (struct{}, bool)
	yield  func(struct{}) bool
	st     int
	key    any
	pred   func() bool
	op     *opState
	arms   map[int][]armAt
	isLib  bool // started by the library
	opsRun int
	// kindName is what its profile is kept under.
	kindName string
}

type hangUp struct{ why string }

// World is one simulated execution.
type World struct {
	ch      *chooser
	cfg     *Cfg
	useed   uint64
	threads []*Thread
	cur     *Thread
	handoff *Thread
	now     int64
	skew    int64 // of the clock that the library sees
	seq     int64
	q       eventHeap
	steps   int
	maxStep int
	digest  uint64
	sched   uint64 // digest of the interleaving alone
	cutAt   map[int]bool
	nswitch int
	viol    *Violation
	// onSwitch is an invariant evaluated whenever control passes between threads.
	onSwitch func()
	// onIdle is called when nothing can proceed; it reports whether it changed that.
	onIdle func() bool
	// onQuiet is called when nothing can proceed before time passes.
	onQuiet  func()
	counts   map[string]int // faults injected, by kind
	probes   map[string]int
	inSim    bool
	profiles map[string][]siteHits
	prof     map[string][]uint32 // most hits per site, by kind of call
	coarse   bool                // the library was built without yields: no switches inside calls
}

type siteHits struct {
	Site int `json:"s"`
	Hits int `json:"h"`
}

func newWorld(ch *chooser, cfg *Cfg, useed uint64) *World {
	w := &World{ch: ch, cfg: cfg, useed: useed, counts: map[string]int{}, probes: map[string]int{}, digest: 14695981039346656037, sched: 14695981039346656037, cutAt: map[int]bool{}, maxStep: 2_000_000, coarse: coarseBuild}
	return w
}

// ignored lists the classes of failure that the driver has found to have nothing to do with the property.
var ignored = map[string]bool{}

func (w *World) fail(class, op, format string, a ...any) {
	if w.viol == nil && !ignored[class] {
		w.viol = &Violation{Class: class, Op: op, Detail: fmt.Sprintf(format, a...)}
	}
}

func (w *World) mix(parts ...string) {
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			w.digest ^= uint64(p[i])
			w.digest *= 1099511628211
		}
		w.digest ^= 0xff
		w.digest *= 1099511628211
	}
}

func (w *World) mixSched(parts ...string) {
	d := w.digest
	w.digest = w.sched
	w.mix(parts...)
	w.digest, w.sched = d, w.digest
}

func (t *Thread) kind() string {
	if t.op != nil {
		return t.op.op.K
	}
	return "-"
}

func (w *World) after(d int64, f func()) *event {
	w.seq++
	e := &event{at: w.now + d, seq: w.seq, f: f}
	heap.Push(&w.q, e)
	return e
}

// spawn adds a thread that runs f.
func (w *World) spawn(name string, f func(t *Thread)) *Thread {
	t := &Thread{w: w, id: len(w.threads), name: name}
	t.kindName = "-"
	t.Hits = make([]uint32, len(sites)+1)
	t.Arm = make([]uint32, len(sites)+1)
	for i := range t.Arm {
		t.Arm[i] = simrt.Spin
	}
	t.Slow = t.slow
	t.Park = func(key any) {
		t.st, t.key = blocked, key
		t.w.ch.seq("blk/" + t.opID())
		t.w.probes["blocked_on_lock"]++
		t.park()
	}
	t.next, _ = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			t.st = done
			if e := recover(); e != nil {
				st := debug.Stack()
				if lib := trimStack(st); lib != "" {
					t.w.fail("thread-panic", t.opID(), "thread %s: %v\n%s", t.name, e, lib)
				} else {
					fatal("thread %s: %v\n%s", t.name, e, st)
				}
			}
		}()
		f(t)
	})
	w.threads = append(w.threads, t)
	return t
}

// daemons is the library's threads that outlived the run they were started in.
var daemons []*Thread

// libThread starts a thread of the library's, on behalf of parent if there is one.
func (w *World) libThread(parent *Thread, f func()) {
	name := "library"
	if parent != nil {
		name = parent.name + "'"
	}
	t := w.spawn(name, func(t *Thread) {
		f()
		t.record()
	})
	t.isLib = true
	w.probes["library_thread"]++
	if parent != nil && parent.op != nil {
		t.op = parent.op
		t.kindName = parent.op.op.K + "/go"
		t.plan(w.ch.seq("go/" + t.opID()))
	}
}

// adopt takes over the library's threads from the run before.
func (w *World) adopt() {
	for _, t := range daemons {
		t.w, t.id = w, len(w.threads)
		clear(t.Hits)
		t.op = nil
		if t.st == asleep {
			t.st = ready
		}
		w.threads = append(w.threads, t)
	}
	daemons = nil
	for _, f := range simrt.Pending {
		w.libThread(nil, f)
	}
	simrt.Pending = nil
}

// leave keeps the library's threads that are not done for the next run.
func (w *World) leave() {
	for _, t := range w.threads {
		if t.isLib && t.st != done {
			daemons = append(daemons, t)
		}
	}
}

func (t *Thread) opID() string {
	if t.op != nil {
		return t.op.op.ID
	}
	return t.name
}

// park gives control back to the scheduler.
func (t *Thread) park() {
	t.yield(struct{}{})
}

func (t *Thread) sleep(d int64) {
	t.st = asleep
	e := t.w.after(d, func() {
		if t.st == asleep {
			t.st = ready
		}
	})
	e.lib = t.isLib
	t.park()
}

// waitUntil parks the thread until pred holds.
func (t *Thread) waitUntil(pred func() bool) {
	for !pred() {
		t.st, t.pred = waiting, pred
		t.park()
	}
}

func (t *Thread) slow(site int, hit uint32) {
	as := t.arms[site]
	match := -1
	next := hit + simrt.Spin
	var per uint32
	for i, a := range as {
		if a.hit == hit {
			match, per = i, a.period
		} else if a.hit > hit && a.hit < next {
			next = a.hit
		}
	}
	if match >= 0 {
		if per > 0 && t.op != nil && t.op.switches < 300 {
			as[match].hit = hit + per
			if as[match].hit < next {
				next = as[match].hit
			}
		}
		t.Arm[site] = next
		t.w.preempt(t, site, hit)
		return
	}
	t.Arm[site] = next
	if t.op != nil {
		t.op.spins++
		if t.op.spins > 200 {
			panic(hangUp{fmt.Sprintf("the call passed %s %d times without finishing", siteName(site), hit)})
		}
	}
	t.w.preempt(t, site, hit)
}

// others lists the threads other than t that can run, in ring order after t.
func (w *World) others(t *Thread) []*Thread {
	var l []*Thread
	n := len(w.threads)
	for i := 1; i < n; i++ {
		o := w.threads[(t.id+i)%n]
		if w.runnable(o) {
			l = append(l, o)
		}
	}
	return l
}

func (w *World) runnable(t *Thread) bool {
	if t.st == waiting && t.pred() {
		t.st = ready
	}
	return t.st == ready
}

// preempt passes control from t, which stays runnable, to another thread.
func (w *World) preempt(t *Thread, site int, hit uint32) {
	l := w.others(t)
	if len(l) == 0 {
		w.probes["preempt_nobody_else"]++
		return
	}
	id := t.opID()
	k := w.ch.seq("to/" + id)
	i := w.ch.pick(k, func(v int64) string { return fmt.Sprintf("to the %d. other runnable thread", v+1) }, func(r *rng) int64 { return int64(r.n(len(l))) })
	o := l[int(i)%len(l)]
	if t.op != nil {
		t.op.switches++
	}
	w.nswitch++
	w.cutAt[site] = true
	w.mixSched(t.kind(), fmt.Sprint(site), o.kind())
	w.mix("s", id, fmt.Sprint(site, ":", hit), o.opID())
	w.handoff = o
	t.park()
}

// pick chooses the next thread when the last one cannot or need not continue.
func (w *World) pick(last *Thread) *Thread {
	if h := w.handoff; h != nil {
		w.handoff = nil
		if w.runnable(h) {
			return h
		}
	}
	var l []*Thread
	for _, t := range w.threads {
		if w.runnable(t) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	// The benign choice is to let the last thread continue, else the first one.
	if last != nil && w.runnable(last) {
		for i, t := range l {
			if t == last {
				l[0], l[i] = l[i], l[0]
			}
		}
		sort.SliceStable(l[1:], func(i, j int) bool { return l[1+i].id < l[1+j].id })
	}
	if len(l) == 1 {
		return l[0]
	}
	id := "start"
	if last != nil {
		id = last.opID()
	}
	k := w.ch.seq("run/" + id)
	v := w.ch.pick(k, nil, func(r *rng) int64 {
		if r.p(w.cfg.Stay, 100) {
			return 0
		}
		return int64(r.n(len(l)))
	})
	return l[int(v)%len(l)]
}

// run executes until every thread is done or nothing can proceed.
func (w *World) run() {
	old := simrt.Cur
	simrt.TooLong = func() { panic(hangUp{"the call goes round in a loop without end"}) }
	simrt.Wake = func(key any) {
		for _, t := range w.threads {
			if t.st == blocked && t.key == key {
				t.st = ready
			}
		}
	}
	simrt.Spawn = func(f func()) {
		w.libThread(w.cur, f)
	}
	simrt.BlockUntil = func(p func() bool) { w.cur.waitUntil(p) }
	simrt.Choose = func(n int) int {
		k := w.ch.seq("sel/" + w.cur.opID())
		return int(w.ch.pick(k, nil, func(r *rng) int64 { return int64(r.n(n)) })) % n
	}
	simrt.Order = func(n int) []int {
		v := w.ch.pick(w.ch.seq("map/"+w.cur.opID()), func(int64) string { return "a map is gone through in another order" }, func(r *rng) int64 {
			if r.p(1, 3) {
				return 0
			}
			return int64(r.next() >> 2)
		})
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		if v != 0 {
			w.counts["map-order"]++
			r := &rng{uint64(v)}
			for i := n - 1; i > 0; i-- {
				j := r.n(i + 1)
				l[i], l[j] = l[j], l[i]
			}
		}
		return l
	}
	simrt.Clock = func() int64 { return w.now + w.skew }
	simrt.SleepFor = func(ns int64) { w.cur.sleep(ns) }
	w.adopt()
	defer w.leave()
	extra, barren := 0, 0
	simrt.Overlap = func(what string) {
		w.fail("map-race", w.cur.opID(), "fatal error: %s (the Go runtime ends the whole process)", what)
	}
	simrt.Pause = func() {
		if w.coarse {
			return
		}
		t := w.cur
		k := w.ch.seq("mapw/" + t.opID())
		if w.ch.pick(k, nil, func(r *rng) int64 { return int64(r.n(2)) }) != 0 {
			w.preempt(t, len(sites), 0)
		}
	}
	w.inSim = true
	var last *Thread
	for w.viol == nil {
		for w.q.Len() > 0 && w.q[0].at <= w.now {
			heap.Pop(&w.q).(*event).f()
		}
		t := w.pick(last)
		if t == nil {
			if w.onQuiet != nil {
				w.onQuiet()
				if w.viol != nil {
					break
				}
			}
			if w.q.Len() > 0 {
				if len(w.unfinished()) == 0 {
					// Only the library's own threads are left, and they sleep.
					if extra++; extra > 100 {
						break
					}
				}
				// Time may pass for the library's own threads only: for one that does something every now and then.
				next := w.q[0].at
				if barren++; barren > 3000 && len(w.unfinished()) > 0 {
					next = w.outside()
				}
				if next >= 0 {
					w.now = next
					continue
				}
				barren = 0
			}
			if w.onIdle != nil && w.onIdle() {
				continue
			}
			left := w.unfinished()
			if len(left) > 0 && w.viol == nil {
				w.fail("hang", left[0].opID(), "no thread can ever proceed: %s", describe(left))
			}
			break
		}
		if t != last {
			w.mix("r", t.opID())
			w.mixSched("r", fmt.Sprint(t.id), t.kind())
			if w.onSwitch != nil {
				w.onSwitch()
			}
		}
		w.steps++
		w.now += 1000
		if !t.isLib {
			barren = 0
		}
		if t.isLib && len(w.unfinished()) == 0 {
			if extra++; extra > 2000 {
				break
			}
		}
		if w.steps > w.maxStep {
			w.fail("hang", t.opID(), "no end after %d scheduling steps", w.steps)
			break
		}
		last = t
		w.cur = t
		simrt.Cur = &t.Thread
		t.next()
		simrt.Cur = nil
		w.cur = nil
	}
	w.inSim = false
	simrt.Cur = old
	simrt.ResetMaps()
}

// outside is when something next happens that no thread of the library's own is asleep for, or -1.
func (w *World) outside() int64 {
	next := int64(-1)
	for _, e := range w.q {
		if !e.lib && (next < 0 || e.at < next) {
			next = e.at
		}
	}
	return next
}

// unfinished is the threads of callers that are not done. A thread of the library's that waits for ever delays nobody.
func (w *World) unfinished() []*Thread {
	var l []*Thread
	for _, t := range w.threads {
		if t.st != done && !t.isLib {
			l = append(l, t)
		}
	}
	return l
}

func describe(ts []*Thread) string {
	var p []string
	for _, t := range ts {
		what := map[int]string{ready: "runnable", blocked: "waits for a lock held for ever", waiting: "waits", asleep: "asleep"}[t.st]
		name := t.name
		if t.op != nil {
			name += " in call " + t.op.op.String()
		}
		p = append(p, name+" "+what)
	}
	return strings.Join(p, "; ")
}

// begin prepares the thread for a call.
func (t *Thread) begin(op *opState) {
	t.op = op
	simrt.Loops = 0
	w := t.w
	clear(t.Hits)
	for s := range t.arms {
		t.Arm[s] = simrt.Spin
	}
	clear(t.arms)
	w.seq++
	op.start = int(w.seq)
	t.kindName = op.op.K
	if sitesInfo.Clock && (w.cfg.Jump > 0 || w.ch.replay) {
		v := w.ch.pick("clock/"+op.op.ID, func(v int64) string { return fmt.Sprintf("the clock jumps by %v", time.Duration(v)) }, func(r *rng) int64 {
			if !r.p(w.cfg.Jump, 100) {
				return 0
			}
			d := []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 25 * time.Hour, 366 * 24 * time.Hour}[r.n(7)]
			return int64(d) * int64([]int{1, 1, 2, 10, -1, -3}[r.n(6)])
		})
		if v != 0 {
			w.counts["clock-jump"]++
		}
		w.skew += v
	}
	t.plan(op.op.ID)
}

// plan decides where the thread will be preempted.
func (t *Thread) plan(id string) {
	w := t.w
	if w.prof != nil || w.coarse || w.cfg.Arms == 0 && !w.ch.replay {
		return
	}
	n := w.cfg.Arms
	if n > maxArms || w.ch.replay {
		n = maxArms
	}
	prof := w.profiles[t.kindName]
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("arm/%s/%d", id, i)
		v := w.ch.pick(k, armNote, func(r *rng) int64 {
			if len(prof) == 0 || !r.p(w.cfg.ArmP, 100) {
				return 0
			}
			sh := pickSite(r, prof)
			hit := 1
			switch x := r.n(10); {
			case x < 5:
			case x < 7:
				hit = sh.Hits
			default:
				hit = r.in(1, sh.Hits)
			}
			per := 0
			if r.p(w.cfg.LockP, 100) {
				per = 1
				if r.p(1, 2) {
					per = r.in(1, 1+sh.Hits/2)
				}
			}
			if hit >= 1<<22 {
				hit = 1<<22 - 1
			}
			if per >= 1<<18 {
				per = 1<<18 - 1
			}
			return int64(sh.Site) | int64(hit)<<20 | int64(per)<<43
		})
		if v == 0 {
			continue
		}
		site, hit, per := int(v&(1<<20-1)), uint32(v>>20&(1<<23-1)), uint32(v>>43)
		if site >= len(sites) || hit == 0 {
			continue
		}
		if t.arms == nil {
			t.arms = map[int][]armAt{}
		}
		t.arms[site] = append(t.arms[site], armAt{hit, per})
		if hit < t.Arm[site] {
			t.Arm[site] = hit
		}
	}
}

const maxArms = 16

func armNote(v int64) string {
	site, hit, per := int(v&(1<<20-1)), v>>20&(1<<23-1), v>>43
	s := fmt.Sprintf("preempt at %s, hit %d", siteName(site), hit)
	if per > 0 {
		s += fmt.Sprintf(", and every %d hits after", per)
	}
	return s
}

func pickSite(r *rng, prof []siteHits) siteHits {
	if r.p(3, 10) { // a statement that uses state that outlives calls
		n := 0
		for _, s := range prof {
			if sites[s.Site].Hot {
				n++
			}
		}
		if n > 0 {
			n = r.n(n)
			for _, s := range prof {
				if sites[s.Site].Hot {
					if n == 0 {
						return s
					}
					n--
				}
			}
		}
	}
	switch x := r.n(10); {
	case x < 4: // a statement that touches shared state or begins a function
		for i := 0; i < 8; i++ {
			s := prof[r.n(len(prof))]
			if st := sites[s.Site]; st.Shared || st.Entry {
				return s
			}
		}
		return prof[r.n(len(prof))]
	case x < 8: // any statement
		return prof[r.n(len(prof))]
	default: // any moment
		tot := 0
		for _, s := range prof {
			tot += s.Hits
		}
		v := r.n(tot)
		for _, s := range prof {
			if v < s.Hits {
				return s
			}
			v -= s.Hits
		}
		return prof[0]
	}
}

// finish ends the call and lets another thread run.
func (t *Thread) finish() {
	w := t.w
	w.seq++
	t.op.end = int(w.seq)
	t.opsRun++
	t.record()
	simrt.ResetMapsOf(&t.Thread)
	for s := range t.arms {
		t.Arm[s] = simrt.Spin
	}
	clear(t.arms)
}

// record adds what the thread did to the profile, if one is made.
func (t *Thread) record() {
	w := t.w
	if w.prof == nil {
		return
	}
	m := w.prof[t.kindName]
	if m == nil {
		m = make([]uint32, len(t.Hits))
		w.prof[t.kindName] = m
	}
	for i, h := range t.Hits {
		m[i] = max(m[i], h)
	}
}

func siteName(s int) string {
	if s < 0 || s >= len(sites) {
		return "?"
	}
	x := sites[s]
	return fmt.Sprintf("%s:%d (%s)", x.File, x.Line, x.Func)
}

func trimStack(b []byte) string {
	var out []string
	lines := strings.Split(string(b), "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "go-xpx-crypto.") || strings.Contains(lines[i], "go-xpx-crypto/") {
			out = append(out, strings.TrimSpace(lines[i]))
			if len(out) > 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}
