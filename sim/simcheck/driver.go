package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

// plan is how much of a property a tier explores.
type plan struct {
	runs  int // quick
	big   int // runs per large process
	pairs bool
}

var plans = map[string]plan{
	"C01": {60000, 48, false},
	"C02": {7500, 32, false},
	"C03": {80000, 64, false},
	"C04": {9000, 48, false},
	"C05": {18000, 48, false},
	"C06": {26000, 32, false},
	"C07": {15000, 32, false},
	"C08": {5500, 32, false},
	"C09": {6000, 16, false},
	"C10": {20000, 32, false},
	"C11": {18000, 48, false},
	"C12": {9500, 48, false},
	"C13": {40000, 48, true},
	"C14": {8500, 32, true},
}

// died is the result of a process that did not end well.
type died struct{ why, stderr string }

func (d *died) Error() string { return d.why + "\n" + d.stderr }

// spawnWorker runs one process.
func spawnWorker(mode string, x *batchIn, limit time.Duration) (*batchOut, error) {
	b, err := json.Marshal(x)
	if err != nil {
		fatal("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, selfPath, mode)
	cmd.Stdin = bytes.NewReader(b)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	env := x.Env
	if len(x.Cases) > 0 {
		env = x.Cases[0].Env
	}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", fmt.Sprintf("SIM_ENV=%d", env))
	if env != 0 {
		cmd.Env = append(cmd.Env, "TZ="+[]string{"UTC", "Asia/Tokyo", "America/New_York"}[env%3], "LANG="+[]string{"C", "tr_TR.UTF-8"}[env%2])
		cmd.Dir = []string{"/", os.TempDir(), buildDir}[env/3%3]
		cmd.Args = append(cmd.Args, []string{"-v", "serve", "x"}[:env/9%4]...)
	}
	err = cmd.Run()
	if ctx.Err() != nil {
		return nil, &died{"timeout", tail(eb.String(), 4000)}
	}
	if err != nil {
		return nil, &died{err.Error(), tail(eb.String(), 60000)}
	}
	out := &batchOut{}
	if err := json.Unmarshal(ob.Bytes(), out); err != nil {
		return nil, &died{"bad output: " + err.Error(), tail(ob.String(), 2000)}
	}
	return out, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// proc is the runs of one process, in order.
type proc = []*Case

// observe executes processes and returns what is wrong with the history they make, if anything.
func observe(prop string, procs []proc, ig []string) (*Violation, []*batchOut, error) {
	outs := make([]*batchOut, len(procs))
	for i, p := range procs {
		out, err := spawnWorker("batch", &batchIn{Prop: prop, Cases: p, Ignored: ig}, workerLimit)
		if err != nil {
			if d, ok := err.(*died); ok {
				if why := libraryDeath(d.stderr); why != "" {
					return &Violation{"process-death", "", why}, outs, nil
				}
			}
			return nil, outs, err
		}
		outs[i] = out
	}
	return verdict(prop, outs), outs, nil
}

// verdict looks at each process and then across them.
func verdict(prop string, outs []*batchOut) *Violation {
	for _, o := range outs {
		for _, r := range o.Results {
			if r.Viol != nil {
				return r.Viol
			}
		}
	}
	if len(outs) < 2 && prop != "C13" {
		return nil
	}
	switch prop {
	case "C13":
		var all []nonce
		for i, o := range outs {
			for j, r := range o.Results {
				for _, n := range r.Nonces {
					n.Op = fmt.Sprintf("process %d, run %d, call %s", i+1, j+1, n.Op)
					all = append(all, n)
				}
			}
		}
		return repeated(all)
	case "C14":
		type seen struct{ out, where string }
		first := map[string]seen{}
		for i, o := range outs {
			for j, r := range o.Results {
				for _, id := range sortedKeys(r.Outs) {
					k := fmt.Sprint(r.USeed, "/", id)
					w := fmt.Sprintf("process %d, run %d", i+1, j+1)
					if f, ok := first[k]; !ok {
						first[k] = seen{r.Outs[id], w}
					} else if f.out != r.Outs[id] {
						return &Violation{"not-reproducible", id, fmt.Sprintf("call %s, with the same arguments and the same random bytes, returned %s in %s and %s in %s", id, f.out, f.where, r.Outs[id], w)}
					}
				}
			}
		}
	}
	return nil
}

var workerLimit = 300 * time.Second

// stats is what a check covered.
type stats struct {
	runs, calls, steps, switches, procs int
	simNs                               int64
	counts, probes                      map[string]int
	digests, scheds                     map[uint64]bool
	cut                                 map[int]bool
	nontrivial                          map[uint64]bool
	cross                               int
	recheck, mismatch                   int
	samples                             []any
}

func (s *stats) add(r *CaseResult) {
	s.runs++
	s.calls += r.Calls
	s.steps += r.Steps
	s.switches += r.Switch
	s.simNs += r.SimNs
	faults := 0
	for k, v := range r.Counts {
		s.counts[k] += v
		faults += v
	}
	for k, v := range r.Probes {
		s.probes[k] += v
	}
	s.digests[r.Digest] = true
	s.scheds[r.Sched] = true
	for _, i := range r.CutAt {
		if i >= 0 && i < len(sites) {
			s.cut[i] = true
		}
	}
	if r.Switch > 0 || faults > 0 {
		s.nontrivial[r.Digest] = true
	}
}

type driver struct {
	prop     string
	seed     uint64
	tier     string
	verif    string
	budget   time.Duration
	began    time.Time
	st       stats
	ignore   []string
	known    []knownFinding
	knownHit map[int]string
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Class    string `json:"class"`
	Match    string `json:"match"` // what the violation's text must contain
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type batchJob struct {
	i     int
	seeds []uint64
}

type batchDone struct {
	job  batchJob
	outs []*batchOut
	proc []proc
	viol *Violation
	err  error
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return hash64(seed, fmt.Sprintf("%s/%d", prop, i)) >> 1
}

func drive(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	budget := fs.Duration("budget", 0, "wall-clock limit of the exploration")
	scale := fs.Float64("scale", 1, "multiply the number of runs")
	fs.Parse(args)
	p, ok := plans[*prop]
	if !ok {
		fatal("no such property: %s", *prop)
	}
	d := &driver{prop: *prop, seed: *seed, tier: *tier, verif: *verif, budget: *budget, began: time.Now(), knownHit: map[int]string{}}
	d.st = stats{counts: map[string]int{}, probes: map[string]int{}, digests: map[uint64]bool{}, scheds: map[uint64]bool{}, cut: map[int]bool{}, nontrivial: map[uint64]bool{}}
	if err := d.loadKnown(); err != nil {
		fatal("known findings: %v", err)
	}
	if d.budget == 0 {
		d.budget = 110 * time.Second
		if *tier == "thorough" {
			d.budget = 720 * time.Second
		}
	}
	runs := int(float64(p.runs) * *scale)
	if *tier == "thorough" {
		runs *= 12
	}
	d.profile()
	viol := d.explore(p, runs)
	if viol == nil {
		d.recheck(p)
	}
	d.evidence(p, viol)
	for i, k := range d.known {
		if k.Status == "open" && d.knownHit[i] != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.What)
		}
	}
	fmt.Printf("%s: %d runs, %d calls, %d switches inside calls, %d distinct interleavings, %.1f s\n", d.prop, d.st.runs, d.st.calls, d.st.switches, len(d.st.scheds), time.Since(d.began).Seconds())
	if viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, viol.path)
		os.Exit(1)
	}
}

func (d *driver) loadKnown() error {
	var all struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := readJSON(filepath.Join(d.verif, "known-findings.json"), &all); err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	for _, k := range all.Findings {
		if k.Property == d.prop && k.Status == "open" {
			d.known = append(d.known, k)
		}
	}
	return nil
}

func (d *driver) isKnown(v *Violation) bool {
	for i, k := range d.known {
		if k.Class == v.Class && (k.Match == "" || strings.Contains(v.Detail, k.Match)) {
			d.knownHit[i] = v.Detail
			return true
		}
	}
	return false
}

var allKinds = []string{"sign", "verify", "iscanon", "makecanon", "sigser", "keyser", "point", "derive", "hash", "sharedkey", "enc", "dec", "decof", "gen", "kin", "peer", "fail"}

// profile finds out, per kind of call, which yields it passes and how often; each in a cold process.
func (d *driver) profile() {
	merged := map[string][]uint32{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	one := func(prop, kind string) {
		defer wg.Done()
		sem <- true
		defer func() { <-sem }()
		x := &batchIn{Prop: prop, Kind: kind}
		for i := 0; i < 6; i++ {
			x.Seeds = append(x.Seeds, runSeed(99, "profile/"+prop, i))
		}
		out, err := spawnWorker("profile", x, workerLimit)
		if err != nil {
			// Not the place to judge: explore with what there is.
			fmt.Fprintf(os.Stderr, "profile of %s: %v\n", kind, err)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for k, hits := range out.Profile {
			m := merged[k]
			if m == nil {
				m = make([]uint32, len(hits))
				merged[k] = m
			}
			for i, h := range hits {
				m[i] = max(m[i], h)
			}
		}
	}
	switch d.prop {
	case "C06", "C07", "C08", "C09":
		wg.Add(1)
		go one(d.prop, "")
	default:
		for _, k := range allKinds {
			wg.Add(1)
			p := d.prop
			if k == "sigser" || k == "makecanon" || k == "verify" || k == "iscanon" {
				p = "C01" // needs signatures with a target
			}
			go one(p, k)
		}
	}
	wg.Wait()
	prof := map[string][]siteHits{}
	for k, m := range merged {
		for i, h := range m {
			if h > 0 && i < len(sites) {
				prof[k] = append(prof[k], siteHits{i, int(h)})
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"profiles": prof})
	if err := os.WriteFile(filepath.Join(buildDir, "profiles-"+d.prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

// jobs cuts the runs into processes: many short ones, whose calls are the first of their process, and long ones.
func (d *driver) jobs(p plan, runs int) []batchJob {
	var l []batchJob
	for i := 0; i < runs; {
		n := p.big
		switch len(l) % 5 {
		case 0:
			n = 1
		case 1:
			n = 3
		case 2:
			n = 10
		}
		j := batchJob{i: len(l)}
		for ; n > 0 && i < runs; n-- {
			j.seeds = append(j.seeds, runSeed(d.seed, d.prop, i))
			i++
		}
		l = append(l, j)
	}
	return l
}

// envOf is the circumstances of a process; every third lives under ordinary ones.
func envOf(i int) uint64 {
	if i%3 == 0 {
		return 0
	}
	return uint64(i)*0x9E37 + 1
}

func (d *driver) runJob(p plan, j batchJob) *batchDone {
	done := &batchDone{job: j}
	d1 := &batchIn{Prop: d.prop, Seeds: j.seeds, Ignored: d.ignore, Env: envOf(j.i)}
	ins := []*batchIn{d1}
	if p.pairs {
		// The same calls with the same random bytes in another process, in another order, under other decisions.
		rev := make([]uint64, len(j.seeds))
		for i, s := range j.seeds {
			rev[len(rev)-1-i] = s
		}
		ins = append(ins, &batchIn{Prop: d.prop, Seeds: rev, Again: 0x5EED0001 + uint64(j.i), Ignored: d.ignore, Env: envOf(j.i + 500009)})
	}
	defer func() {
		if done.viol != nil && done.proc == nil {
			for _, in := range ins[:max(len(done.outs), 1)] {
				done.proc = append(done.proc, casesOf(in))
			}
			if done.viol.Class == "process-death" && len(done.outs) < len(ins) && len(done.outs) > 0 {
				done.proc = []proc{casesOf(ins[len(done.outs)])}
			}
		}
	}()
	for _, in := range ins {
		out, err := spawnWorker("batch", in, workerLimit)
		if err != nil {
			if x, ok := err.(*died); ok {
				if why := libraryDeath(x.stderr); why != "" {
					done.viol = &Violation{"process-death", "", why}
					return done
				}
			}
			done.err = err
			return done
		}
		done.outs = append(done.outs, out)
	}
	done.viol = verdict(d.prop, done.outs)
	if done.viol == nil && d.prop == "C14" {
		d.suspects(done)
	}
	return done
}

// suspects runs alone, in a process of its own, each run whose results are not what the reference model says.
func (d *driver) suspects(done *batchDone) {
	n := 0
	var all proc
	for i, r := range done.outs[0].Results {
		if len(r.Suspect) == 0 || n >= 6 {
			continue
		}
		if all == nil {
			all = casesOf(&batchIn{Prop: d.prop, Seeds: done.job.seeds, Env: envOf(done.job.i)})
		}
		hist := all[:i+1]
		for _, t := range append(all[i].Threads, all[i].Post) {
			for _, op := range t {
				if n >= 6 || !slices.Contains(r.Suspect, op.ID) {
					continue
				}
				n++
				alone := *all[i]
				alone.Env = envOf(done.job.i + 500009)
				alone.Threads, alone.Post = [][]*Op{{op}}, nil
				alone.Replay, alone.Entries = true, nil
				v, _, err := observe(d.prop, []proc{hist, {&alone}}, nil)
				if err == nil && v != nil {
					done.viol = v
					done.proc = []proc{hist, {&alone}}
					done.outs = nil
					return
				}
			}
		}
	}
}

type found struct {
	v    *Violation
	path string
}

func (d *driver) explore(p plan, runs int) *found {
	jobs := d.jobs(p, runs)
	start := time.Now()
	next := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	var bad *batchDone
	var wrong error
	stop := false
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) || time.Since(start) > d.budget {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				r := d.runJob(p, j)
				mu.Lock()
				d.st.procs += len(r.outs)
				for i, o := range r.outs {
					for _, c := range o.Results {
						if i == 0 {
							d.st.add(c)
						} else {
							d.st.cross++
						}
					}
				}
				if r.viol != nil && !d.isKnown(r.viol) {
					stop = true
					if bad == nil || r.job.i < bad.job.i {
						bad = r
					}
				}
				if r.err != nil {
					stop, wrong = true, r.err
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if bad == nil {
		if wrong != nil {
			if x, ok := wrong.(*died); ok && x.why == "timeout" {
				fatal("a worker did not finish: %v", wrong)
			}
			fatal("worker: %v", wrong)
		}
		return nil
	}
	m := &minimiser{d: d, until: time.Now().Add(120 * time.Second)}
	f := m.handle(bad)
	if f == nil {
		// The failure has nothing to do with this property: go on without it.
		d.ignore = append(d.ignore, bad.viol.Class)
		fmt.Printf("%s: set aside failures of class %s, which happen without any interleaving, fault or history: %s\n", d.prop, bad.viol.Class, firstLine(bad.viol.Detail))
		if len(d.ignore) > 40 {
			return nil
		}
		left := d.budget - time.Since(start)
		if left < 5*time.Second {
			return nil
		}
		saved := d.budget
		d.budget = left
		d.st.runs, d.st.procs, d.st.cross = 0, 0, 0
		d.st.counts, d.st.probes = map[string]int{}, map[string]int{}
		r := d.explore(p, runs)
		d.budget = saved
		return r
	}
	return f
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// recheck runs some processes once more and compares everything they did.
func (d *driver) recheck(p plan) {
	jobs := d.jobs(p, 400)
	n := min(len(jobs), 16)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs[:n] {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := &batchIn{Prop: d.prop, Seeds: j.seeds, Ignored: d.ignore, Env: envOf(j.i)}
			a, err1 := spawnWorker("batch", in, workerLimit)
			b, err2 := spawnWorker("batch", in, workerLimit)
			mu.Lock()
			defer mu.Unlock()
			if err1 != nil || err2 != nil {
				d.st.mismatch++
				return
			}
			for i := range a.Results {
				d.st.recheck++
				if i >= len(b.Results) || a.Results[i].Digest != b.Results[i].Digest {
					d.st.mismatch++
				}
			}
		}()
	}
	wg.Wait()
	if d.st.mismatch > 0 {
		fmt.Printf("WARNING: %d of %d repeated runs differed: something in the library is outside the simulator's control\n", d.st.mismatch, d.st.recheck)
	}
}

func (d *driver) evidence(p plan, f *found) {
	wall := time.Since(d.began).Seconds()
	st := &d.st
	samples := []any{}
	kept := 0
	for i := 0; i < 40 && kept < 3; i++ {
		c := genCase(d.prop, runSeed(d.seed, d.prop, i))
		out, err := spawnWorker("batch", &batchIn{Prop: d.prop, Cases: []*Case{c}, Trace: true, Entries: true, Ignored: d.ignore}, workerLimit)
		if err != nil || len(out.Results) != 1 {
			continue
		}
		r := out.Results[0]
		if len(r.Entries) == 0 || len(r.Trace) > 40 {
			continue
		}
		samples = append(samples, map[string]any{"seed": c.Seed, "decisions": r.Entries, "calls": r.Trace})
		kept++
	}
	cov := map[string]any{
		"evaluations":           st.runs,
		"distinct_nontrivial":   len(st.nontrivial),
		"rule":                  "one evaluation is one simulated run, generated from a seed: its own keys, messages, sizes, mix of calls, threads or parties, preemption points and faults. It is non-trivial if control passed between threads inside a call at least once or at least one fault was injected; distinct by the digest of everything that happened (schedule, faults, results).",
		"samples":               samples,
		"library_calls":         st.calls,
		"processes":             st.procs,
		"scheduling_steps":      st.steps,
		"switches_inside_calls": st.switches,
		"distinct_interleavings": map[string]any{
			"count":   len(st.scheds),
			"measure": "distinct sequences of (kind of call, yield site, kind of call switched to)",
		},
		"distinct_histories":             len(st.digests),
		"yield_sites":                    len(sites),
		"yield_sites_preempted_at":       len(st.cut),
		"runs_repeated_across_processes": st.cross,
		"runs_per_hour":                  int(float64(st.runs+st.cross) / wall * 3600),
		"seeds_per_hour":                 int(float64(st.runs) / wall * 3600),
		"simulated_seconds":              float64(st.simNs) / 1e9,
		"faults_injected":                st.counts,
		"probes":                         st.probes,
		"determinism_recheck":            map[string]int{"runs": st.recheck, "differences": st.mismatch},
		"real_components":                "the whole of /repo, compiled from its working tree through an overlay that inserts yields (" + fmt.Sprint(sitesInfo.Files, " files, ", len(sites), " yields") + "), its dependencies, AES, SHA-3",
		"stubbed_components":             stubs(d.prop),
		"set_aside":                      d.ignore,
	}
	if coarseBuild {
		cov["coarse"] = sitesInfo.Coarse
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": cov, "wall_s": wall,
		"assumptions": []string{
			"a switch between threads happens only at statements of the library, at locks and inside randomness sources; within a statement execution is sequentially consistent",
			"the reference model (an independent implementation of the signature scheme and message format on the Go standard library's curve arithmetic) is right",
		},
		"violations": map[bool]int{true: 1}[f != nil],
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	dir := filepath.Join(d.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, d.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func stubs(prop string) string {
	s := "the randomness sources (including crypto/rand.Reader), thread scheduling, package sync"
	switch prop {
	case "C06", "C07", "C08":
		s += ", the channel and its clock"
	case "C09":
		s += ", the disk; restarts are real processes"
	case "C12":
		s += ", the clock"
	}
	return s
}

func sortedInts(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}
