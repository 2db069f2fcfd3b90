package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// Replay is a violation as it is kept in a file: the processes, and in each of them the runs with every decision that
// was not the benign one.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Verified  bool       `json:"verified"` // replaying the file gave the same violation
	Note      string     `json:"note,omitempty"`
	Ignored   []string   `json:"ignored,omitempty"`
	Procs     []proc     `json:"procs"`
	Trace     []string   `json:"trace,omitempty"`
}

type minimiser struct {
	d     *driver
	until time.Time
	tries int
}

func (m *minimiser) late() bool { return time.Now().After(m.until) }

// shows reports whether the processes show a violation of the class.
func (m *minimiser) shows(procs []proc, class string) *Violation {
	m.tries++
	v, _, err := observe(m.d.prop, procs, m.d.ignore)
	if err == nil && v != nil && v.Class == class {
		return v
	}
	return nil
}

func cloneCase(c *Case) *Case {
	b, _ := json.Marshal(c)
	x := &Case{}
	if err := json.Unmarshal(b, x); err != nil {
		fatal("%v", err)
	}
	return x
}

func cloneProcs(ps []proc) []proc {
	var l []proc
	for _, p := range ps {
		var q proc
		for _, c := range p {
			q = append(q, cloneCase(c))
		}
		l = append(l, q)
	}
	return l
}

// pin turns every case into one that replays its decisions.
func (m *minimiser) pin(procs []proc) []proc {
	var l []proc
	for _, p := range procs {
		out, err := spawnWorker("batch", &batchIn{Prop: m.d.prop, Cases: p, Entries: true, Ignored: m.d.ignore}, workerLimit)
		if err != nil {
			// A process that dies tells no decisions; keep the generated runs.
			l = append(l, p)
			continue
		}
		var q proc
		for i, r := range out.Results {
			c := cloneCase(p[i])
			c.Replay, c.Entries = true, r.Entries
			q = append(q, c)
		}
		l = append(l, q)
	}
	return l
}

// handle minimises and records a violation. It returns nil if the violation is none of this property.
func (m *minimiser) handle(b *batchDone) *found {
	v := b.viol
	procs := b.proc
	// Leave out the processes and runs that come after the violation.
	if b.outs != nil && v.Class != "process-death" {
		for i, o := range b.outs {
			if n := len(o.Results); n > 0 && o.Results[n-1].Viol != nil {
				procs = []proc{b.proc[i][:n]}
				break
			}
		}
	}
	procs = cloneProcs(procs)
	again := m.shows(procs, v.Class)
	verified := again != nil
	for i := 0; i < 4 && again == nil; i++ {
		again = m.shows(procs, v.Class)
	}
	if again == nil {
		return m.record(&Replay{Property: m.d.prop, Violation: v, Note: "the violation was observed once and did not recur: something in the library is outside the simulator's control", Procs: procs})
	}
	// Take away the history, if that is possible.
	procs = m.dropHistory(procs, v.Class)
	pinned := m.pin(procs)
	if m.shows(pinned, v.Class) != nil {
		procs = pinned
	}
	if m.intrinsic(procs, v) {
		return nil
	}
	procs = m.shrink(procs, v.Class)
	rep := &Replay{Property: m.d.prop, Procs: procs, Ignored: m.d.ignore}
	for i := 0; i < 3 && rep.Violation == nil; i++ {
		rep.Violation = m.shows(procs, v.Class)
	}
	rep.Verified = verified && rep.Violation != nil
	if rep.Violation == nil {
		rep.Violation = v
		rep.Note = "the violation recurs only sometimes: something in the library is outside the simulator's control"
	}
	return m.record(rep)
}

func (m *minimiser) dropHistory(procs []proc, class string) []proc {
	if len(procs) == 1 {
		p := procs[0]
		last := []proc{{p[len(p)-1]}}
		if len(p) > 1 && m.shows(last, class) != nil {
			return last
		}
	}
	for i := range procs {
		procs[i] = ddmin(procs[i], func(q proc) bool {
			if m.late() || len(q) == 0 && len(procs) == 1 {
				return false
			}
			x := append([]proc{}, procs...)
			x[i] = q
			return m.shows(x, class) != nil
		})
	}
	var l []proc
	for _, p := range procs {
		if len(p) > 0 {
			l = append(l, p)
		}
	}
	if len(l) != len(procs) && m.shows(l, class) != nil {
		return l
	}
	return procs
}

// ddmin removes as many elements as it can while ok still holds.
func ddmin[T any](l []T, ok func([]T) bool) []T {
	n := 2
	for len(l) > 0 {
		size := (len(l) + n - 1) / n
		removed := false
		for i := 0; i < len(l); i += size {
			x := append(append([]T{}, l[:i]...), l[min(i+size, len(l)):]...)
			if ok(x) {
				l = x
				removed = true
				n = max(n-1, 2)
				break
			}
		}
		if !removed {
			if size <= 1 {
				break
			}
			n = min(2*n, len(l))
		}
	}
	return l
}

// influence lists the properties that speak only about what one thing does to another.
var influence = map[string]bool{"C10": true, "C11": true, "C12": true}

// intrinsic reports whether the call that failed fails in the same way when it is made alone, without any
// interleaving, fault or history, in which case the failure says nothing about how calls influence each other.
func (m *minimiser) intrinsic(procs []proc, v *Violation) bool {
	if !influence[m.d.prop] || strings.HasPrefix(v.Class, "fail") || len(procs) != 1 {
		return false
	}
	switch {
	case strings.HasSuffix(v.Class, ":wrong-result"), strings.HasSuffix(v.Class, ":accepted"), strings.HasSuffix(v.Class, ":spurious-error"), strings.HasSuffix(v.Class, ":panic"), strings.HasSuffix(v.Class, ":wrong-amount"), strings.HasSuffix(v.Class, ":hang"), strings.HasSuffix(v.Class, ":result-with-error"):
	default:
		return false
	}
	p := procs[0]
	c := cloneCase(p[len(p)-1])
	c.Replay, c.Entries = true, nil
	c.Cfg.Hang, c.Cfg.HangMs = nil, nil
	var keep []*Op
	all := append(append([][]*Op{}, c.Threads...), c.Post)
	for _, t := range all {
		for _, op := range t {
			if op.ID == v.Op {
				keep = append(keep, op)
			}
		}
	}
	if len(keep) != 1 {
		return false
	}
	if keep[0].K == "decof" { // needs the call that encrypts
		for _, t := range all {
			for _, op := range t {
				if op.ID == fmt.Sprintf("%d.%d", keep[0].A, keep[0].B) && op.K == "enc" {
					keep = append([]*Op{op}, keep...)
				}
			}
		}
	}
	c.Threads, c.Post = [][]*Op{keep}, nil
	// Judge the call as it is: the property's own restriction to influenced calls does not apply.
	x := *m.d
	x.prop = m.d.prop
	c.Bare = true
	return m.shows([]proc{{c}}, v.Class) != nil
}

// shrink removes decisions, calls, messages and threads.
func (m *minimiser) shrink(procs []proc, class string) []proc {
	cur := procs
	try := func(edit func(ps []proc)) bool {
		if m.late() {
			return false
		}
		x := cloneProcs(cur)
		edit(x)
		if m.shows(x, class) != nil {
			cur = x
			return true
		}
		return false
	}
	for round := 0; round < 2; round++ {
		for pi := range cur {
			for ci := len(cur[pi]) - 1; ci >= 0; ci-- {
				// Threads, then calls.
				for t := len(cur[pi][ci].Threads) - 1; t >= 0; t-- {
					try(func(ps []proc) { ps[pi][ci].Threads[t] = []*Op{} })
					keep := ddmin(cur[pi][ci].Threads[t], func(ops []*Op) bool {
						return try(func(ps []proc) { ps[pi][ci].Threads[t] = ops })
					})
					_ = keep
				}
				ddmin(cur[pi][ci].Post, func(ops []*Op) bool { return try(func(ps []proc) { ps[pi][ci].Post = ops }) })
				if n := cur[pi][ci].Net; n != nil {
					ddmin(n.Msgs, func(l []*NetMsg) bool { return try(func(ps []proc) { ps[pi][ci].Net.Msgs = l }) })
				}
				if dk := cur[pi][ci].Disk; dk != nil {
					for len(cur[pi][ci].Disk.Incs) > 1 && try(func(ps []proc) {
						ps[pi][ci].Disk.Incs = ps[pi][ci].Disk.Incs[:len(ps[pi][ci].Disk.Incs)-1]
					}) {
					}
					for len(cur[pi][ci].Disk.Also) > 0 && try(func(ps []proc) {
						ps[pi][ci].Disk.Also = ps[pi][ci].Disk.Also[:len(ps[pi][ci].Disk.Also)-1]
					}) {
					}
					for i := range cur[pi][ci].Disk.Incs {
						ddmin(cur[pi][ci].Disk.Incs[i].Steps, func(l []*Op) bool {
							return try(func(ps []proc) { ps[pi][ci].Disk.Incs[i].Steps = l })
						})
					}
				}
				if cur[pi][ci].Replay {
					ddmin(cur[pi][ci].Entries, func(es []Entry) bool { return try(func(ps []proc) { ps[pi][ci].Entries = es }) })
				}
			}
		}
		if round == 0 {
			// Smaller messages.
			for pi := range cur {
				for ci := range cur[pi] {
					if cur[pi][ci].Cfg.MaxLen > 300 {
						try(func(ps []proc) { ps[pi][ci].Cfg.MaxLen = 300 })
					}
				}
			}
		}
	}
	return cur
}

func (m *minimiser) record(rep *Replay) *found {
	// Once more, to write down what happens.
	for i, p := range rep.Procs {
		out, err := spawnWorker("batch", &batchIn{Prop: rep.Property, Cases: p, Trace: true, Entries: true, Ignored: rep.Ignored}, workerLimit)
		if err != nil {
			continue
		}
		for j, r := range out.Results {
			for _, l := range r.Trace {
				if len(l) > 600 {
					l = l[:600] + "..."
				}
				rep.Trace = append(rep.Trace, fmt.Sprintf("process %d run %d: %s", i+1, j+1, l))
			}
			// Put the notes on the decisions.
			if p[j].Replay && len(r.Entries) > 0 {
				notes := map[string]string{}
				for _, e := range r.Entries {
					notes[e.K] = e.N
				}
				for k := range p[j].Entries {
					p[j].Entries[k].N = notes[p[j].Entries[k].K]
				}
			}
		}
	}
	if len(rep.Trace) > 400 {
		rep.Trace = rep.Trace[len(rep.Trace)-400:]
	}
	dir := filepath.Join(m.d.verif, ".build", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", rep.Property, hash64(m.d.seed, rep.Violation.Class+rep.Violation.Detail)))
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	n, e := 0, 0
	for _, p := range rep.Procs {
		for _, c := range p {
			for _, t := range append(c.Threads, c.Post) {
				n += len(t)
			}
			e += len(c.Entries)
		}
	}
	fmt.Printf("%s violated (%s): %s\n", rep.Property, rep.Violation.Class, rep.Violation.Detail)
	fmt.Printf("minimised with %d executions to %d processes, %d calls, %d decisions; replaying the file gives the same violation: %v\n", m.tries, len(rep.Procs), n, e, rep.Verified)
	if rep.Note != "" {
		fmt.Println(rep.Note)
	}
	return &found{rep.Violation, path}
}

// replay executes a replay file.
func replay(args []string) {
	if len(args) != 1 {
		fatal("usage: simcheck replay FILE")
	}
	rep := &Replay{}
	if err := readJSON(args[0], rep); err != nil {
		fatal("%v", err)
	}
	v, _, err := observe(rep.Property, rep.Procs, rep.Ignored)
	if err != nil {
		fatal("%v", err)
	}
	if v == nil {
		fmt.Printf("%s: the file shows no violation on this tree\n", rep.Property)
		return
	}
	same := v.Class == rep.Violation.Class && v.Detail == rep.Violation.Detail
	fmt.Printf("%s violated (%s): %s\nidentical to the recorded violation: %v\n", rep.Property, v.Class, v.Detail, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, args[0])
	os.Exit(1)
}
