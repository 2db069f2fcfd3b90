package main

import "fmt"

type weight struct {
	k string
	w int
}

var benignFaults = []int{fShort, fZero, fStall, fShort, fFullEOF}
var errFaults = []int{fShort, fZero, fErr, fErrPart, fEOF, fEOFPart, fUEOF, fFullErr, fFullEOF, fStall, fDead, fDeadEOF, fIdle}
var allFaults = append([]int{fPanic, fPanPart}, errFaults...)

// genCase makes run number seed of a property.
func genCase(prop string, seed uint64) *Case {
	r := keyed(seed, "case/"+prop)
	c := &Case{Prop: prop, Seed: seed, USeed: seed}
	switch prop {
	case "C06", "C07", "C08":
		genNet(c, r)
		return c
	case "C09":
		genDisk(c, r)
		return c
	}
	g := &c.Cfg
	// Swarm: every run has its own shape.
	g.Keys, g.Msgs, g.Srcs = r.in(1, 4), r.in(1, 5), r.in(0, 3)
	g.MaxLen = []int{300, 300, 300, 2000, 9000, 300000}[r.n(6)]
	if r.p(1, 200) {
		g.MaxLen = 2000000
	}
	g.Arms = []int{0, 1, 2, 2, 3, 4, 6, 10}[r.n(8)]
	g.ArmP = []int{30, 60, 100}[r.n(3)]
	g.LockP = []int{0, 0, 10, 50}[r.n(4)]
	g.Stay = []int{0, 30, 60, 90}[r.n(4)]
	g.SrcSw = []int{0, 20, 60}[r.n(3)]
	g.Lazy = r.p(3, 4)
	g.Own = []int{0, 0, 50, 100}[r.n(4)]
	g.Share = []int{0, 50, 90, 100, 100}[r.n(5)]
	c.NSig, c.NCT = r.in(1, 6), r.in(1, 4)
	c.Damage = true
	nt, lo, hi := r.in(2, 4), 1, 5
	if r.p(1, 12) {
		nt = 1
	}
	var mix []weight
	switch prop {
	case "C01":
		mix = []weight{{"sign", 30}, {"verify", 24}, {"derive", 10}, {"hash", 8}, {"iscanon", 4}, {"makecanon", 6}, {"sigser", 7}, {"keyser", 4}, {"point", 5}, {"kin", 5}, {"gen", 2}, {"dec", 1}}
		nt = r.in(2, 5)
	case "C02":
		mix = []weight{{"enc", 40}, {"dec", 34}, {"decof", 6}, {"sharedkey", 8}, {"peer", 7}, {"gen", 3}, {"sign", 3}, {"hash", 2}}
		g.Faults, g.FaultP = benignFaults, []int{0, 0, 20}[r.n(3)]
		hi = 3
	case "C03":
		mix = []weight{{"gen", 90}, {"sign", 3}, {"derive", 3}, {"hash", 2}}
		g.Arms = []int{0, 1, 2}[r.n(3)]
		g.Faults, g.FaultP = swarmFaults(r, allFaults), []int{0, 5, 20, 40}[r.n(4)]
		g.Pieces = []int{0, 0, 0, 1, 2, 7, 16, 31}[r.n(8)]
		nt, hi = r.in(1, 3), 6
	case "C04":
		mix = []weight{{"enc", 70}, {"decof", 18}, {"gen", 6}, {"sign", 2}}
		g.Arms = []int{0, 1, 2}[r.n(3)]
		g.Faults, g.FaultP = swarmFaults(r, allFaults), []int{0, 5, 20, 40}[r.n(4)]
		g.Pieces = []int{0, 0, 0, 1, 2, 7, 15, 16, 17, 31, 33}[r.n(11)]
		nt, hi = r.in(1, 3), 5
	case "C05":
		mix = []weight{{"gen", 55}, {"enc", 35}, {"sign", 3}, {"dec", 3}}
		g.Faults, g.FaultP = swarmFaults(r, errFaults), []int{0, 0, 10, 30}[r.n(4)]
		g.Pieces = []int{0, 0, 0, 1, 5, 16}[r.n(6)]
		g.SrcSw = []int{0, 30, 80}[r.n(3)]
	case "C10":
		mix = []weight{{"sign", 12}, {"verify", 8}, {"derive", 6}, {"hash", 6}, {"iscanon", 3}, {"makecanon", 9}, {"sigser", 12}, {"keyser", 6}, {"point", 4}, {"sharedkey", 4}, {"kin", 3}, {"peer", 3}, {"enc", 12}, {"dec", 12}, {"decof", 3}, {"gen", 10}, {"fail", 8}, {"scribble", 14}}
		g.Scrib = []int{0, 40, 100}[r.n(3)]
		hi = 8
		nt = r.in(1, 3)
	case "C11":
		mix = []weight{{"fail", 40}, {"sign", 10}, {"verify", 8}, {"derive", 4}, {"hash", 3}, {"makecanon", 2}, {"sigser", 3}, {"enc", 10}, {"dec", 10}, {"decof", 2}, {"gen", 10}, {"sharedkey", 3}, {"kin", 2}, {"peer", 2}}
		g.Faults, g.FaultP = swarmFaults(r, allFaults), []int{0, 10, 30}[r.n(3)]
		nt, hi = r.in(1, 3), 6
	case "C12":
		mix = []weight{{"enc", 18}, {"gen", 22}, {"sign", 14}, {"verify", 10}, {"derive", 8}, {"hash", 6}, {"dec", 12}, {"sigser", 3}, {"makecanon", 3}, {"sharedkey", 4}}
		nt = r.in(2, 5)
		g.Srcs = r.in(1, 3)
		any := false
		for i := 0; i <= g.Srcs; i++ {
			h, ms := 0, 0
			if r.p(1, 2) || i == g.Srcs && !any {
				h = []int{1, 1, 2, 3, 4}[r.n(5)]
				any = true
				if r.p(1, 3) {
					ms = r.in(1, 60000) * []int{1, 1, 1, 10, 600}[r.n(5)]
				}
			}
			g.Hang, g.HangMs = append(g.Hang, h), append(g.HangMs, ms)
		}
		g.Pieces = []int{0, 0, 0, 8, 16}[r.n(5)]
	case "C13":
		mix = []weight{{"sign", 100}}
		g.Keys, g.Msgs = r.in(2, 4), r.in(2, 8)
		hi = 8
		nt = r.in(1, 4)
	case "C14":
		mix = []weight{{"sign", 20}, {"verify", 10}, {"derive", 8}, {"hash", 4}, {"makecanon", 4}, {"sigser", 5}, {"keyser", 4}, {"point", 4}, {"enc", 16}, {"dec", 12}, {"gen", 16}, {"sharedkey", 4}, {"kin", 5}, {"peer", 4}}
		g.Faults, g.FaultP = []int{fShort, fZero, fStall}, []int{0, 20, 60}[r.n(3)]
		g.Odd = true
		g.Pieces = []int{0, 0, 0, 8, 16}[r.n(5)]
		hi = 4
	default:
		panic("no such property " + prop)
	}
	// Some runs are crowded.
	if r.p(1, 30) || prop == "C12" && r.p(1, 6) {
		nt = r.in(6, 20)
		lo, hi = 1, 2
		g.MaxLen = min(g.MaxLen, 2000)
		g.Stay = []int{0, 0, 30}[r.n(3)]
	}
	// A few are so crowded that limits on the number of callers are reached.
	throng := false
	if r.p(1, 2500) || prop == "C12" && r.p(1, 100) {
		throng = true
		nt = []int{33, 40, 65, 70, 101, 129, 140}[r.n(7)]
		lo, hi = 1, 1
		g.MaxLen, g.Pieces = min(g.MaxLen, 300), 0
		g.Arms, g.SrcSw = min(g.Arms, 1), min(g.SrcSw, 5)
		for i := range g.Hang {
			if g.Hang[i] = min(i, 1); r.p(2, 3) {
				g.HangMs[i] = 0
			}
		}
	}
	if prop == "C10" && r.p(1, 3) || r.p(1, 40) {
		mix = append(mix, weight{"gc", 3})
	}
	g.Jump = []int{0, 5, 30}[r.n(3)]
	switch prop {
	case "C02", "C03", "C04", "C10", "C11", "C12", "C14":
		g.Content = []int{0, 0, 0, 0, 30, 100}[r.n(6)]
	}
	// Drop some kinds from the mix.
	ws := make([]int, len(mix))
	for i, m := range mix {
		ws[i] = m.w
		if i > 0 && r.p(1, 4) {
			ws[i] = 0
		}
	}
	if throng && r.p(3, 4) {
		ws[r.n(min(2, len(ws)))] += 2000
	}
	// Focus: some runs use few objects, so that calls meet on them.
	focus := r.p(1, 2)
	one := func(tid, i int, id string) *Op {
		k := mix[r.weighted(ws)].k
		op := &Op{ID: id, K: k, A: r.n(16), B: r.n(16), M: r.n(16), V: r.n(64), S: r.n(8)}
		if focus {
			op.A, op.B, op.S = r.n(2), r.n(2), r.n(2)
		}
		switch k {
		case "decof":
			op.A = r.n(nt)
			if r.p(2, 3) {
				op.A = tid
			}
			op.B = r.n(max(i, 1))
		case "scribble":
			op.A = tid
		case "verify":
			// Mostly verify signatures against what they were issued for.
			op.B = r.n(c.NSig)
			if r.p(3, 4) {
				op.A, op.M = -1, -1
			}
		case "enc":
			if c.Cfg.MaxLen > 20000 && r.p(3, 4) {
				op.M = r.n(2)
			}
		}
		return op
	}
	// Some runs are long histories on the same objects.
	if r.p(1, 80) {
		lo, hi = 20, 60
		nt = min(nt, 3)
		g.Keys, g.Msgs = r.in(1, 8), r.in(2, 24)
		g.MaxLen = 300
	}
	// Some runs repeat a few calls over and over, on every thread.
	var few []*Op
	if r.p(1, 4) {
		for i := r.in(1, 4); i > 0; i-- {
			o := one(0, 0, "")
			if o.K == "decof" || o.K == "scribble" {
				continue
			}
			if r.p(2, 3) {
				o.V &^= 7
				o.V |= []int{0, 1, 1, 2, 3, 4, 5, 7}[r.n(8)]
			}
			if len(few) > 0 && r.p(2, 3) { // much like the one before
				x := *few[len(few)-1]
				switch r.n(4) {
				case 0:
					x.A = r.n(16)
				case 1:
					x.B = r.n(16)
				case 2:
					x.M = r.n(16)
				}
				if judged[prop] == nil || judged[prop][x.K] {
					o = &x
				}
			}
			few = append(few, o)
		}
		if len(few) > 0 {
			g.Share = []int{0, 100, 100, 100}[r.n(4)]
			g.Own = []int{0, 0, 0, 100}[r.n(4)]
			if nt < 3 {
				hi = max(hi, 4)
			}
			if prop == "C02" && r.p(1, 2) {
				g.Keys, c.NCT = r.in(1, 2), r.in(1, 3)
			}
		}
	}
	for t := 0; t < nt; t++ {
		var ops []*Op
		n := r.in(lo, hi)
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("%d.%d", t, i)
			if len(few) > 0 && !r.p(1, 8) {
				o := *few[r.n(len(few))]
				o.ID = id
				ops = append(ops, &o)
				continue
			}
			ops = append(ops, one(t, i, id))
		}
		c.Threads = append(c.Threads, ops)
	}
	// Many runs let several threads make the same kind of call at first.
	if r.p(1, 3) && nt > 1 {
		for t := 1; t < nt; t++ {
			o := *c.Threads[0][0]
			o.ID = c.Threads[t][0].ID
			if o.K == "decof" || o.K == "scribble" {
				continue
			}
			if r.p(1, 2) {
				o.M, o.A = r.n(16), r.n(16)
			}
			c.Threads[t][0] = &o
		}
	}
	// Some runs fail many times in a row with the same objects, and then do not.
	if r.p(1, 8) || prop == "C11" && r.p(1, 5) {
		t := r.n(nt)
		bad := &Op{K: "fail", A: r.n(16), B: r.n(16), M: r.n(16), S: r.n(8), V: []int{13, 14, 15, 15, 18, 5, 0, 2}[r.n(8)]}
		bad.V += nFail * r.n(12)
		good := *bad
		good.K = "dec"
		switch bad.V % nFail {
		case 18, 5:
			good.K = "verify"
			if good.B %= c.NSig; r.p(3, 4) {
				good.A, good.M = -1, -1
			}
		case 0:
			good.K = "sign"
		}
		if prop != "C11" && prop != "C10" {
			bad.K = good.K
			if good.K == "dec" || good.K == "verify" {
				bad.B = r.n(16)
			}
		}
		if judged[prop] == nil || judged[prop][good.K] {
			g.Share, g.Own = 100, 0
			n := []int{2, 3, 4, 5, 6, 8, 10, 11, 16, 20, 33, 65, 101}[r.n(13)]
			var l []*Op
			for i := 0; i <= n; i++ {
				o := *bad
				if i == n {
					o = good
				}
				o.ID = fmt.Sprintf("%d.%d", t, i)
				l = append(l, &o)
			}
			for _, o := range c.Threads[t] {
				if o.K != "decof" && o.K != "scribble" {
					o.ID = fmt.Sprintf("%d.%d", t, len(l))
					l = append(l, o)
				}
			}
			c.Threads[t] = l
		}
	}
	// A few runs make the same calls a great many times: numbers that count calls overflow, tables fill up.
	if r.p(1, 1500) {
		t := r.n(nt)
		n := []int{130, 260, 300, 520, 1030, 1030, 2100, 4200}[r.n(8)]
		if prop == "C10" {
			n = min(n, 1030)
		}
		g.MaxLen, g.FaultP, g.Pieces = 300, min(g.FaultP, 5), 0
		g.Arms = min(g.Arms, 2)
		var l, from []*Op
		for _, o := range c.Threads[t] {
			if o.K != "decof" && o.K != "scribble" && o.K != "gc" && len(from) < 3 {
				from = append(from, o)
			}
		}
		for i := 0; i < n && len(from) > 0; i++ {
			o := *from[r.n(len(from))]
			o.ID = fmt.Sprintf("%d.%d", t, i)
			l = append(l, &o)
		}
		if len(l) > 0 {
			c.Threads[t] = l
		}
	}
	np := r.n(4)
	if prop == "C04" || prop == "C11" || prop == "C03" {
		np = r.in(1, 5)
	}
	for i := 0; i < np; i++ {
		o := one(nt, i, fmt.Sprintf("%d.%d", nt, i))
		if (prop == "C04" || prop == "C02" || prop == "C03" || prop == "C11") && r.p(1, 2) {
			// Once more what was called before, with the same objects.
			t := c.Threads[r.n(nt)]
			x := *t[r.n(len(t))]
			x.ID = o.ID
			o = &x
		}
		if o.K == "decof" {
			o.A, o.B = r.n(nt), r.n(4)
		}
		c.Post = append(c.Post, o)
	}
	fixVerify(c)
	return c
}

// fixVerify aims a verification at the key and message that its signature is for.
func fixVerify(c *Case) {
	w := newWorld(newChooser(0, nil, true), &c.Cfg, c.USeed)
	var u *U
	fix := func(op *Op) {
		if op.K == "verify" && op.A == -1 {
			if u == nil {
				u = &U{w: w, cfg: &c.Cfg, seed: c.USeed, g: &guard{seed: c.USeed}}
				u.genKeys()
				u.genMsgs()
				r := keyed(c.USeed, "objs")
				for i := 0; i < c.NSig; i++ {
					u.addSig(r)
				}
			}
			s := u.sigs[idx(len(u.sigs), op.B)]
			op.A, op.M = s.key, s.msg
		}
	}
	for _, t := range c.Threads {
		for _, op := range t {
			fix(op)
		}
	}
	for _, op := range c.Post {
		fix(op)
	}
}

// swarmFaults enables a random subset of the kinds.
func swarmFaults(r *rng, all []int) []int {
	if r.p(1, 4) {
		return all
	}
	var l []int
	for _, f := range all {
		if r.p(1, 3) {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		l = []int{all[r.n(len(all))]}
	}
	return l
}
