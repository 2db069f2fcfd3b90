// Command simcheck runs the library under a simulator that decides every interleaving, every random byte and every
// fault, and checks the properties of /verif/properties.jsonl on what happens.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"verif.local/sim/simrt"
)

// Site is a yield that the instrumenter put into the library.
type Site struct {
	File   string `json:"file"`
	Line   int    `json:"line"`
	Func   string `json:"func"`
	Ord    int    `json:"ord"`
	Hot    bool   `json:"hot"`
	Shared bool   `json:"shared"`
	Entry  bool   `json:"entry"`
}

var (
	sites     []Site
	sitesInfo struct {
		Coarse string `json:"coarse"`
		Clock  bool   `json:"clock"`
		Sites  []Site `json:"sites"`
		Files  int    `json:"files"`
	}
	buildDir string
	selfPath string
	realOut  *os.File
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(2)
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simcheck run|replay|batch|incarnation|profile|selftest ...")
	}
	var err error
	if selfPath, err = os.Executable(); err != nil {
		fatal("%v", err)
	}
	buildDir = filepath.Dir(selfPath)
	if err := readJSON(filepath.Join(buildDir, "sites.json"), &sitesInfo); err != nil {
		fatal("%v", err)
	}
	sites, coarseBuild = sitesInfo.Sites, sitesInfo.Coarse != ""
	simrt.Default = defaultSource
	switch os.Args[1] {
	case "batch", "incarnation", "profile":
		worker()
	case "run":
		drive(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "selftest":
		selftest(os.Args[2:])
	case "gen":
		// For inspection: print a generated case.
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		b, _ := json.MarshalIndent(genCase(os.Args[2], seed), "", " ")
		fmt.Println(string(b))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

// batchIn is the work of one process.
type batchIn struct {
	Prop    string   `json:"prop"`
	Seeds   []uint64 `json:"seeds,omitempty"` // runs to generate
	Env     uint64   `json:"env,omitempty"`   // the circumstances of the process
	Again   uint64   `json:"again,omitempty"` // take other decisions than the runs' own
	Cases   []*Case  `json:"cases,omitempty"` // or runs as given
	Trace   bool     `json:"trace,omitempty"`
	Entries bool     `json:"entries,omitempty"`
	Ignored []string `json:"ignored,omitempty"`
	Kind    string   `json:"kind,omitempty"` // profile: only calls of this kind
}

type batchOut struct {
	Results []*CaseResult       `json:"results"`
	Profile map[string][]uint32 `json:"profile,omitempty"`
}

// worker executes runs in this process, on one OS thread.
func worker() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	realOut = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the library prints
	}
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal("%v", err)
	}
	var out any
	switch os.Args[1] {
	case "incarnation":
		x := &incIn{}
		if err := json.Unmarshal(in, x); err != nil {
			fatal("%v", err)
		}
		wantTrace = os.Getenv("SIM_TRACE") != ""
		loadProfiles(x.Case.Prop)
		out = runInc(x)
	case "batch":
		x := &batchIn{}
		if err := json.Unmarshal(in, x); err != nil {
			fatal("%v", err)
		}
		out = runBatch(x)
	case "profile":
		x := &batchIn{}
		if err := json.Unmarshal(in, x); err != nil {
			fatal("%v", err)
		}
		out = runProfile(x)
	}
	b, err := json.Marshal(out)
	if err != nil {
		fatal("%v", err)
	}
	if _, err := realOut.Write(b); err != nil {
		fatal("%v", err)
	}
}

var genMu sync.Mutex

func casesOf(x *batchIn) []*Case {
	if x.Cases != nil {
		return x.Cases
	}
	genMu.Lock() // the reference model is for one thread
	defer genMu.Unlock()
	var l []*Case
	for _, s := range x.Seeds {
		c := genCase(x.Prop, s)
		c.Env = x.Env
		if x.Again != 0 {
			c.Seed = hash64(x.Again, fmt.Sprint(s)) | 1
		}
		l = append(l, c)
	}
	return l
}

func loadProfiles(prop string) {
	var pr struct {
		Profiles map[string][]siteHits `json:"profiles"`
	}
	if err := readJSON(filepath.Join(buildDir, "profiles-"+prop+".json"), &pr); err == nil {
		profiles = pr.Profiles
	}
}

func runBatch(x *batchIn) *batchOut {
	loadProfiles(x.Prop)
	for _, c := range x.Ignored {
		ignored[c] = true
	}
	wantTrace, wantEntries = x.Trace, x.Entries
	if wantTrace {
		os.Setenv("SIM_TRACE", "1")
	}
	out := &batchOut{}
	for _, c := range casesOf(x) {
		r := runCase(c)
		out.Results = append(out.Results, r)
		if r.Viol != nil {
			break
		}
	}
	return out
}

// runProfile records which yields each kind of call passes, from a cold process on.
func runProfile(x *batchIn) *batchOut {
	curProf = map[string][]uint32{}
	inProcess = true
	for _, s := range x.Seeds {
		c := genCase(x.Prop, s)
		c.Cfg.FaultP, c.Cfg.Hang, c.Cfg.HangMs = 0, nil, nil
		if x.Kind != "" {
			for _, t := range append(c.Threads, c.Post) {
				for _, op := range t {
					op.K = x.Kind
				}
			}
		}
		runCase(c)
	}
	return &batchOut{Profile: curProf}
}

// libraryDeath describes the death of a process inside the library, or returns "".
func libraryDeath(stderr string) string {
	if !strings.Contains(stderr, "fatal error:") && !strings.Contains(stderr, "panic:") && !strings.Contains(stderr, "stack overflow") {
		return ""
	}
	lines := strings.Split(stderr, "\n")
	var out []string
	lib := false
	for _, l := range lines {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			out = append(out, l)
		}
		if strings.Contains(l, "go-xpx-crypto.") {
			lib = true
			if len(out) < 12 {
				out = append(out, strings.TrimSpace(l))
			}
		}
	}
	if !lib {
		return ""
	}
	return "the process dies: " + strings.Join(out, "\n")
}
