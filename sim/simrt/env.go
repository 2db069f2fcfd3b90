package simrt

import (
	"fmt"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"
)

// Env names the circumstances of this process: number of processors, process id, host and the like. It is known before
// the library is initialised.
var Env = func() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("SIM_ENV"), 10, 64)
	return n
}()

// Rand1 and Rand2 stand in for the functions of the packages of pseudo-random numbers.
var (
	Rand1 = mrand.New(mrand.NewSource(int64(Env) + 1))
	Rand2 = mrand2.New(mrand2.NewPCG(Env, 7))
)

// Asked counts how often the library asked for its circumstances, by what it asked for.
var Asked = map[string]int{}

func pick(name string, l ...int) int {
	Asked[name]++
	if Env == 0 {
		return l[0]
	}
	h := Env*0x9E3779B97F4A7C15 + uint64(len(name))*0xBF58476D1CE4E5B9
	h ^= h >> 29
	h *= 0x94D049BB133111EB
	return l[(h>>33)%uint64(len(l))]
}

func GOMAXPROCS(int) int { return pick("GOMAXPROCS", 8, 1, 2, 3, 4, 6, 16, 64, 1) }
func NumCPU() int        { return pick("GOMAXPROCS", 8, 1, 2, 3, 4, 6, 16, 64, 1) }
func NumGoroutine() int  { return pick("NumGoroutine", 9, 1, 2, 5, 17, 100, 1000) }
func Getpid() int        { return pick("Getpid", 4711, 1, 2, 77, 4712, 32767, 65536, 4194303) }
func Getppid() int       { return pick("Getppid", 4710, 0, 1, 76, 4000) }

// ReadMemStats tells of a process that has a past of its own.
func ReadMemStats(m *runtime.MemStats) {
	gc := pick("MemStats", 0, 1, 17, 999, 4000, 70000) + Collections
	heap := uint64(pick("Memory", 1<<20, 2<<20, 64<<20, 900<<20, 6<<30))
	*m = runtime.MemStats{Alloc: heap, TotalAlloc: heap + uint64(gc)<<20, Sys: 2 * heap, Mallocs: heap / 32, Frees: heap / 64,
		HeapAlloc: heap, HeapSys: 2 * heap, HeapIdle: heap / 2, HeapInuse: heap, HeapObjects: heap / 64,
		NextGC: 2 * heap, LastGC: uint64(gc) << 30, PauseTotalNs: uint64(gc) * 50000, NumGC: uint32(gc), EnableGC: true}
}

func Hostname() (string, error) {
	switch n := pick("Hostname", 0, 1, 2, 3); n {
	case 0:
		return "localhost", nil
	case 3:
		return "", fmt.Errorf("simulated failure of hostname")
	default:
		return fmt.Sprint("node", n), nil
	}
}

func Getuid() int { return pick("Getuid", 0, 0, 1000, 33, 65534) }
func Getgid() int { return pick("Getuid", 0, 0, 1000, 33, 65534) }

func Geteuid() int { return Getuid() }
func Getegid() int { return Getgid() }

func Getwd() (string, error) {
	return []string{"/", "/root", "/home/user", "/var/lib/node"}[pick("Getwd", 0, 1, 2, 3)], nil
}

func Executable() (string, error) {
	return []string{"/usr/bin/node", "/tmp/go-build1/exe/main", "/app/wallet"}[pick("Executable", 0, 1, 2)], nil
}

// LookupEnv says that variables are unset in most processes.
func LookupEnv(key string) (string, bool) {
	switch pick("Getenv/"+key, 0, 0, 0, 1, 2, 3) {
	case 1:
		return "1", true
	case 2:
		return "true", true
	case 3:
		return "", true
	}
	return "", false
}

func Getenv(key string) string { v, _ := LookupEnv(key); return v }

// Gosched lets another thread run.
func Gosched() {
	if Cur != nil && SleepFor != nil {
		SleepFor(1)
	}
}

// Finalizers run on a thread of the simulation, in the order they were set in, after a collection that the simulator
// asks for.
var (
	finMu  sync.Mutex
	finSeq int
	finDue []dueFin
)

type dueFin struct {
	seq int
	run func()
}

func SetFinalizer(obj, f any) {
	if f == nil {
		runtime.SetFinalizer(obj, nil)
		return
	}
	finMu.Lock()
	finSeq++
	seq := finSeq
	finMu.Unlock()
	fv := reflect.ValueOf(f)
	wrap := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{fv.Type().In(0)}, nil, false), func(args []reflect.Value) []reflect.Value {
		finMu.Lock()
		defer finMu.Unlock()
		finDue = append(finDue, dueFin{seq, func() { fv.Call(args) }})
		return nil
	})
	runtime.SetFinalizer(obj, wrap.Interface())
}

// Collections counts them; pools are emptied by them.
var Collections int

// Collect reclaims what nobody refers to.
func Collect() {
	Collections++
	if finSeq == 0 {
		return // nothing to see of it
	}
	for i := 0; i < 2; i++ {
		runtime.GC()
		ran := make(chan bool)
		mark := new([4]uint64)
		runtime.SetFinalizer(mark, func(*[4]uint64) { close(ran) })
		mark = nil
		runtime.GC()
		select {
		case <-ran:
		case <-time.After(2 * time.Second):
		}
	}
	finMu.Lock()
	due := finDue
	finDue = nil
	finMu.Unlock()
	sort.Slice(due, func(i, j int) bool { return due[i].seq < due[j].seq })
	if len(due) > 0 {
		Go(func() {
			for _, d := range due {
				d.run()
			}
		})
	}
}

// Timers and tickers go by the simulator's clock. Each is a real one that never fires, so that it has a state.
type timing struct {
	gen  int
	fire func()
}

var (
	timers  = map[*time.Timer]*timing{}
	tickers = map[*time.Ticker]*timing{}
)

const never = 1 << 62

func (s *timing) start(t *time.Timer, d time.Duration) {
	s.gen++
	g := s.gen
	Go(func() {
		Sleep(d)
		if s.gen == g && t.Stop() {
			s.fire()
		}
	})
}

func NewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := time.NewTimer(never)
	t.C = c
	s := &timing{fire: func() {
		select {
		case c <- Now():
		default:
		}
	}}
	timers[t] = s
	s.start(t, d)
	return t
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := time.NewTimer(never)
	s := &timing{fire: f}
	timers[t] = s
	s.start(t, d)
	return t
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	s := timers[t]
	if s == nil {
		return t.Reset(d)
	}
	active := t.Reset(never)
	s.start(t, d)
	return active
}

func (s *timing) tick(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for a ticker")
	}
	s.gen++
	g := s.gen
	Go(func() {
		for {
			if Sleep(d); s.gen != g {
				return
			}
			s.fire()
		}
	})
}

func NewTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time, 1)
	t := time.NewTicker(never)
	t.C = c
	s := &timing{fire: func() {
		select {
		case c <- Now():
		default:
		}
	}}
	tickers[t] = s
	s.tick(d)
	return t
}

func TickerReset(t *time.Ticker, d time.Duration) {
	if s := tickers[t]; s != nil {
		s.tick(d)
		return
	}
	t.Reset(d)
}

func TickerStop(t *time.Ticker) {
	if s := tickers[t]; s != nil {
		s.gen++
	}
	t.Stop()
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Order decides the order in which a map of n keys is gone through; set by the simulator.
var Order func(n int) []int

// Keys lists the keys of map m.
func Keys(m any) []any {
	v := reflect.ValueOf(m)
	type key struct {
		v any
		s string
	}
	var l []key
	for _, k := range v.MapKeys() {
		l = append(l, key{k.Interface(), fmt.Sprintf("%020v", k.Interface())})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].s < l[j].s })
	out := make([]any, len(l))
	for i := range l {
		out[i] = l[i].v
	}
	if Cur != nil && Order != nil && len(l) > 1 {
		for i, j := range Order(len(l)) {
			out[i] = l[j].v
		}
	}
	return out
}
