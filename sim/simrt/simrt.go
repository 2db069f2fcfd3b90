// Package simrt is the seam between the instrumented library and the simulator. The instrumenter puts a call of Y
// before every statement of the library that can touch memory another goroutine could reach; simulated threads are
// coroutines of which exactly one runs at a time, so a call of Y is the only place where control can pass from one to
// another, and the simulator's plan decides at which of them it does.
package simrt

import (
	"crypto/rand"
	"io"
	"reflect"
)

// Spin bounds how often one site may be hit within one operation before control is passed on unconditionally, so that
// a thread spinning on another thread's progress does not hang the simulation.
const Spin = 1 << 21

// Thread is the part of a simulated thread that the library's yields see.
type Thread struct {
	Hits []uint32 // per site, within the current operation
	Arm  []uint32 // per site, the hit at which to call Slow
	Slow func(site int, hit uint32)
	// Park is called to block the thread on key until Wake(key).
	Park func(key any)
}

// Cur is the running simulated thread, nil outside the simulation.
var Cur *Thread

// Wake is called with the key of a resource that has become available.
var Wake func(key any)

// Y is the yield before a library statement.
func Y(site int) {
	if t := Cur; t != nil {
		h := t.Hits[site] + 1
		t.Hits[site] = h
		if h == t.Arm[site] {
			t.Slow(site, h)
		}
	}
}

// Loops counts the rounds of loops that touch local memory only.
var Loops int

// TooLong is called when a call has made so many of them that it will not end.
var TooLong func()

// L is put into every such loop.
func L() {
	if Loops++; Loops > 1<<30 && Cur != nil {
		Loops = 0
		TooLong()
	}
}

// Block suspends the current simulated thread until key is woken.
func Block(key any) {
	t := Cur
	if t == nil {
		outside()
		return
	}
	t.Park(key)
}

// Pending is the goroutines that the library started outside the simulation, while it was initialised; the first run
// takes them over.
var Pending []func()

// outside lets code outside the simulation wait: for what the pending goroutines do.
func outside() {
	if len(Pending) == 0 {
		panic("simrt: a library call blocks for ever outside the simulation")
	}
	f := Pending[0]
	Pending = Pending[1:]
	f()
}

// Awake makes the threads blocked on key runnable.
func Awake(key any) {
	if Wake != nil {
		Wake(key)
	}
}

// Spawn starts a simulated thread; set by the simulator.
var Spawn func(f func())

// Go runs f on a thread of its own.
func Go(f func()) {
	if Cur == nil || Spawn == nil {
		Pending = append(Pending, f)
		return
	}
	Spawn(f)
}

// GoCall is a go statement.
func GoCall(f any, args ...any) { goCall(f, args, false) }

// GoCallSlice is a go statement whose last argument is spread.
func GoCallSlice(f any, args ...any) { goCall(f, args, true) }

func goCall(f any, args []any, slice bool) {
	if g, ok := f.(func()); ok {
		Go(g)
		return
	}
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var t reflect.Type
		if n := fv.Type().NumIn(); fv.Type().IsVariadic() && i >= n-1 {
			t = fv.Type().In(n - 1)
			if !slice {
				t = t.Elem()
			}
		} else {
			t = fv.Type().In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(t)
		} else {
			in[i] = reflect.ValueOf(a).Convert(t)
		}
	}
	Go(func() {
		if slice {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// Maps being written, by address, and by which thread. Go ends a process in which accesses to a map overlap with a
// write of it, so overlapping ones are reported through Overlap.
var (
	writing = map[uintptr]*Thread{}
	Overlap func(what string)
	// Pause is a scheduling point in the middle of a map write; set by the simulator.
	Pause func()
)

func mapAddr(m any) uintptr {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

func mapCheck(m any, what string) uintptr {
	a := mapAddr(m)
	if t, ok := writing[a]; ok && a != 0 && t != Cur && Overlap != nil {
		Overlap(what)
	}
	return a
}

func MapRead(m any) {
	if Cur != nil {
		mapCheck(m, "concurrent map read and map write")
	}
}

func MapWrite(m any) {
	if Cur != nil {
		if a := mapCheck(m, "concurrent map writes"); a != 0 {
			writing[a] = Cur
			if Pause != nil {
				Pause()
			}
		}
	}
}

func MapDone(m any) {
	if Cur != nil {
		delete(writing, mapAddr(m))
	}
}

// ResetMaps forgets writes in progress.
func ResetMaps() { clear(writing) }

// Default stands in for the operating system's randomness. The library is initialised after this package, so even a
// source captured during its initialisation leads here.
var Default io.Reader

type osRandom struct{}

func (osRandom) Read(p []byte) (int, error) {
	if Default == nil {
		// Before the simulation starts: fixed bytes, never the real source.
		for i := range p {
			p[i] = byte(0xA5 + 31*i + 7*i*i*int(Env&0xff) + int(Env&0xff))
		}
		return len(p), nil
	}
	return Default.Read(p)
}

func init() { rand.Reader = osRandom{} }

// ResetMapsOf forgets the map writes that t left unfinished.
func ResetMapsOf(t *Thread) {
	for a, w := range writing {
		if w == t {
			delete(writing, a)
		}
	}
}
