package simrt

import (
	"context"
	"reflect"
	"time"
	"unsafe"
	"weak"
)

// Channels. The library's channels are real ones, except that an unbuffered one gets room for one value and a sender
// waits until its value has been taken. Every operation that would block waits in the simulator instead, and is
// carried out only when it cannot block.

// BlockUntil suspends the current simulated thread until ready reports true; set by the simulator.
var BlockUntil func(ready func() bool)

// Choose picks one of n alternatives; set by the simulator.
var Choose func(n int) int

type chanInfo struct {
	obj     weak.Pointer[byte] // tells a channel from an earlier one at the same address
	unbuf   bool
	closed  bool
	waiting int // receivers that wait
	sent    int
}

var (
	chans    = map[unsafe.Pointer]*chanInfo{}
	nextTidy = 4096
)

func known(v reflect.Value) *chanInfo {
	p := v.UnsafePointer()
	if c := chans[p]; c != nil && c.obj.Value() == (*byte)(p) {
		return c
	}
	return nil
}

func info(v reflect.Value) *chanInfo {
	if c := known(v); c != nil {
		return c
	}
	p := v.UnsafePointer()
	if len(chans) > nextTidy {
		for q, c := range chans {
			if c.obj.Value() == nil {
				delete(chans, q)
			}
		}
		nextTidy = 2*len(chans) + 4096
	}
	c := &chanInfo{obj: weak.Make((*byte)(p))}
	chans[p] = c
	return c
}

var lastCap int

// Room is the capacity that a channel made with capacity n gets.
func Room(n int) int {
	lastCap = n
	if n == 0 {
		return 1
	}
	return n
}

// Made registers the channel that was made after Room.
func Made(ch any) any {
	if lastCap == 0 {
		info(reflect.ValueOf(ch)).unbuf = true
	}
	return ch
}

func wait(ready func() bool) {
	for !ready() {
		if Cur == nil || BlockUntil == nil {
			outside()
			continue
		}
		BlockUntil(ready)
	}
}

func notEver() bool { return false }

func canRecv(v reflect.Value) bool {
	if v.IsNil() {
		return false
	}
	if v.Len() > 0 {
		return true
	}
	c := known(v)
	if v.Cap() == 0 && (c == nil || !c.closed) {
		// Not made by the library: that of a context, say, which is never sent to but may be closed by now.
		if x, ok := v.TryRecv(); x.IsValid() && !ok {
			return true
		}
	}
	return c != nil && c.closed
}

// canSend reports whether a send in a select can proceed.
func canSend(v reflect.Value) bool {
	if v.IsNil() {
		return false
	}
	if c := known(v); c != nil {
		if c.closed {
			return true
		}
		if c.unbuf {
			return v.Len() == 0 && c.waiting > 0
		}
	}
	return v.Len() < v.Cap()
}

func awaitRecv(v reflect.Value) {
	if canRecv(v) {
		return
	}
	if v.IsNil() {
		wait(notEver)
	}
	c := info(v)
	c.waiting++
	defer func() { c.waiting-- }()
	wait(func() bool { return canRecv(v) })
}

// Await waits until a receive from ch can proceed, and returns ch.
func Await(ch any) any {
	awaitRecv(reflect.ValueOf(ch))
	return ch
}

// More waits until ch holds a value or is closed, and reports whether it holds one.
func More(ch any) bool {
	v := reflect.ValueOf(ch)
	awaitRecv(v)
	return v.Len() > 0
}

// Send is a send statement.
func Send(ch, x any) {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		wait(notEver)
	}
	wait(func() bool {
		c := known(v)
		return v.Len() < v.Cap() || c != nil && c.closed
	})
	Put(ch, x)
}

// Put sends what can be sent, and waits for it to be taken if the channel is unbuffered.
func Put(ch, x any) {
	v := reflect.ValueOf(ch)
	e := v.Type().Elem()
	var xv reflect.Value
	if x == nil {
		xv = reflect.Zero(e)
	} else if xv = reflect.ValueOf(x); !xv.Type().AssignableTo(e) {
		xv = xv.Convert(e)
	}
	v.Send(xv)
	if c := known(v); c != nil && c.unbuf && Cur != nil {
		c.sent++
		mine := c.sent
		wait(func() bool { return v.Len() == 0 || c.sent != mine })
	}
}

// Close closes ch.
func Close(ch any) {
	v := reflect.ValueOf(ch)
	v.Close()
	info(v).closed = true
}

// Case is one case of a select statement.
type Case struct {
	ch   reflect.Value
	send bool
}

func R(ch any) Case { return Case{reflect.ValueOf(ch), false} }
func S(ch any) Case { return Case{reflect.ValueOf(ch), true} }

// Select waits until a case can proceed, if there is no default, and returns its index or -1.
func Select(def bool, cases ...Case) int {
	for {
		var ready []int
		for i, c := range cases {
			if c.send && canSend(c.ch) || !c.send && canRecv(c.ch) {
				ready = append(ready, i)
			}
		}
		switch {
		case len(ready) == 1 || len(ready) > 1 && (Cur == nil || Choose == nil):
			return ready[0]
		case len(ready) > 1:
			return ready[Choose(len(ready))]
		case def:
			return -1
		}
		var in []*chanInfo
		for _, c := range cases {
			if !c.send && !c.ch.IsNil() {
				x := info(c.ch)
				x.waiting++
				in = append(in, x)
			}
		}
		func() {
			defer func() {
				for _, x := range in {
					x.waiting--
				}
			}()
			wait(func() bool {
				for _, c := range cases {
					if c.send && canSend(c.ch) || !c.send && canRecv(c.ch) {
						return true
					}
				}
				return false
			})
		}()
	}
}

// Time. The library's clock is the simulator's.

var (
	// Clock is the simulated time in nanoseconds; SleepFor suspends the current thread; set by the simulator.
	Clock    func() int64
	SleepFor func(ns int64)
)

// epoch is when the process was started.
var epoch = func() time.Time {
	t := time.Date(2019, 1, 1, 0, 0, 0, 0, time.UTC)
	if Env != 0 {
		t = t.Add(time.Duration((Env * 0x9E3779B97F4A7C15) >> 7)) // up to four and a half years later
		t = t.In(time.FixedZone("", int(Env%27)*3600-12*3600))
	}
	return t
}()

func Now() time.Time {
	if Clock == nil {
		return epoch
	}
	return epoch.Add(time.Duration(Clock()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if Cur != nil && SleepFor != nil {
		SleepFor(int64(max(d, 1)))
	}
}

func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		c <- Now()
	})
	return c
}

// deadline is a context that expires by the simulator's clock.
type deadline struct {
	context.Context
	at   time.Time
	over *bool
}

func (d deadline) Deadline() (time.Time, bool) { return d.at, true }

func (d deadline) Err() error {
	if *d.over {
		return context.DeadlineExceeded
	}
	return d.Context.Err()
}

func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(parent)
	if earlier, ok := parent.Deadline(); ok && earlier.Before(at) {
		return c, cancel
	}
	over := false
	Go(func() {
		Sleep(at.Sub(Now()))
		if c.Err() == nil {
			over = true
			cancel()
		}
	})
	return deadline{c, at, &over}, cancel
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}
