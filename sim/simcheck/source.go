package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"

	"verif.local/sim/ref"
)

// Faults of a randomness source.
const (
	fNone    = iota
	fShort   // fewer bytes than asked for
	fZero    // no bytes and no error
	fErr     // an error, no bytes
	fErrPart // some bytes and an error
	fEOF     // end of stream
	fEOFPart // some bytes and end of stream
	fUEOF    // unexpected end of stream
	fFullErr // all bytes and an error
	fFullEOF // all bytes and end of stream
	fStall   // a delay, then all bytes
	fPanic   // the source panics
	fPanPart // the source panics after filling a part of the buffer
	fDead    // an error, now and for ever
	fDeadEOF // end of stream, now and for ever
	fIdle    // no bytes and no error, many times in a row
	nFaults
)

var faultName = [...]string{"none", "short", "zero", "error", "partial+error", "eof", "partial+eof", "unexpected-eof", "full+error", "full+eof", "stall", "panic", "partial+panic", "dead", "dead-eof", "idle"}

var errSource = errors.New("simulated randomness failure")

// passing is an error that says of itself that it will pass.
type passing struct{ what string }

func (p passing) Error() string   { return p.what }
func (p passing) Timeout() bool   { return true }
func (p passing) Temporary() bool { return true }

// manifold is an error that cannot be compared with ==.
type manifold []error

func (m manifold) Error() string { return fmt.Sprint(len(m), " failures of the source") }

var sourceErrors = []error{
	passing{"resource temporarily unavailable"},
	passing{"i/o timeout"},
	syscall.EINTR, syscall.EAGAIN, syscall.EIO,
	&fs.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.EINTR},
	&fs.PathError{Op: "read", Path: "/dev/hwrng", Err: fs.ErrClosed},
	os.ErrDeadlineExceeded, context.DeadlineExceeded, context.Canceled,
	io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrUnexpectedEOF,
	manifold{errSource, errSource},
	fmt.Errorf("source: %w", io.EOF),
}

// sourceErr is the error of one failing read: now what sources of other people return, now our own.
func (w *World) sourceErr(id string) error {
	if r := keyed(w.useed, "err/"+id); r.p(2, 3) {
		return sourceErrors[r.n(len(sourceErrors))]
	}
	return errSource
}

// srcPanic is what a panicking source panics with.
type srcPanic struct{ src, op string }

func (p srcPanic) String() string { return "simulated panic of source " + p.src }

// Source is a randomness source under the simulator's control.
type Source struct {
	w       *World
	name    string
	dead    error
	hung    bool
	hungAt  int // read number at which it hangs; 0: never
	hungFor int64
	reads   int
	total   int
	zeros   int
	idle    int // empty reads left
}

// manyIdle is the number of empty reads in a row after which a call may give up with an error.
const manyIdle = 8

// streamOf is the bytes the simulator has chosen for one call.
func (w *World) streamOf(op *Op) *ref.Stream {
	return ref.NewStream("op/"+op.ID, w.useed)
}

func (w *World) opBytes(op *Op, off, n int) []byte {
	b := w.streamOf(op).Next(off + n)
	if w.cfg.Content > 0 {
		if r := keyed(w.useed, "content/"+op.ID); r.p(w.cfg.Content, 100) {
			w.probes["degenerate_random_bytes"]++
			if lim := []int{16, 32, 48, 1 << 30, 1 << 30, 1 << 30}[r.n(6)]; lim < len(b) {
				degenerate(r, w.useed, b[:lim])
			} else {
				degenerate(r, w.useed, b)
			}
			return b[off:]
		}
	}
	// Some calls get bytes with leading or trailing zeros or ones; they stay unique.
	r := keyed(w.useed, "bias/"+op.ID)
	if r.p(1, 5) {
		k, v := r.in(1, 20), byte(0)
		if r.p(1, 4) {
			v = 0xff
		}
		at := 0
		if r.p(1, 3) {
			at = r.in(0, 40)
		}
		for i := at; i < at+k && i < len(b); i++ {
			b[i] = v
		}
	}
	return b[off : off+n]
}

// degenerate makes b what a source delivers that is far from random, or that repeats itself.
func degenerate(r *rng, seed uint64, b []byte) {
	switch r.n(6) {
	case 0, 1: // one value
		v := []byte{0, 0, 0, 0xff, 1, ' ', '0', byte(r.n(256))}[r.n(8)]
		for i := range b {
			b[i] = v
		}
	case 2, 3: // what other calls are given too
		copy(b, ref.NewStream(fmt.Sprint("again/", r.n(2)), seed).Next(len(b)))
	case 4: // periods
		n := []int{1, 2, 4, 8, 16, 16, 32}[r.n(7)]
		for i := n; i < len(b); i++ {
			b[i] = b[i-n]
		}
	case 5: // text
		for i := range b {
			b[i] = "0123456789abcdef\n "[int(b[i])%18]
		}
	}
}

// funcSource cannot be compared with ==, nor be a key of a map.
type funcSource struct{ read func([]byte) (int, error) }

func (f funcSource) Read(p []byte) (int, error) { return f.read(p) }

type listSource []*Source

func (l listSource) Read(p []byte) (int, error) { return l[0].Read(p) }

// byteSource can also be read byte by byte.
type byteSource struct{ *Source }

func (s byteSource) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		if n, err := s.Read(b[:]); n == 1 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// dressed is the source as the library gets it.
func (s *Source) dressed() io.Reader {
	if s.w == nil {
		return s
	}
	switch keyed(s.w.useed, "dress/"+s.name).n(8) {
	case 0:
		return funcSource{s.Read}
	case 1:
		return listSource{s}
	case 2:
		return byteSource{s}
	}
	return s
}

func (s *Source) Read(p []byte) (int, error) {
	w := s.w
	if w == nil {
		w = curWorld
	}
	if w == nil || w.cur == nil || w.cur.op == nil {
		for i := range p {
			p[i] = byte(0x5A + 29*i)
		}
		return len(p), nil
	}
	t := w.cur
	op := t.op
	if len(p) == 0 {
		return 0, nil
	}
	op.readNo++
	s.reads++
	if s.dead != nil {
		op.hard = true
		op.deadReads++
		op.faults = append(op.faults, "dead")
		if op.deadReads > 400 {
			panic(hangUp{fmt.Sprintf("source %s has failed for good, and the call has read it %d times since", s.name, op.deadReads)})
		}
		return 0, s.dead
	}
	if op.readNo > 100_000 || len(op.delivered) > 1<<15 {
		panic(hangUp{fmt.Sprintf("source %s has been read %d times, and has delivered %d bytes, without the call finishing", s.name, op.readNo, len(op.delivered))})
	}
	if s.idle > 0 {
		s.idle--
		if op.idle++; op.idle >= manyIdle {
			op.hard = true
		}
		return 0, nil
	}
	op.idle = 0
	if s.hungAt > 0 && s.reads >= s.hungAt && !s.hung {
		s.hung, s.hungAt = true, 0
		w.counts["stall-hung"]++
		if s.hungFor > 0 {
			w.after(s.hungFor, func() { s.hung = false })
		}
	}
	if s.hung {
		op.stalls++
		t.waitUntil(func() bool { return !s.hung })
	}
	w.srcSwitch(t, "spre/")
	id := fmt.Sprintf("src/%s/%d", op.op.ID, op.readNo)
	v := w.ch.pick(id, func(v int64) string {
		return fmt.Sprintf("source %s: %s (%d)", s.name, faultName[v&0xff], v>>8)
	}, func(r *rng) int64 {
		k := fNone
		if w.cfg.Pieces > 0 {
			k = fShort
		}
		if w.cfg.FaultP > 0 && r.p(w.cfg.FaultP, 100) && len(w.cfg.Faults) > 0 {
			k = w.cfg.Faults[r.n(len(w.cfg.Faults))]
		}
		par := 0
		switch k {
		case fShort:
			par = r.in(1, len(p))
			if w.cfg.Pieces > 0 {
				par = r.in(1, w.cfg.Pieces)
			}
		case fErrPart, fEOFPart, fPanPart:
			par = r.in(0, len(p)-1)
			switch r.n(4) {
			case 0:
				par = len(p) - 1
			case 1:
				par = 1
			}
		case fStall:
			// Milliseconds: mostly less than a second, sometimes minutes or hours.
			par = r.in(1, []int{1000, 1000, 1000, 20_000, 300_000, 20_000_000}[r.n(6)])
		case fIdle:
			par = []int{5, 12, 20, 40, 70, 120, 300}[r.n(7)]
		}
		return int64(k) | int64(par)<<8
	})
	kind, par := int(v&0xff), int(v>>8)
	n, err := len(p), error(nil)
	var boom any
	if kind != fNone {
		w.counts["source-"+faultName[kind]]++
		op.faults = append(op.faults, faultName[kind])
	}
	if kind != fZero {
		s.zeros = 0
	}
	switch kind {
	case fShort:
		n = par
	case fZero:
		if s.zeros++; s.zeros <= 3 {
			n = 0
		}
	case fErr:
		n, err = 0, w.sourceErr(id)
	case fErrPart:
		n, err = par, w.sourceErr(id)
	case fEOF:
		n, err = 0, io.EOF
	case fEOFPart:
		n, err = par, io.EOF
	case fUEOF:
		n, err = 0, io.ErrUnexpectedEOF
	case fFullErr:
		err = w.sourceErr(id)
	case fFullEOF:
		err = io.EOF
	case fStall:
		op.stalls++
		t.sleep(int64(par) * 1_000_000)
	case fPanic:
		n, boom = 0, srcPanic{s.name, op.op.ID}
	case fPanPart:
		n, boom = par, srcPanic{s.name, op.op.ID}
	case fIdle:
		n, s.idle, op.idle = 0, par-1, 1
	case fDead:
		// Nothing here that would ask the caller to try again.
		err = []error{errSource, errSource, syscall.EIO, fs.ErrClosed, io.ErrClosedPipe, manifold{errSource}}[keyed(w.useed, "err/"+id).n(6)]
		n, s.dead = 0, err
	case fDeadEOF:
		n, err, s.dead = 0, io.EOF, io.EOF
	}
	if n > len(p) {
		n = len(p)
	}
	b := w.opBytes(op.op, len(op.delivered), n)
	copy(p, b)
	if n < len(p) {
		// A reader may use all of p as scratch space.
		if r := keyed(w.useed, "scratch/"+s.name); r.p(1, 2) {
			w.probes["source_uses_rest_of_buffer"]++
			copy(p[n:], ref.NewStream("scratch/"+id, w.useed).Next(len(p)-n))
		}
	}
	op.delivered = append(op.delivered, b...)
	s.total += n
	if op.src != s {
		op.fromWrong += max(n, 1)
	}
	if n < len(p) && err == nil && boom == nil {
		w.probes["partial_read"]++
	}
	if boom != nil {
		op.panicked = true
		panic(boom)
	}
	if err != nil {
		op.hard = true
	}
	w.srcSwitch(t, "spost/")
	return n, err
}

// srcSwitch lets another thread run while the caller is inside the source.
func (w *World) srcSwitch(t *Thread, prefix string) {
	if w.coarse || w.cfg.SrcSw == 0 && !w.ch.replay {
		return
	}
	k := w.ch.seq(prefix + t.opID())
	if w.ch.pick(k, nil, func(r *rng) int64 {
		if r.p(w.cfg.SrcSw, 100) {
			return 1
		}
		return 0
	}) != 0 {
		w.probes["switch_inside_source"]++
		w.preempt(t, -1, 0)
	}
}
