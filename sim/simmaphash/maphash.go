// Package simmaphash replaces package hash/maphash inside the instrumented library: the seeds that a process draws for
// its hash tables follow from the circumstances of the run, so that a run can be repeated.
package simmaphash

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"

	"verif.local/sim/simrt"
)

// Seed is a seed; the zero one is not valid.
type Seed struct{ s uint64 }

var made uint64

// MakeSeed gives a new seed.
func MakeSeed() Seed {
	made++
	s := (made + simrt.Env<<32) * 0x9E3779B97F4A7C15
	return Seed{s ^ s>>31 | 1}
}

// Bytes is the hash of b.
func Bytes(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := fnv.New64a()
	var s [8]byte
	binary.LittleEndian.PutUint64(s[:], seed.s)
	h.Write(s[:])
	h.Write(b)
	x := h.Sum64() ^ seed.s
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	return x ^ x>>32
}

// String is the hash of s.
func String(seed Seed, s string) uint64 { return Bytes(seed, []byte(s)) }

// Comparable is the hash of v.
func Comparable[T comparable](seed Seed, v T) uint64 {
	return String(seed, fmt.Sprintf("%T %#v", v, v))
}

// WriteComparable adds v to h.
func WriteComparable[T comparable](h *Hash, x T) { h.WriteString(fmt.Sprintf("%T %#v", x, x)) }

// Hash is a hash being computed.
type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) start() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}

func (h *Hash) Write(b []byte) (int, error) {
	h.start()
	h.b = append(h.b, b...)
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *Hash) WriteByte(b byte) error {
	h.Write([]byte{b})
	return nil
}

func (h *Hash) Seed() Seed {
	h.start()
	return h.seed
}

func (h *Hash) SetSeed(seed Seed) {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h.seed, h.b = seed, nil
}

func (h *Hash) Reset() {
	h.start()
	h.b = nil
}

func (h *Hash) Sum64() uint64 {
	h.start()
	return Bytes(h.seed, h.b)
}

func (h *Hash) Sum(b []byte) []byte { return binary.BigEndian.AppendUint64(b, h.Sum64()) }
func (h *Hash) Size() int           { return 8 }
func (h *Hash) BlockSize() int      { return 128 }
