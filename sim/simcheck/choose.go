package main

import (
	"fmt"
	"sort"
)

// rng is splitmix64.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// n is uniform in [0,k).
func (r *rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int(r.next() % uint64(k))
}

// p is true with probability a/b.
func (r *rng) p(a, b int) bool { return r.n(b) < a }

// in is uniform in [a,b].
func (r *rng) in(a, b int) int { return a + r.n(b-a+1) }

// weighted picks an index in proportion to its weight.
func (r *rng) weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t <= 0 {
		return 0
	}
	v := r.n(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.next()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

func hash64(seed uint64, key string) uint64 {
	h := uint64(14695981039346656037) ^ seed*0x9E3779B97F4A7C15
	for i := 0; i < len(key); i++ {
		h ^= uint64(key[i])
		h *= 1099511628211
	}
	r := rng{h ^ seed}
	return r.next()
}

func keyed(seed uint64, key string) *rng { return &rng{hash64(seed, key)} }

// Entry is one decision of the simulator that is not the benign one.
type Entry struct {
	K string `json:"k"`
	V int64  `json:"v"`
	N string `json:"note,omitempty"`
}

// chooser makes every decision of a run. When generating, the decision named key is drawn from a generator seeded
// with the run's seed and key alone, so that removing one decision leaves the others as they are; when replaying,
// exactly the listed decisions are taken and every other one is the benign one, 0.
type chooser struct {
	seed   uint64
	replay bool
	prefix string // of every key
	given  map[string]int64
	log    []Entry
	counts map[string]int
}

func newChooser(seed uint64, entries []Entry, replay bool) *chooser {
	c := &chooser{seed: seed, replay: replay, given: map[string]int64{}, counts: map[string]int{}}
	for _, e := range entries {
		c.given[e.K] = e.V
	}
	return c
}

func (c *chooser) pick(key string, note func(v int64) string, f func(r *rng) int64) int64 {
	var v int64
	key = c.prefix + key
	if c.replay {
		v = c.given[key]
	} else {
		v = f(keyed(c.seed, key))
	}
	if v != 0 {
		e := Entry{K: key, V: v}
		if note != nil {
			e.N = note(v)
		}
		c.log = append(c.log, e)
	}
	return v
}

// seq numbers the uses of a key prefix.
func (c *chooser) seq(prefix string) string {
	c.counts[prefix]++
	return fmt.Sprintf("%s/%d", prefix, c.counts[prefix])
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
