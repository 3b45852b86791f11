// Package sim is a deterministic simulator: a seeded cooperative scheduler, a virtual
// network, a virtual disk and virtual time (through testing/synctest) in which the real
// server code runs. Everything undetermined is decided by Draw.
package sim

import "sort"

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Hash mixes a string into a seed.
func Hash(seed uint64, s string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	r := Rng{h}
	return r.Next()
}

// Choices is the complete record of a run: every decision, by stream.
type Choices map[string][]uint32

func (c Choices) Clone() Choices {
	n := make(Choices, len(c))
	for k, v := range c {
		n[k] = append([]uint32(nil), v...)
	}
	return n
}

// Streams lists stream names in a fixed order.
func (c Choices) Streams() []string {
	var names []string
	for k := range c {
		names = append(names, k)
	}
	sort.Strings(names)
	return names
}

// Size is the number of recorded decisions.
func (c Choices) Size() (n int) {
	for _, v := range c {
		n += len(v)
	}
	return n
}

type stream struct {
	rng    *Rng
	replay []uint32
	rec    []uint32
}

type draws struct {
	seed     uint64
	isReplay bool
	given    Choices
	streams  map[string]*stream
}

func newDraws(seed uint64, replay Choices) *draws {
	return &draws{seed: seed, isReplay: replay != nil, given: replay, streams: map[string]*stream{}}
}

func (d *draws) draw(name string, n int) int {
	if n <= 1 {
		return 0
	}
	s := d.streams[name]
	if s == nil {
		s = &stream{rng: NewRng(Hash(d.seed, name)), replay: d.given[name]}
		d.streams[name] = s
	}
	var v int
	if d.isReplay {
		if len(s.rec) < len(s.replay) {
			v = int(s.replay[len(s.rec)]) % n
		}
	} else {
		v = int(s.rng.Next() % uint64(n))
	}
	s.rec = append(s.rec, uint32(v))
	return v
}

func (d *draws) choices() Choices {
	c := Choices{}
	for k, s := range d.streams {
		v := append([]uint32(nil), s.rec...)
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		if len(v) > 0 {
			c[k] = v
		}
	}
	return c
}
