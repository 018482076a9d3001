// Package simrt is the deterministic simulator: one integer seed decides every
// scheduling choice, delay, fault and generated value of a run.
package simrt

// Decider is the only source of choices in a run. Every choice is recorded; a
// recorded choice list replays the run exactly (and, edited, yields simpler
// runs, which is how failures are minimised). Value 0 is always the plainest
// alternative: no fault, no pre-emption, smallest size.
type Decider struct {
	state  uint64
	replay []uint32
	isRep  bool
	pos    int
	Rec    []uint32
}

// NewDecider draws choices from a seed.
func NewDecider(seed uint64) *Decider { return &Decider{state: seed} }

// ReplayDecider takes choices from a list, and 0 once it is used up.
func ReplayDecider(choices []uint32) *Decider { return &Decider{replay: choices, isRep: true} }

func (d *Decider) next() uint64 { // splitmix64
	d.state += 0x9E3779B97F4A7C15
	z := d.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a choice in [0,n).
func (d *Decider) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if d.isRep {
		if d.pos < len(d.replay) {
			v = int(d.replay[d.pos])
			if v >= n {
				v = n - 1
			}
		}
		d.pos++
	} else {
		v = int(d.next() % uint64(n))
	}
	d.Rec = append(d.Rec, uint32(v))
	return v
}

// Chance is true num times out of den; 0 (the plain choice) is false.
func (d *Decider) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return d.Intn(den) >= den-num
}

// Range returns a choice in [lo,hi]; lo is the plain choice.
func (d *Decider) Range(lo, hi int) int { return lo + d.Intn(hi-lo+1) }

// Weighted picks an index with the given weights; index 0 is the plain choice.
func (d *Decider) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := d.Intn(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Pick returns one of the values; the first is the plain choice.
func Pick[T any](d *Decider, vs ...T) T { return vs[d.Intn(len(vs))] }

// U32 returns an arbitrary 32-bit value.
func (d *Decider) U32() uint32 {
	return uint32(d.Intn(1<<16))<<16 | uint32(d.Intn(1<<16))
}

// Filler is a cheap deterministic byte generator seeded by one choice; bulk
// content does not use up choices of its own.
type Filler struct{ s uint64 }

// NewFiller seeds a Filler.
func NewFiller(seed uint64) *Filler { return &Filler{seed*0x9E3779B97F4A7C15 + 0x1234567} }

// Next returns 64 pseudo-random bits.
func (f *Filler) Next() uint64 {
	f.s += 0x9E3779B97F4A7C15
	z := f.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Fill fills b.
func (f *Filler) Fill(b []byte) {
	var v uint64
	for i := range b {
		if i%8 == 0 {
			v = f.Next()
		}
		b[i] = byte(v >> (8 * uint(i%8)))
	}
}

// Mix hashes integers into one.
func Mix(vs ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, v := range vs {
		h ^= v + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9
		h ^= h >> 27
	}
	return h
}
