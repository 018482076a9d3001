package main

import (
	"fmt"
	"hash/fnv"
	"runtime/metrics"
	"time"

	"verif/simrt"
)

// Prop is one property with its scenario and oracle.
type Prop struct {
	ID       string
	Title    string
	Quick    int // runs in the quick tier
	Thorough int
	Run      func(r *Run)
	Rule     string
	Real     string
	Stub     string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Run is one simulated run of one property.
type Run struct {
	D        *simrt.Decider
	W        *simrt.World
	P        *Prop
	tracing  bool
	NonTriv  bool
	Desc     string
	exitedOK bool
}

// Result is what is left of a run.
type Result struct {
	Fail    *simrt.Failure
	Choices []uint32
	Trace   []string
	Hash    uint64
	Sched   uint64
	Counts  map[string]int64
	SimNs   int64
	NonTriv bool
	Tasks   int
	Desc    string
}

func propHash(id string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(id))
	return h.Sum64()
}

func runSeed(seed int64, id string, idx int) uint64 {
	return simrt.Mix(uint64(seed), propHash(id), uint64(idx))
}

// runOnce executes one run.
func runOnce(p *Prop, d *simrt.Decider, tracing bool) (res *Result) {
	r := &Run{D: d, P: p, tracing: tracing}
	p.Run(r)
	w := r.W
	if w == nil {
		panic("property made no world")
	}
	w.Finish()
	res = &Result{Fail: w.Fail, Choices: d.Rec, Trace: w.Trace, Hash: w.Hash(), Sched: w.SchedHash(), Counts: w.Counts,
		SimNs: w.Now(), NonTriv: r.NonTriv, Tasks: len(w.Tasks), Desc: r.Desc}
	w.Counts["sched.switches"] += w.Switches
	return res
}

// World makes the run's world.
func (r *Run) World(cfg simrt.Config) *simrt.World {
	r.W = simrt.NewWorld(r.D, cfg)
	r.W.Tracing = r.tracing
	return r.W
}

// Sched draws the schedule of a run. maxSlow bounds how long a task may be
// held up by the scheduler; stalls allows multi-second stalls.
func (r *Run) Sched(maxSlow int64, stalls bool) simrt.Config {
	d := r.D
	c := simrt.Config{MaxSlow: maxSlow}
	switch d.Weighted(4, 3, 3, 2) {
	case 1:
		c.PreemptPct, c.PreemptSpan = 10, 60
	case 2:
		c.PreemptPct, c.PreemptSpan = 40, 120
	case 3:
		c.PreemptPct, c.PreemptSpan = 25, 500
	}
	if c.PreemptPct > 0 && stalls {
		c.LongStall = d.Chance(1, 4)
	}
	c.MixEvents = d.Chance(1, 2)
	return c
}

// DrawLink draws how the network treats one direction of a connection.
func (r *Run) DrawLink(maxDelay int64, stalls bool) simrt.Link {
	d := r.D
	l := simrt.Link{SegMode: d.Weighted(4, 3, 3, 2)}
	switch d.Weighted(3, 2, 2, 1) {
	case 1:
		l.DelayMax = 10 * ms
	case 2:
		l.DelayMax = 200 * ms
	case 3:
		l.DelayMax = 3 * sec
	}
	if l.DelayMax > maxDelay {
		l.DelayMax = maxDelay
	}
	if stalls && d.Chance(1, 3) {
		l.StallPct = simrt.Pick(d, 2, 5, 15)
		l.StallMin = 50 * ms
		l.StallMax = simrt.Pick(d, 1*sec, 3*sec, 9*sec)
	}
	return l
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocBytes() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func fmtDur(ns int64) string { return time.Duration(ns).String() }

// Violate records a violation of the property under check.
func (r *Run) Violate(class, f string, a ...any) { r.W.Violate(class, f, a...) }

// Ok is shorthand: violation unless cond.
func (r *Run) Ok(cond bool, class, f string, a ...any) bool {
	if !cond {
		r.W.Violate(class, f, a...)
	}
	return cond
}

var _ = fmt.Sprint
