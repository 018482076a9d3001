package simrt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Config shapes the schedule of one run (drawn per run by the harness).
type Config struct {
	PreemptPct  int   // chance in 100 that a dispatched task gets a pre-emption point
	PreemptSpan int   // pre-emption falls within this many statements
	MaxSlow     int64 // a pre-empted task may be slow for up to this long (ns)
	LongStall   bool  // a pre-empted task may stall for seconds
	MixEvents   bool  // due events and ready tasks are interleaved at random
	Limit       int64 // simulated time limit in ns
	MaxBurn     int64 // statements executed without the simulation moving on
	MaxDispatch int64 // dispatches in the whole run
	MaxTotal    int64 // statements in the whole run
}

// Event is one entry of the discrete-event queue.
type Event struct {
	at   int64
	seq  uint64
	fn   func()
	idx  int
	dead bool
}

type eventHeap []*Event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *eventHeap) Push(x any)   { e := x.(*Event); e.idx = len(*h); *h = append(*h, e) }
func (h *eventHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

// Task is one simulated goroutine. Exactly one task or event runs at a time.
type Task struct {
	held, heldAt int64 // how long the scheduler has held it up lately
	ID           int
	Name         string
	Lib          bool // started by the code under test
	wake         chan struct{}
	done         bool
	queued       bool
	asleep       bool
	why          string
	quantum      int
	w            *World
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.done }

// Why tells what the task is blocked on.
func (t *Task) Why() string { return t.why }

// Failure is a violation found while a run proceeds.
type Failure struct {
	Class  string
	Detail string
}

// World is one run of the simulation.
type World struct {
	D     *Decider
	Cfg   Config
	now   int64
	seq   uint64
	evq   eventHeap
	Tasks []*Task
	ready []*Task
	cur   *Task
	back  chan struct{}

	killing  bool
	stopped  bool
	Fail     *Failure
	Exited   bool
	ExitCode int

	burn     int64
	total    int64 // statements in the whole run
	sameT    int64 // events since time last moved
	dispatch int64
	Trace    []string
	Tracing  bool
	hash     uint64
	sched    uint64
	Counts   map[string]int64
	chans    map[uintptr]*vchan
	mapMarks map[uintptr]*mapMark
	Net      *Net
	rnd      *Filler
	Extra    any
	Switches int64
	Preempts int64
	idGen    uint64
	wallOff  int64
}

var resets []func()

// OnReset registers functions that give the package variables of the code
// under test their initial values before every run.
func OnReset(fs ...func()) { resets = append(resets, fs...) }

// Zero sets a variable to its zero value.
func Zero[T any](p *T) { var z T; *p = z }

// W is the world being run, or nil.
var W *World
var worldSeq uint64

// Base is the simulated wall clock at time 0.
var Base = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

// NewWorld prepares a run.
func NewWorld(d *Decider, cfg Config) *World {
	if cfg.MaxBurn == 0 {
		cfg.MaxBurn = 20_000_000
	}
	if cfg.MaxDispatch == 0 {
		cfg.MaxDispatch = 2_000_000
	}
	if cfg.MaxTotal == 0 {
		cfg.MaxTotal = 400_000_000
	}
	if cfg.Limit == 0 {
		cfg.Limit = int64(10 * time.Minute)
	}
	worldSeq++
	w := &World{D: d, Cfg: cfg, back: make(chan struct{}), Counts: map[string]int64{}, chans: map[uintptr]*vchan{}, idGen: worldSeq}
	w.Net = newNet(w)
	w.rnd = NewFiller(77)
	W = nil
	for _, f := range resets {
		f()
	}
	W = w
	return w
}

// WallOff is how far the wall clock has been set away from simulated time.
func (w *World) WallOff() int64 { return w.wallOff }

// JumpWall sets the wall clock by d ns; monotonic time is unaffected.
func (w *World) JumpWall(d int64) { w.wallOff += d; w.Ev("wall-clock-jump", d) }

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// TimeNow is time.Now of the run: a wall clock and a monotonic reading.
func TimeNow() time.Time {
	w := W
	if w == nil {
		return Base
	}
	t := Base.Add(time.Duration(w.now + w.wallOff))
	const hasMono = 1 << 63
	const y1885 = -2682288000 // Unix time of 1885-01-01, epoch of the packed wall clock
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMono | uint64(t.Unix()-y1885)<<30 | uint64(t.Nanosecond())
	r.ext = w.now + 1
	return t
}

// Now is the simulated time in ns since the start of the run.
func (w *World) Now() int64 { return w.now }

// Seq is the global event sequence number.
func (w *World) Seq() uint64 { w.seq++; return w.seq }

// Count adds to a statistics counter.
func (w *World) Count(name string) { w.Counts[name]++ }

// Ev records a trace event: it always enters the trace hash, and the trace
// itself when tracing. It draws nothing.
func (w *World) Ev(kind string, args ...any) {
	h := w.hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 0x100000001b3
	}
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h = Mix(h, uint64(v))
		case int64:
			h = Mix(h, uint64(v))
		case uint64:
			h = Mix(h, v)
		case byte:
			h = Mix(h, uint64(v))
		case bool:
			if v {
				h = Mix(h, 1)
			} else {
				h = Mix(h, 2)
			}
		case string:
			for i := 0; i < len(v); i++ {
				h = (h ^ uint64(v[i])) * 0x100000001b3
			}
		case []byte:
			for i := 0; i < len(v); i++ {
				h = (h ^ uint64(v[i])) * 0x100000001b3
			}
		}
	}
	w.hash = Mix(h, uint64(w.now))
	if w.Tracing {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%12.6fs %s", float64(w.now)/1e9, kind)
		for _, a := range args {
			switch v := a.(type) {
			case []byte:
				if len(v) > 400 {
					fmt.Fprintf(&sb, " %q...(%d)", v[:400], len(v))
				} else {
					fmt.Fprintf(&sb, " %q", v)
				}
			case string:
				if len(v) > 800 {
					v = v[:800] + "..."
				}
				fmt.Fprintf(&sb, " %s", v)
			default:
				fmt.Fprintf(&sb, " %v", v)
			}
		}
		w.Trace = append(w.Trace, sb.String())
	}
}

// Hash is the hash of everything recorded so far.
func (w *World) Hash() uint64 { return w.hash }

// SchedHash identifies the interleaving: the order of dispatches and events.
func (w *World) SchedHash() uint64 { return w.sched }

// Violate records a violation and stops the run.
func (w *World) Violate(class, format string, args ...any) {
	if w.Fail == nil {
		w.Fail = &Failure{class, fmt.Sprintf(format, args...)}
		w.Ev("VIOLATION", class, w.Fail.Detail)
	}
	w.stopped = true
}

// Stop ends the run at the next scheduling point.
func (w *World) Stop() { w.stopped = true }

// Stopped reports whether the run has been stopped.
func (w *World) Stopped() bool { return w.stopped }

// At schedules fn after d ns.
func (w *World) At(d int64, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	w.seq++
	e := &Event{at: w.now + d, seq: w.seq, fn: fn}
	heap.Push(&w.evq, e)
	return e
}

// Cancel removes an event; it reports whether it was still pending.
func (w *World) Cancel(e *Event) bool {
	if e == nil || e.dead || e.idx < 0 {
		return false
	}
	e.dead = true
	heap.Remove(&w.evq, e.idx)
	return true
}

// Spawn starts a task.
func (w *World) Spawn(name string, lib bool, fn func()) *Task {
	t := &Task{ID: len(w.Tasks), Name: name, Lib: lib, wake: make(chan struct{}), w: w}
	w.Tasks = append(w.Tasks, t)
	w.Ev("spawn", t.ID, name)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil && !w.killing {
				w.crash(t, r, debug.Stack())
			}
			t.done = true
			w.back <- struct{}{}
		}()
		if w.killing {
			return
		}
		fn()
	}()
	w.makeReady(t)
	return t
}

func (w *World) crash(t *Task, r any, stack []byte) {
	if !inCodeUnderTest(string(stack)) {
		w.Violate("HARNESS", "task %s: %v\n%s", t.Name, r, stack)
		return
	}
	w.Violate("crash", "task %s panicked: %v\n%s", t.Name, r, cleanStack(string(stack)))
}

// inCodeUnderTest tells whether the panic came out of the code under test
// rather than the harness calling it.
func inCodeUnderTest(stack string) bool {
	i := strings.Index(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/aboukirev/ouro") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// cleanStack keeps function names and positions, without addresses.
func cleanStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	seenPanic := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			out = out[:0]
			continue
		}
		if !seenPanic {
			continue
		}
		if j := strings.LastIndexByte(l, '('); j > 0 {
			l = l[:j]
		}
		pos := strings.TrimSpace(lines[i+1])
		if j := strings.LastIndex(pos, " +0x"); j > 0 {
			pos = pos[:j]
		}
		if j := strings.Index(pos, "/ouro/"); j >= 0 {
			pos = pos[j+6:]
		}
		if strings.Contains(l, "simrt.(*World).Spawn") {
			break
		}
		if len(out) < 12 {
			out = append(out, "  "+l+" "+pos)
		}
	}
	return strings.Join(out, "\n")
}

// Exit ends the simulated program, as os.Exit does.
func Exit(code int) {
	w := W
	if w == nil {
		panic("os.Exit outside a run")
	}
	if !w.killing {
		w.Exited, w.ExitCode = true, code
		w.Ev("exit", code)
		w.stopped = true
		w.park("exited", false)
	}
	runtime.Goexit()
}

func (w *World) makeReady(t *Task) {
	if t.done || t.queued {
		return
	}
	t.queued = true
	t.asleep = false
	w.ready = append(w.ready, t)
}

// park gives up the processor; with requeue the task stays ready.
func (w *World) park(why string, requeue bool) {
	t := w.cur
	if w.killing {
		runtime.Goexit()
	}
	if t == nil {
		panic("simrt: blocking operation (" + why + ") outside a task")
	}
	t.why = why
	if requeue {
		w.makeReady(t)
	}
	w.back <- struct{}{}
	<-t.wake
	if w.killing {
		runtime.Goexit()
	}
	t.why = ""
}

// Sleep suspends the current task for d ns of simulated time.
func (w *World) Sleep(d int64, why string) {
	t := w.cur
	if w.killing {
		return
	}
	if d <= 0 {
		w.park(why, true)
		return
	}
	w.At(d, func() { w.makeReady(t) })
	w.park(why, false)
}

// Cur is the running task, or nil in an event.
func (w *World) Cur() *Task { return w.cur }

func (w *World) pickReady() *Task {
	i := 0
	if len(w.ready) > 1 {
		i = w.D.Intn(len(w.ready))
	}
	t := w.ready[i]
	copy(w.ready[i:], w.ready[i+1:])
	w.ready = w.ready[:len(w.ready)-1]
	t.queued = false
	return t
}

func (w *World) runTask(t *Task) {
	w.dispatch++
	if w.dispatch > w.Cfg.MaxDispatch {
		w.Violate("spin", "more than %d task switches without an end", w.Cfg.MaxDispatch)
		return
	}
	w.Switches++
	w.sched = Mix(w.sched, uint64(t.ID)+1)
	t.quantum = 0
	if w.Cfg.PreemptPct > 0 && !w.killing && w.D.Chance(w.Cfg.PreemptPct, 100) {
		t.quantum = 1 + w.D.Intn(w.Cfg.PreemptSpan)
	}
	w.cur = t
	t.wake <- struct{}{}
	<-w.back
	w.cur = nil
}

// Run runs tasks and events until nothing is left, the limit is reached or the
// run is stopped. It may be called again to go on.
func (w *World) Run() {
	for !w.stopped {
		due := len(w.evq) > 0 && w.evq[0].at <= w.now
		if len(w.ready) > 0 && !(due && w.Cfg.MixEvents && w.D.Intn(2) == 1) {
			w.runTask(w.pickReady())
			continue
		}
		if len(w.evq) == 0 {
			return
		}
		e := w.evq[0]
		if e.at > w.Cfg.Limit {
			w.now = w.Cfg.Limit
			return
		}
		heap.Pop(&w.evq)
		e.dead = true
		if e.at > w.now {
			w.now = e.at
			w.sameT = 0
		}
		if w.sameT++; w.sameT > 3_000_000 {
			w.Violate("spin", "more than %d events at one instant", w.sameT-1)
			return
		}
		if w.total += w.burn; w.total > w.Cfg.MaxTotal {
			w.Violate("spin", "more than %d statements in one run", w.Cfg.MaxTotal)
			return
		}
		w.burn = 0
		w.sched = Mix(w.sched, 1000)
		w.runEvent(e)
	}
}

func (w *World) runEvent(e *Event) {
	defer func() {
		if r := recover(); r != nil {
			// A panic in the harness is an error of the check, never a violation.
			panic(fmt.Sprintf("harness event panicked: %v\n%s", r, debug.Stack()))
		}
	}()
	e.fn()
}

// RunFor runs for at most d more ns of simulated time.
func (w *World) RunFor(d int64) {
	old := w.Cfg.Limit
	if l := w.now + d; l < old {
		w.Cfg.Limit = l
	}
	w.Run()
	if !w.stopped && w.now < w.Cfg.Limit {
		// Nothing is left that could happen; time passes all the same.
		w.now = w.Cfg.Limit
	}
	w.Cfg.Limit = old
}

// Finish ends all tasks that are left.
func (w *World) Finish() {
	w.killing = true
	w.stopped = true
	for i := 0; i < len(w.Tasks); i++ {
		t := w.Tasks[i]
		for !t.done {
			w.cur = t
			t.wake <- struct{}{}
			<-w.back
		}
	}
	w.cur = nil
	W = nil
}

// Y is the statement hook in code under test that may be pre-empted.
func Y() {
	w := W
	if w == nil {
		return
	}
	w.burn++
	if w.burn > w.Cfg.MaxBurn {
		w.spin()
	}
	t := w.cur
	if t != nil && t.quantum > 0 {
		t.quantum--
		if t.quantum == 0 {
			w.preempt(t)
		}
	}
}

// YL is the statement hook in code that runs inside one task only.
func YL() {
	w := W
	if w == nil {
		return
	}
	w.burn++
	if w.burn > w.Cfg.MaxBurn {
		w.spin()
	}
}

func (w *World) spin() {
	if w.killing {
		runtime.Goexit()
	}
	if w.cur == nil {
		panic("simrt: spin in an event")
	}
	w.Violate("spin", "task %s executed %d statements without the simulation moving on", w.cur.Name, w.burn)
	w.burn = 0
	w.park("spinning", false)
}

func (w *World) preempt(t *Task) {
	if w.killing || w.stopped {
		return
	}
	w.Preempts++
	n := 3
	if w.Cfg.MaxSlow <= 0 {
		n = 1
	} else if w.Cfg.LongStall {
		n = 4
	}
	k := w.D.Intn(n)
	d := w.Cfg.MaxSlow
	if k == 1 && len(w.evq) > 0 {
		if x := w.evq[0].at - w.now; x < d {
			d = x
		}
		d++
	} else if k == 2 {
		d = 1 + int64(w.D.Intn(16))*w.Cfg.MaxSlow/15
	}
	if k == 1 || k == 2 {
		// Being held up is bounded: at most 8 times MaxSlow in a row, and
		// a quarter of the time.
		t.held = max(0, t.held-(w.now-t.heldAt)/4)
		t.heldAt = w.now
		if t.held+d > 8*w.Cfg.MaxSlow {
			k = 0
		} else {
			t.held += d
		}
	}
	switch k {
	case 0:
		w.Count("sched.preempt")
		w.Ev("preempt", t.ID)
		w.park("preempted", true)
	case 1:
		w.Count("sched.preempt_until_event")
		w.Ev("preempt-event", t.ID)
		w.Sleep(d, "preempted")
	case 2:
		w.Count("sched.slow_task")
		w.Ev("slow-task", t.ID, d)
		w.Sleep(d, "slow")
	case 3:
		w.Count("sched.stalled_task")
		d = int64(1500+w.D.Intn(60)*100) * int64(time.Millisecond)
		w.Ev("stalled-task", t.ID, d)
		w.Sleep(d, "stalled")
	}
}

// WaitQ is a queue of tasks waiting for something to change.
type WaitQ struct{ ts []*Task }

// Wait parks the current task until the queue is woken.
func (q *WaitQ) Wait(w *World, why string) {
	q.ts = append(q.ts, w.cur)
	w.park(why, false)
}

// Wake readies every waiting task.
func (q *WaitQ) Wake(w *World) {
	for _, t := range q.ts {
		w.makeReady(t)
	}
	q.ts = q.ts[:0]
}

// WakeOne readies the task that has waited longest.
func (q *WaitQ) WakeOne(w *World) {
	for len(q.ts) > 0 {
		t := q.ts[0]
		q.ts = append(q.ts[:0], q.ts[1:]...)
		if !t.done {
			w.makeReady(t)
			return
		}
	}
}

// Rand fills b with the run's deterministic "randomness".
func Rand(b []byte) {
	w := W
	if w == nil {
		for i := range b {
			b[i] = 0
		}
		return
	}
	w.rnd.Fill(b)
}

// Rand64 returns 64 bits of the run's deterministic "randomness".
func Rand64() uint64 {
	if W == nil {
		return 4
	}
	return W.rnd.Next()
}

// LiveLib counts tasks of the code under test that have not ended.
func (w *World) LiveLib() (n int, names string) {
	for _, t := range w.Tasks {
		if t.Lib && !t.done {
			n++
			names += fmt.Sprintf("%s(%s) ", t.Name, t.why)
		}
	}
	return
}

// Main runs fn as the main task of a simulated program: when it returns the program exits.
func (w *World) Main(name string, fn func()) *Task {
	return w.Spawn(name, true, func() {
		fn()
		Exit(0)
	})
}

// Max keeps the largest value seen under a name.
func (w *World) Max(k string, v int64) {
	if v > w.Counts[k] {
		w.Counts[k] = v
	}
}

// Work is the number of statements of the code under test executed so far.
func (w *World) Work() int64 { return w.total + w.burn }
