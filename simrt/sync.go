package simrt

// Mutex is a simulated mutual exclusion lock. As in Go, newcomers may overtake waiting tasks until one has waited
// for more than 1 ms and was overtaken: then Unlock hands the lock to the one that has waited longest.
type Mutex struct {
	gen    uint64
	locked bool
	ws     []*mwait
}

type mwait struct {
	t        *Task
	since    int64
	starving bool
	owns     bool // the lock was handed over
}

func (m *Mutex) init(w *World) {
	if m.gen != w.idGen {
		*m = Mutex{gen: w.idGen}
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	m.init(w)
	if !m.locked {
		m.locked = true
		return
	}
	x := &mwait{t: w.cur, since: w.now}
	m.ws = append(m.ws, x)
	lost := false
	for m.locked && !x.owns {
		w.Count("sched.lock_contended")
		x.starving = lost && w.now-x.since > 1e6
		w.park("lock", false)
		lost = true
	}
	m.locked = true
	for i, y := range m.ws {
		if y == x {
			m.ws = append(m.ws[:i], m.ws[i+1:]...)
			break
		}
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	w := W
	if w == nil || w.killing {
		return true
	}
	m.init(w)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	m.init(w)
	if !m.locked {
		w.Violate("crash", "fatal error: sync: unlock of unlocked mutex")
		w.park("fatal", false)
	}
	for len(m.ws) > 0 && m.ws[0].t.done {
		m.ws = m.ws[1:]
	}
	if len(m.ws) > 0 && m.ws[0].starving {
		w.Count("sched.lock_handed_over")
		m.ws[0].owns = true
		w.makeReady(m.ws[0].t)
		return
	}
	m.locked = false
	for _, x := range m.ws {
		w.makeReady(x.t)
	}
}

// RWMutex is a simulated reader/writer lock. As in Go, a waiting writer keeps new readers out.
type RWMutex struct {
	gen     uint64
	m       Mutex // held by a writer
	readers int
	pending bool // a writer has the lock or waits for the readers to leave
	writing bool
	wq, rq  WaitQ
	epoch   int
}

func (m *RWMutex) init(w *World) {
	if m.gen != w.idGen {
		*m = RWMutex{gen: w.idGen}
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	m.init(w)
	m.m.Lock()
	m.pending = true
	for m.readers > 0 {
		w.Count("sched.lock_contended")
		m.wq.Wait(w, "lock")
	}
	m.writing = true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	w := W
	if w == nil || w.killing {
		return true
	}
	m.init(w)
	if m.readers > 0 || !m.m.TryLock() {
		return false
	}
	m.pending, m.writing = true, true
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	m.init(w)
	if !m.writing {
		w.Violate("crash", "fatal error: sync: Unlock of unlocked RWMutex")
		w.park("fatal", false)
	}
	m.pending, m.writing = false, false
	// Every reader that waits now has the lock before the next writer.
	m.readers += len(m.rq.ts)
	m.epoch++
	m.rq.Wake(w)
	m.m.Unlock()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	m.init(w)
	if !m.pending {
		m.readers++
		return
	}
	w.Count("sched.lock_contended")
	for e := m.epoch; e == m.epoch; {
		m.rq.Wait(w, "rlock")
	}
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	w := W
	if w == nil || w.killing {
		return true
	}
	m.init(w)
	if m.pending {
		return false
	}
	m.readers++
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	m.init(w)
	if m.readers <= 0 {
		w.Violate("crash", "fatal error: sync: RUnlock of unlocked RWMutex")
		w.park("fatal", false)
	}
	m.readers--
	if m.readers == 0 {
		m.wq.Wake(w)
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	gen uint64
	n   int
	q   WaitQ
}

func (g *WaitGroup) init(w *World) {
	if g.gen != w.idGen {
		*g = WaitGroup{gen: w.idGen}
	}
}

// Add adds to the counter.
func (g *WaitGroup) Add(d int) {
	w := W
	if w == nil || w.killing {
		return
	}
	g.init(w)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.Wake(w)
	}
}

// Done decrements the counter.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for the counter to be zero.
func (g *WaitGroup) Wait() {
	w := W
	if w == nil || w.killing {
		return
	}
	g.init(w)
	for g.n > 0 {
		g.q.Wait(w, "waitgroup")
	}
}

// Go runs f in a new task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	GoCall(func() {
		defer g.Done()
		f()
	})
}

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
	gen  uint64
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	q WaitQ
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	w := W
	if w == nil || w.killing {
		return
	}
	c.L.Unlock()
	c.q.Wait(w, "cond")
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	if w := W; w != nil && !w.killing {
		c.q.WakeOne(w)
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	if w := W; w != nil && !w.killing {
		c.q.Wake(w)
	}
}
