package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// Channels of the code under test are simulated: the real channel value serves
// as identity only; every operation on it is rewritten to the functions below.

type vchan struct {
	real   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type selector struct {
	t     *Task
	fired bool
	idx   int
	val   any
	ok    bool
	bad   bool
}

type waiter struct {
	sel *selector
	idx int
	val any
}

func chanOf(ch any) *vchan {
	w := W
	if w == nil {
		panic("simrt: channel operation outside a run")
	}
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return nil
	}
	p := v.Pointer()
	c := w.chans[p]
	if c == nil {
		c = &vchan{real: ch, cap: v.Cap()}
		w.chans[p] = c
	}
	return c
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.sel.fired && !x.sel.t.done {
			return x
		}
	}
	return nil
}

func has(q []*waiter) bool {
	for _, x := range q {
		if !x.sel.fired && !x.sel.t.done {
			return true
		}
	}
	return false
}

func (c *vchan) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || has(c.recvq))
}
func (c *vchan) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || has(c.sendq))
}

func fire(x *waiter, val any, ok, bad bool) {
	x.sel.fired, x.sel.idx, x.sel.val, x.sel.ok, x.sel.bad = true, x.idx, val, ok, bad
	x.sel.t.w.makeReady(x.sel.t)
}

func (c *vchan) doSend(v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if r := pop(&c.recvq); r != nil {
		fire(r, v, true, false)
		return
	}
	c.buf = append(c.buf, v)
}

func (c *vchan) doRecv() (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if s := pop(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			fire(s, nil, true, false)
		}
		return v, true
	}
	if s := pop(&c.sendq); s != nil {
		v := s.val
		fire(s, nil, true, false)
		return v, true
	}
	return nil, false
}

func killedOp() {
	runtime.Goexit()
}

// SendTo returns the send operation of ch.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if W.killing {
			killedOp()
		}
		Select(false, SendCase(ch)(v))
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 receives from ch and reports whether a value was sent.
func Recv2[T any](ch <-chan T) (T, bool) {
	if W.killing {
		killedOp()
	}
	c := RecvCase(ch)
	Select(false, c)
	return c.V, c.OK
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if W.killing {
		return
	}
	c := chanOf(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		r := pop(&c.recvq)
		if r == nil {
			break
		}
		fire(r, nil, false, false)
	}
	for {
		s := pop(&c.sendq)
		if s == nil {
			break
		}
		fire(s, nil, false, true)
	}
}

// Len is len(ch).
func Len(ch any) int {
	c := chanOf(ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Drain empties the buffer of ch (used by timers).
func Drain(ch any) {
	if W == nil || W.killing {
		return
	}
	if c := chanOf(ch); c != nil {
		c.buf = nil
	}
}

// TrySendEvent sends from an event, dropping the value if it would block.
func TrySendEvent[T any](ch chan T, v T) {
	c := chanOf(ch)
	if c.canSend() {
		c.doSend(v)
	}
}

// Case is one case of a select statement.
type Case interface {
	ch() *vchan
	ready() bool
	run()
	enqueue(*selector, int)
	finish(*selector)
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c  *vchan
	V  T
	OK bool
}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{c: chanOf(ch)} }

func (r *RecvC[T]) ch() *vchan  { return r.c }
func (r *RecvC[T]) ready() bool { return r.c.canRecv() }
func (r *RecvC[T]) run() {
	v, ok := r.c.doRecv()
	r.V, r.OK = conv[T](v), ok
}
func (r *RecvC[T]) enqueue(s *selector, i int) {
	if r.c != nil {
		r.c.recvq = append(r.c.recvq, &waiter{sel: s, idx: i})
	}
}
func (r *RecvC[T]) finish(s *selector) { r.V, r.OK = conv[T](s.val), s.ok }

// SendC is a send case.
type SendC struct {
	c *vchan
	v any
}

// SendCase makes a send case.
func SendCase[T any](ch chan<- T) func(T) *SendC {
	c := chanOf(ch)
	return func(v T) *SendC { return &SendC{c, v} }
}

func (r *SendC) ch() *vchan  { return r.c }
func (r *SendC) ready() bool { return r.c.canSend() }
func (r *SendC) run()        { r.c.doSend(r.v) }
func (r *SendC) enqueue(s *selector, i int) {
	if r.c != nil {
		r.c.sendq = append(r.c.sendq, &waiter{sel: s, idx: i, val: r.v})
	}
}
func (r *SendC) finish(s *selector) {
	if s.bad {
		panic("send on closed channel")
	}
}

// Select runs one of the cases; -1 means default.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w.killing {
		killedOp()
	}
	var ready [8]int
	n := 0
	for i, c := range cases {
		if n < len(ready) && c.ready() {
			ready[n] = i
			n++
		}
	}
	if n > 0 {
		i := ready[0]
		if n > 1 {
			i = ready[w.D.Intn(n)]
		}
		cases[i].run()
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selector{t: w.cur}
	for i, c := range cases {
		c.enqueue(s, i)
	}
	for !s.fired {
		w.park("channel", false)
	}
	for _, c := range cases {
		if v := c.ch(); v != nil {
			v.recvq = purge(v.recvq)
			v.sendq = purge(v.sendq)
		}
	}
	cases[s.idx].finish(s)
	return s.idx
}

func purge(q []*waiter) []*waiter {
	o := q[:0]
	for _, x := range q {
		if !x.sel.fired {
			o = append(o, x)
		}
	}
	return o
}

// GoCall starts f(args...) as a task of the code under test.
func GoCall(f any, args ...any) { goCall(f, false, args) }

// GoCallSlice is GoCall for a call whose last argument is followed by "...".
func GoCallSlice(f any, args ...any) { goCall(f, true, args) }

func goCall(f any, spread bool, args []any) {
	if W == nil || W.killing {
		return
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !spread {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
			if !in[i].Type().AssignableTo(pt) {
				in[i] = in[i].Convert(pt)
			}
		}
	}
	name := "go"
	if f := runtime.FuncForPC(fv.Pointer()); f != nil {
		name = f.Name()
	}
	W.Spawn(name, true, func() {
		switch g := f.(type) {
		case func():
			g()
		default:
			if spread {
				fv.CallSlice(in)
			} else {
				fv.Call(in)
			}
		}
	})
}

// ---- maps -------------------------------------------------------------

type mapMark struct {
	writer, readers int
}

// MapR models the runtime's check for unsynchronised map access at a read.
func MapR(m func() any) { mapAccess(m, false) }

// MapW is MapR for a write.
func MapW(m func() any) { mapAccess(m, true) }

// mapPtr evaluates a selector chain; a nil pointer on the way means no map.
func mapPtr(m func() any) (p uintptr) {
	defer func() { recover() }()
	return reflect.ValueOf(m()).Pointer()
}

func mapAccess(m func() any, write bool) {
	w := W
	if w == nil || w.killing || w.cur == nil {
		return
	}
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if w.mapMarks == nil {
		w.mapMarks = map[uintptr]*mapMark{}
	}
	k := w.mapMarks[p]
	if k == nil {
		k = &mapMark{}
		w.mapMarks[p] = k
	}
	bad := k.writer > 0 || (write && k.readers > 0)
	if bad {
		w.Violate("crash", "fatal error: concurrent map access by task %s (the Go runtime aborts the program)", w.cur.Name)
		w.park("fatal", false)
	}
	if write {
		k.writer++
	} else {
		k.readers++
	}
	Y()
	if write {
		k.writer--
	} else {
		k.readers--
	}
}

// It iterates over a map in an order the simulator chooses.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K, V) {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if w := W; w != nil && len(keys) > 1 && !w.killing {
		// One choice selects a rotation or reversal of the sorted order.
		c := w.D.Intn(2 * len(keys))
		if c >= len(keys) {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
			c -= len(keys)
		}
		keys = append(keys[c:], keys[:c]...)
	}
	var k K
	var v V
	return &It[K, V]{m: m, keys: keys}, k, v
}

// Next advances to the next key that is still in the map.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		if y, ok := it.m[x]; ok {
			if k != nil {
				*k = x
			}
			if v != nil {
				*v = y
			}
			return true
		}
	}
	return false
}

// Number is the constraint of Inc and Dec.
type Number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

// Inc is x++ as the hardware does it: a read, then a write.
func Inc[T Number](p *T) { v := *p; Y(); *p = v + 1 }

// Dec is x--.
func Dec[T Number](p *T) { v := *p; Y(); *p = v - 1 }

// AsgTo returns the assignment to *p. Its argument has been computed before,
// so that another task may come in between.
func AsgTo[T any](p *T) func(T) {
	return func(v T) { Y(); *p = v }
}
