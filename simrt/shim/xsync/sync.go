// Package sync is package sync for simulated tasks.
package sync

import "verif/simrt"

type (
	// Mutex is sync.Mutex.
	Mutex = simrt.Mutex
	// RWMutex is sync.RWMutex.
	RWMutex = simrt.RWMutex
	// WaitGroup is sync.WaitGroup.
	WaitGroup = simrt.WaitGroup
	// Once is sync.Once.
	Once = simrt.Once
	// Cond is sync.Cond.
	Cond = simrt.Cond
	// Locker is sync.Locker.
	Locker = simrt.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return simrt.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is sync.Pool: a simple stack.
type Pool struct {
	New func() any
	s   []any
}

// Get is Pool.Get.
func (p *Pool) Get() any {
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is Pool.Put.
func (p *Pool) Put(v any) {
	if v != nil {
		p.s = append(p.s, v)
	}
}

// Map is sync.Map with a fixed iteration order.
type Map struct {
	keys []any
	m    map[any]any
}

// Load is Map.Load.
func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }

// Store is Map.Store.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap is Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}

// LoadOrStore is Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.Swap(k, v)
	return v, false
}

// LoadAndDelete is Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	o, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return o, ok
}

// Delete is Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap is Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

// CompareAndDelete is Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}

// Clear is Map.Clear.
func (m *Map) Clear() { m.keys, m.m = nil, nil }

// Range is Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
