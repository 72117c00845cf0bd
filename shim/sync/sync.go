// Package sync stands in for the standard sync package under simulation.
package sync

import "github.com/jcorbin/anansi/zz/sim"

// Simulated primitives.
type (
	Mutex     = sim.Mutex
	RWMutex   = sim.RWMutex
	WaitGroup = sim.WaitGroup
	Once      = sim.Once
	Cond      = sim.Cond
	Pool      = sim.Pool
)

// Locker is a lock.
type Locker interface {
	Lock()
	Unlock()
}

// NewCond makes a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// OnceFunc returns a function that runs f once.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue returns a function that runs f once.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Map is a simulated concurrent map.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

// Load reads.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	sim.Point()
	v, ok := m.m[k]
	return v, ok
}

// Store writes.
func (m *Map) Store(k, v interface{}) {
	sim.Point()
	m.put(k, v)
}

func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = make(map[interface{}]interface{})
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

// LoadOrStore reads or writes.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if o, ok := m.Load(k); ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}

// Delete deletes.
func (m *Map) Delete(k interface{}) {
	sim.Point()
	m.drop(k)
}

func (m *Map) drop(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, o := range m.keys {
			if o == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Range visits in insertion order.
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}(nil), m.keys...) {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Swap writes and returns what was there.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	o, ok := m.Load(k)
	m.put(k, v)
	return o, ok
}

// LoadAndDelete reads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	sim.Point()
	o, ok := m.m[k]
	m.drop(k)
	return o, ok
}

// CompareAndSwap writes if the value is old.
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	sim.Point()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.m[k] = v
	return true
}

// CompareAndDelete deletes if the value is old.
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	sim.Point()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.drop(k)
	return true
}

// Clear deletes everything.
func (m *Map) Clear() {
	sim.Point()
	m.m, m.keys = nil, nil
}

// OnceValues returns a function that runs f once.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}
