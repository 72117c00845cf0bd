package sim

import (
	"fmt"
	"sort"
)

// Locker primitives shared by the sync shim.

// Mutex is a simulated mutual exclusion lock.
type Mutex struct {
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		m.locked = true
		return
	}
	s.checkKilled()
	Point()
	if m.locked {
		s.Probe("mutex.contended")
		s.Block("Mutex.Lock", func() bool { return !m.locked })
	}
	m.locked = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.locked && (S == nil || !S.dying) {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	Point()
}

// RWMutex is a simulated reader/writer lock.
type RWMutex struct {
	w       bool
	readers int
	waiting int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	s := S
	if s == nil || s.cur == nil {
		m.w = true
		return
	}
	s.checkKilled()
	Point()
	m.waiting++
	s.Block("RWMutex.Lock", func() bool { return !m.w && m.readers == 0 })
	m.waiting--
	m.w = true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	if !m.w && (S == nil || !S.dying) {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	Point()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	s := S
	if s == nil || s.cur == nil {
		m.readers++
		return
	}
	s.checkKilled()
	Point()
	s.Block("RWMutex.RLock", func() bool { return !m.w && m.waiting == 0 })
	m.readers++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 && (S == nil || !S.dying) {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	Point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

// WaitGroup is a simulated wait group.
type WaitGroup struct{ n int }

// Add adds to the counter.
func (w *WaitGroup) Add(n int) {
	if w.n += n; w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	Point()
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if S == nil {
		return
	}
	Point()
	S.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
}

// Go runs f in a task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f if not called before.
func (o *Once) Do(f func()) {
	Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is a simulated condition variable.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	q []*bool
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	S.Block("Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	Point()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
	Point()
}

// Pool is a deterministic pool.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

var escapeSink interface{}

// Escape moves *p to the heap, for code that hides pointers in uintptrs.
func Escape[T any](p *T) *T {
	escapeSink = p
	return p
}

// CloneMap copies a map.
func CloneMap[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// SortedKeys lists a map's keys in a fixed order.
func SortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	type ent struct {
		s string
		k K
	}
	es := make([]ent, 0, len(m))
	for k := range m {
		es = append(es, ent{fmt.Sprintf("%T:%v", k, k), k})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
	r := make([]K, len(es))
	for i := range es {
		r[i] = es[i].k
	}
	return r
}
