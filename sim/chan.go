package sim

import (
	"runtime"
	"unsafe"
)

// chanState is the simulator's view of one channel.
type chanState struct {
	keep   interface{} // keeps the channel alive for the duration of the run
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	op  *selOp
	idx int
	c   Case
}

type selOp struct {
	t        *Task
	done     bool
	chosen   int
	panicMsg string
}

// Case is one alternative of a select.
type Case interface {
	// ready reports whether the case can proceed now, without side effects
	ready(s *Sim, self *selOp) bool
	// fire performs the case, which must be ready
	fire(s *Sim, self *selOp)
	// put completes a waiting receive
	put(v interface{}, ok bool)
	// get takes the value of a waiting send
	get() interface{}
	enqueue(s *Sim, w *waiter)
	dequeue(s *Sim, op *selOp)
	desc() string
	// try performs the case natively, if possible
	try() bool
}

func chanPtr[T any](c <-chan T) uintptr {
	return *(*uintptr)(unsafe.Pointer(&c))
}

func chanPtrS[T any](c chan<- T) uintptr {
	return *(*uintptr)(unsafe.Pointer(&c))
}

func (s *Sim) chanOf(p uintptr, keep interface{}) *chanState {
	st := s.chans[p]
	if st == nil {
		st = &chanState{keep: keep}
		s.chans[p] = st
	}
	return st
}

func dropWaiters(q []*waiter, op *selOp) []*waiter {
	for i := 0; i < len(q); i++ {
		if q[i].op == op {
			q = append(q[:i:i], q[i+1:]...)
			i--
		}
	}
	return q
}

func firstOther(q []*waiter, self *selOp) *waiter {
	for _, w := range q {
		if w.op != self && !w.op.done && !w.op.t.killed {
			return w
		}
	}
	return nil
}

func (w *waiter) complete() {
	w.op.done = true
	w.op.chosen = w.idx
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// SendC is a send case.
type SendC[T any] struct {
	c chan<- T
	v T
}

// RecvCase makes a receive case.
func RecvCase[T any](c <-chan T) *RecvC[T] { return &RecvC[T]{c: c} }

func (r *RecvC[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

func (c *SendC[T]) try() bool {
	select {
	case c.c <- c.v:
		return true
	default:
		return false
	}
}

// SendCase makes a send case.
func SendCase[T any](c chan<- T) func(v T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
}

func (r *RecvC[T]) desc() string     { return "receive" }
func (r *RecvC[T]) get() interface{} { panic("sim: get on receive") }
func (r *RecvC[T]) put(v interface{}, ok bool) {
	if ok {
		r.V, _ = v.(T)
	}
	r.OK = ok
}

func (r *RecvC[T]) ready(s *Sim, self *selOp) bool {
	if r.c == nil {
		return false
	}
	if len(r.c) > 0 {
		return true
	}
	st := s.chanOf(chanPtr(r.c), r.c)
	if st.closed || firstOther(st.sendq, self) != nil {
		return true
	}
	if cap(r.c) == 0 || len(r.c) == 0 {
		// closed by code outside of the simulation?
		select {
		case _, ok := <-r.c:
			if ok {
				panic("sim: unexpected native sender")
			}
			st.closed = true
			return true
		default:
		}
	}
	return false
}

func (r *RecvC[T]) fire(s *Sim, self *selOp) {
	st := s.chanOf(chanPtr(r.c), r.c)
	if len(r.c) > 0 {
		r.V, r.OK = <-r.c
		if w := firstOther(st.sendq, self); w != nil {
			// a blocked sender moves up into the buffer
			w.c.(interface{ native() }).native()
			w.complete()
		}
		return
	}
	if w := firstOther(st.sendq, self); w != nil {
		r.V, r.OK = w.c.get().(T)
		r.OK = true
		w.complete()
		return
	}
	var zero T
	r.V, r.OK = zero, false
}

func (r *RecvC[T]) enqueue(s *Sim, w *waiter) {
	if r.c == nil {
		return
	}
	st := s.chanOf(chanPtr(r.c), r.c)
	st.recvq = append(st.recvq, w)
}

func (r *RecvC[T]) dequeue(s *Sim, op *selOp) {
	if r.c == nil {
		return
	}
	st := s.chanOf(chanPtr(r.c), r.c)
	st.recvq = dropWaiters(st.recvq, op)
}

func (c *SendC[T]) desc() string               { return "send" }
func (c *SendC[T]) put(v interface{}, ok bool) { panic("sim: put on send") }
func (c *SendC[T]) get() interface{}           { return c.v }
func (c *SendC[T]) native()                    { c.c <- c.v }

func (c *SendC[T]) ready(s *Sim, self *selOp) bool {
	if c.c == nil {
		return false
	}
	st := s.chanOf(chanPtrS(c.c), c.c)
	return st.closed || len(c.c) < cap(c.c) || firstOther(st.recvq, self) != nil
}

func (c *SendC[T]) fire(s *Sim, self *selOp) {
	st := s.chanOf(chanPtrS(c.c), c.c)
	if st.closed {
		panic("send on closed channel")
	}
	if len(c.c) == 0 {
		if w := firstOther(st.recvq, self); w != nil {
			w.c.put(c.v, true)
			w.complete()
			return
		}
	}
	c.c <- c.v
}

func (c *SendC[T]) enqueue(s *Sim, w *waiter) {
	if c.c == nil {
		return
	}
	st := s.chanOf(chanPtrS(c.c), c.c)
	st.sendq = append(st.sendq, w)
}

func (c *SendC[T]) dequeue(s *Sim, op *selOp) {
	if c.c == nil {
		return
	}
	st := s.chanOf(chanPtrS(c.c), c.c)
	st.sendq = dropWaiters(st.sendq, op)
}

// Select performs one of the cases and returns its index, or -1 if none is
// ready and hasDefault is set.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		for { // package initialization
			for i, c := range cases {
				if c.try() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
			runtime.Gosched()
		}
	}
	s.checkKilled()
	op := &selOp{t: s.cur}
	if s.nested == 0 {
		Point()
	}
	var rs []int
	for i, c := range cases {
		if c.ready(s, op) {
			rs = append(rs, i)
		}
	}
	if len(rs) > 0 {
		i := rs[0]
		if len(rs) > 1 {
			i = rs[s.C.Choose(len(rs))]
		}
		cases[i].fire(s, op)
		return i
	}
	if hasDefault {
		return -1
	}
	desc := "select"
	if len(cases) == 1 {
		desc = cases[0].desc()
	}
	for i, c := range cases {
		c.enqueue(s, &waiter{op, i, c})
	}
	for !op.done {
		any := -1
		s.Block(desc, func() bool {
			if op.done {
				return true
			}
			for _, c := range cases {
				if c.ready(s, op) {
					return true
				}
			}
			return false
		})
		if op.done {
			break
		}
		rs = rs[:0]
		for i, c := range cases {
			if c.ready(s, op) {
				rs = append(rs, i)
			}
		}
		if len(rs) > 0 {
			any = rs[0]
			if len(rs) > 1 {
				any = rs[s.C.Choose(len(rs))]
			}
			for _, c := range cases {
				c.dequeue(s, op)
			}
			cases[any].fire(s, op)
			return any
		}
	}
	for _, c := range cases {
		c.dequeue(s, op)
	}
	if op.panicMsg != "" {
		panic(op.panicMsg)
	}
	return op.chosen
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	if S == nil {
		return <-c
	}
	r := RecvC[T]{c: c}
	Select(false, &r)
	return r.V
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-c
		return v, ok
	}
	r := RecvC[T]{c: c}
	Select(false, &r)
	return r.V, r.OK
}

// Send is c <- v, as Send(c)(v).
func Send[T any](c chan<- T) func(v T) {
	return func(v T) {
		if S == nil {
			c <- v
			return
		}
		Select(false, &SendC[T]{c: c, v: v})
	}
}

// TrySend is a non-blocking send from event context; reports success.
func TrySend[T any](c chan<- T, v T) bool {
	return Select(true, &SendC[T]{c: c, v: v}) == 0
}

// Close is close(c).
func Close[T any](c chan<- T) {
	s := S
	if s == nil {
		close(c)
		return
	}
	s.checkKilled()
	Point()
	if c == nil {
		panic("close of nil channel")
	}
	st := s.chanOf(chanPtrS(c), c)
	if st.closed {
		panic("close of closed channel")
	}
	close(c)
	st.closed = true
	for _, w := range st.recvq {
		if !w.op.done {
			w.c.put(nil, false)
			w.complete()
		}
	}
	for _, w := range st.sendq {
		if !w.op.done {
			w.op.panicMsg = "send on closed channel"
			w.complete()
		}
	}
	st.recvq, st.sendq = nil, nil
}

// BlockForever is select{}.
func BlockForever() {
	S.Block("select{}", func() bool { return false })
}
