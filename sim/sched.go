// Package sim is a deterministic simulator: cooperative tasks, simulated time,
// channels, locks, signals, terminals, pipes and disks, all driven by one
// recorded sequence of choices.
package sim

import (
	"fmt"
	"hash/fnv"
	"io"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
)

// Task is one simulated thread of control, carried by a goroutine which only
// runs while it holds the baton.
type Task struct {
	id      int
	name    string
	wake    chan struct{}
	gone    chan struct{}
	ready   func() bool // nil: runnable
	desc    string
	proc    *Proc
	killed  bool
	reaped  bool // being unwound by another task; must not touch the baton
	done    bool
	harness bool
	blocked int64 // simulated time since which the task is blocked
}

// Proc is a simulated process: a set of tasks that die together.
type Proc struct {
	Name     string
	Pid      int
	Pgid     int
	Dead     bool
	Exited   bool
	ExitCode int
	KilledBy string
	Stopped  bool
	k        *Kernel
	sigs     []*sigReg
	pending  []int
	held     []syscall.Signal

	Sent map[syscall.Signal]int // signals that were sent to it
}

// Violation is a property violation found by a run.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type abortRun struct{}

// Sim is one simulated execution.
type Sim struct {
	C *Chooser

	// OnClock, if set, is called with every time the program reads.
	OnClock func(ns int64)

	tasks []*Task
	live  []*Task
	cur   *Task

	now      int64
	base     int64
	Slow     int64 // cost in ns of one schedule point
	timers   []*Timer
	timerSeq uint64

	Steps    int64
	MaxSteps int64
	chunk    int64
	preempt  int64
	PreemptK int // 0: never preempt between blocking points
	Switches int64

	chans map[uintptr]*chanState

	K *Kernel

	dying     bool
	Violation *Violation
	nested    int

	hash    uint64
	schedH  uint64
	Verbose bool
	Log     []string

	Faults  map[string]int64
	Probes  map[string]int64
	Notes   []string
	Trouble string

	// LatePct is the percentage of timers that fire late, by up to LateMax ns.
	LatePct int
	LateMax int64
	Tickers int

	CPUProfile io.Writer
	Trace      io.Writer
	Profiles   map[string][]string // what profilers wrote, by kind
}

// Profiled notes that the profile of the given kind was written.
func (s *Sim) Profiled(kind string) {
	head, rest := s.Profile(kind)
	s.Profiles[kind] = append(s.Profiles[kind], head+rest)
}

// Profile makes up the next profile of the given kind; most are shorter than
// the one before.
func (s *Sim) Profile(kind string) (head, rest string) {
	if s.Profiles == nil {
		s.Profiles = map[string][]string{}
	}
	n := len(s.Profiles[kind]) + 1
	head = fmt.Sprintf("%s profile: number %d\n", kind, n)
	for i := 5 - n%5; i > 0; i-- {
		rest += fmt.Sprintf("%d @ %#x\n", i, n)
	}
	return head, rest
}

// Late draws how late a timer fires.
func (s *Sim) Late() int64 {
	if s.LatePct > 0 && s.Pct(s.LatePct) {
		s.Fault("timer.late")
		return 1 + int64(s.C.Choose(1000))*s.LateMax/1000
	}
	return 0
}

// S is the currently running simulation, nil outside of a run.
var S *Sim

// Left counts schedule points down to the next slow path.
var Left int64 = 1 << 60

// Point is a schedule point, placed before statements of instrumented code.
func Point() {
	if Left--; Left < 0 {
		slowPoint()
	}
}

func slowPoint() {
	s := S
	if s == nil || s.cur == nil {
		Left = 1 << 60
		return
	}
	s.account()
	s.checkKilled()
	if s.nested > 0 {
		s.arm()
		return
	}
	if s.Steps > s.MaxSteps {
		s.tooLong()
	}
	s.fireDue()
	if s.preempt <= 0 {
		s.drawPreempt()
		s.yield()
	}
	s.arm()
}

// account turns consumed points into simulated time.
func (s *Sim) account() {
	used := s.chunk - Left
	if used < 0 {
		used = 0
	}
	s.Steps += used
	s.now += used * s.Slow
	s.preempt -= used
	s.chunk = 0
	Left = 0
}

// arm sets Left to the number of points until something has to happen.
func (s *Sim) arm() {
	n := int64(1 << 20)
	if r := s.MaxSteps - s.Steps + 1; r < n {
		n = r
	}
	if s.preempt < n {
		n = s.preempt
	}
	if s.Slow > 0 {
		if t := s.nextTimer(); t != nil {
			if d := (t.at - s.now + s.Slow - 1) / s.Slow; d < n {
				n = d
			}
		}
	}
	if n < 0 {
		n = 0
	}
	s.chunk = n
	Left = n
}

func (s *Sim) drawPreempt() {
	// a busy task gets preempted after 10ms at the latest
	max := int64(1 << 14)
	if s.Slow > 0 {
		max = 1 + 10e6/s.Slow
	}
	if s.PreemptK == 0 {
		s.preempt = max
		return
	}
	if k := s.C.Choose(s.PreemptK + 1); k == 0 {
		s.preempt = 4096
	} else {
		s.preempt = 1 + int64(s.C.Choose(1<<uint(k)))
	}
	if s.preempt > max {
		s.preempt = max
	}
}

func (s *Sim) tooLong() {
	s.Fail("livelock", "no end after %d steps, simulated time %v; tasks:\n%s", s.Steps, s.NowDur(), s.Dump())
}

// Now is the simulated time in nanoseconds since the Unix epoch.
func (s *Sim) Now() int64 {
	if s.cur != nil && s.nested == 0 {
		s.account()
		s.arm()
	}
	return s.base + s.now
}

// Elapsed is the simulated time in nanoseconds since the start of the run.
func (s *Sim) Elapsed() int64 {
	s.Now()
	return s.now
}

// NowDur is the simulated time since the start of the run.
func (s *Sim) NowDur() string {
	return fmt.Sprintf("%d.%06dms", s.now/1e6, s.now%1e6)
}

// Run executes fn as the main harness task of a new simulation.
func Run(c *Chooser, maxSteps int64, verbose bool, fn func(s *Sim)) *Sim {
	s := &Sim{
		C: c, MaxSteps: maxSteps, Verbose: verbose, Slow: 1000,
		chans:  make(map[uintptr]*chanState),
		Faults: make(map[string]int64), Probes: make(map[string]int64),
		base: 1767225600e9,
	}
	h := fnv.New64a()
	s.hash = h.Sum64()
	s.schedH = s.hash
	s.K = newKernel(s)
	S = s
	main := s.newTask("main", nil)
	main.harness = true
	s.cur = main
	s.preempt = 64
	s.arm()
	finished := make(chan struct{})
	go func() {
		defer close(finished)
		s.top(main, func() { fn(s) })
	}()
	<-finished
	s.account()
	// reap everything that is left
	s.dying = true
	for i := 0; i < len(s.tasks); i++ {
		s.reap(s.tasks[i])
	}
	S = nil
	Left = 1 << 60
	return s
}

// top runs the body of a task and handles how it ends.
func (s *Sim) top(t *Task, fn func()) {
	normal := false
	defer func() {
		t.done = true
		if !normal {
			if r := recover(); r != nil {
				if _, ok := r.(abortRun); !ok && s.Violation == nil && !t.killed && !s.dying {
					msg := fmt.Sprint(r)
					s.Violation = &Violation{"panic", fmt.Sprintf("panic in task %s: %s\n%s", t.name, msg, trimStack(debug.Stack()))}
				}
			}
		}
	}()
	fn()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	skip := true
	for i := 0; i < len(lines); i++ {
		if skip {
			if strings.HasPrefix(lines[i], "panic(") {
				skip = false
				i++
			}
			continue
		}
		out = append(out, lines[i])
		if len(out) >= 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) newTask(name string, p *Proc) *Task {
	t := &Task{id: len(s.tasks), name: name, proc: p,
		wake: make(chan struct{}, 1), gone: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.live = append(s.live, t)
	return t
}

// Go starts a new task in the process of the current task.
func Go(fn func()) {
	if S == nil {
		panic("sim: goroutine started outside of a simulation")
	}
	S.checkKilled()
	var p *Proc
	name := "go"
	if S.cur != nil {
		p = S.cur.proc
		name = S.cur.name + ".go"
	}
	S.Spawn(name, p, fn)
	Point()
}

// Spawn starts a task in the given process (nil: harness).
func (s *Sim) Spawn(name string, p *Proc, fn func()) *Task {
	t := s.newTask(fmt.Sprintf("%s#%d", name, len(s.tasks)), p)
	t.harness = p == nil
	go func() {
		defer close(t.gone)
		<-t.wake
		if t.reaped || s.dying {
			t.done = true
			return
		}
		defer s.finish(t)
		s.cur = t
		s.top(t, fn)
	}()
	return t
}

// finish passes on the baton at the end of a task's goroutine.
func (s *Sim) finish(t *Task) {
	t.done = true
	if t.reaped {
		return
	}
	if s.dying || s.Violation != nil {
		s.abortFrom()
		return
	}
	s.account()
	s.dropLive(t)
	s.ev("end", int64(t.id))
	s.passOn()
}

func (s *Sim) dropLive(t *Task) {
	for i, o := range s.live {
		if o == t {
			s.live = append(s.live[:i:i], s.live[i+1:]...)
			return
		}
	}
}

// abortFrom hands control to the main task, which unwinds and ends the run.
func (s *Sim) abortFrom() {
	m := s.tasks[0]
	s.dying = true
	s.cur = m
	m.wake <- struct{}{}
}

// reap makes a task's goroutine exit.
func (s *Sim) reap(t *Task) {
	if t == s.tasks[0] {
		return
	}
	select {
	case <-t.gone:
		return
	default:
	}
	t.killed = true
	t.reaped = true
	cur := s.cur
	s.cur = t
	select {
	case t.wake <- struct{}{}:
	default:
	}
	<-t.gone
	s.cur = cur
}

func (s *Sim) checkKilled() {
	if s.nested > 0 {
		return
	}
	if s.dying || (s.cur != nil && s.cur.killed) {
		s.die()
	}
}

func (s *Sim) die() {
	if s.cur == s.tasks[0] {
		panic(abortRun{})
	}
	runtime.Goexit()
}

// Fail records a violation and ends the run.
func (s *Sim) Fail(class, format string, args ...interface{}) {
	if s.Violation == nil && !s.dying {
		s.Violation = &Violation{class, fmt.Sprintf(format, args...)}
		s.Tracef("VIOLATION %s", class)
	}
	s.abort()
}

func (s *Sim) abort() {
	cur := s.cur
	if cur != s.tasks[0] && (s.dying || cur.killed) {
		runtime.Goexit()
	}
	s.dying = true
	panic(abortRun{})
}

// runnable collects the tasks that could run now.
func (s *Sim) runnable() []*Task {
	var rs []*Task
	for _, t := range s.live {
		if t.done || t.killed {
			continue
		}
		if t.proc != nil && (t.proc.Stopped || t.proc.Dead) {
			continue
		}
		if t.ready == nil || t.ready() {
			rs = append(rs, t)
		}
	}
	return rs
}

// pick decides who runs next, advancing time if nobody can.
func (s *Sim) pick() *Task {
	for {
		rs := s.runnable()
		if len(rs) > 0 {
			if len(rs) == 1 {
				return rs[0]
			}
			// 0: the next task after the current one, in creation order
			start := 0
			if s.cur != nil {
				start = sort.Search(len(rs), func(i int) bool { return rs[i].id > s.cur.id })
			}
			return rs[(start+s.C.Choose(len(rs)))%len(rs)]
		}
		t := s.nextTimer()
		if t == nil {
			return nil
		}
		if t.at > s.now {
			s.now = t.at
		}
		s.Steps++
		if s.Steps > s.MaxSteps {
			return nil
		}
		s.fireDue()
	}
}

// passOn gives the baton to the next task; the caller's goroutine must be
// ending.
func (s *Sim) passOn() {
	n := s.pick()
	if s.Violation != nil || n == nil {
		if s.Violation == nil {
			s.stuck()
		}
		s.abortFrom()
		return
	}
	s.resume(n)
	n.wake <- struct{}{}
}

func (s *Sim) stuck() {
	class := "deadlock"
	if s.Steps > s.MaxSteps {
		class = "livelock"
	}
	s.Violation = &Violation{class, fmt.Sprintf("nothing can ever run again at simulated time %s; tasks:\n%s", s.NowDur(), s.Dump())}
}

func (s *Sim) resume(n *Task) {
	if n != s.cur {
		s.Switches++
		s.sched(int64(n.id))
	}
	s.cur = n
	n.ready = nil
	n.desc = ""
}

// reschedule gives up the baton until picked again.
func (s *Sim) reschedule() {
	cur := s.cur
	s.account()
	if s.Steps > s.MaxSteps {
		s.arm()
		s.tooLong()
	}
	n := s.pick()
	if s.Violation != nil {
		s.abort()
	}
	if n == nil {
		s.stuck()
		s.abort()
	}
	s.resume(n)
	if n != cur {
		n.wake <- struct{}{}
		<-cur.wake
		if s.dying || cur.killed {
			if cur == s.tasks[0] {
				panic(abortRun{})
			}
			runtime.Goexit()
		}
	}
	s.arm()
}

// yield lets another task run; the current one stays runnable.
func (s *Sim) yield() {
	if s.nested > 0 {
		return
	}
	s.reschedule()
}

// Yield is an explicit scheduling decision.
func Yield() {
	if S != nil && S.cur != nil {
		S.checkKilled()
		S.account()
		S.fireDue()
		S.yield()
	}
}

// Block blocks the current task until ready returns true.
func (s *Sim) Block(desc string, ready func() bool) {
	s.checkKilled()
	if s.nested > 0 {
		panic("sim: blocking in event context: " + desc)
	}
	for !ready() {
		t := s.cur
		t.desc = desc
		t.ready = ready
		t.blocked = s.now
		s.reschedule()
	}
}

// WaitUntil blocks a harness task until cond holds or d nanoseconds of
// simulated time have passed; reports whether cond held.
func (s *Sim) WaitUntil(desc string, d int64, cond func() bool) bool {
	s.Now()
	deadline := s.now + d
	expired := false
	tm := s.At(deadline, func() { expired = true })
	s.Block(desc, func() bool { return expired || cond() })
	s.Cancel(tm)
	return cond()
}

// Sleep blocks the current task for d nanoseconds.
func (s *Sim) Sleep(d int64) {
	s.checkKilled()
	if d <= 0 {
		Yield()
		return
	}
	s.Now()
	fired := false
	s.At(s.now+d, func() { fired = true })
	s.Block("sleep", func() bool { return fired })
}

// Settle runs everything else until nothing but the caller can run and no
// timer is due before d nanoseconds have passed.
func (s *Sim) Settle(d int64) { s.Sleep(d) }

// Dump describes all live tasks.
func (s *Sim) Dump() string {
	var b strings.Builder
	for _, t := range s.live {
		if t.done || t.killed {
			continue
		}
		st := "runnable"
		if t.ready != nil {
			st = "blocked in " + t.desc + " since " + fmt.Sprintf("%d.%06dms", t.blocked/1e6, t.blocked%1e6)
		}
		if t == s.cur {
			st += " (current)"
		}
		if t.proc != nil && t.proc.Stopped {
			st += " (process stopped)"
		}
		fmt.Fprintf(&b, "  %s: %s\n", t.name, st)
	}
	return b.String()
}

// BlockedTasks lists program tasks that are still alive.
func (s *Sim) ProgramTasks() []string {
	var r []string
	for _, t := range s.live {
		if !t.done && !t.killed && !t.harness {
			d := t.desc
			if t.ready == nil {
				d = "runnable"
			}
			r = append(r, t.name+" ("+d+")")
		}
	}
	return r
}

// ---- timers

// Timer is a scheduled event.
type Timer struct {
	at  int64
	seq uint64
	fn  func()
	idx int
}

func (s *Sim) timerLess(a, b *Timer) bool {
	return a.at < b.at || (a.at == b.at && a.seq < b.seq)
}

// At schedules fn at the given simulated time (since start).
func (s *Sim) At(at int64, fn func()) *Timer {
	s.timerSeq++
	t := &Timer{at: at, seq: s.timerSeq, fn: fn}
	s.timers = append(s.timers, t)
	i := len(s.timers) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !s.timerLess(s.timers[i], s.timers[p]) {
			break
		}
		s.timers[i], s.timers[p] = s.timers[p], s.timers[i]
		s.timers[i].idx, s.timers[p].idx = i, p
		i = p
	}
	t.idx = i
	if s.cur != nil && s.nested == 0 {
		s.account()
		s.arm()
	}
	return t
}

// After schedules fn d nanoseconds from now.
func (s *Sim) After(d int64, fn func()) *Timer {
	s.Now()
	return s.At(s.now+d, fn)
}

// Cancel removes a timer; reports whether it was still pending.
func (s *Sim) Cancel(t *Timer) bool {
	if t == nil || t.idx < 0 || t.idx >= len(s.timers) || s.timers[t.idx] != t {
		return false
	}
	s.removeTimer(t.idx)
	return true
}

func (s *Sim) removeTimer(i int) *Timer {
	t := s.timers[i]
	n := len(s.timers) - 1
	if i != n {
		s.timers[i] = s.timers[n]
		s.timers[i].idx = i
	}
	s.timers[n] = nil
	s.timers = s.timers[:n]
	if i < n {
		// sift down then up
		j := i
		for {
			l := 2*j + 1
			if l >= n {
				break
			}
			if r := l + 1; r < n && s.timerLess(s.timers[r], s.timers[l]) {
				l = r
			}
			if !s.timerLess(s.timers[l], s.timers[j]) {
				break
			}
			s.timers[l], s.timers[j] = s.timers[j], s.timers[l]
			s.timers[l].idx, s.timers[j].idx = l, j
			j = l
		}
		for j > 0 {
			p := (j - 1) / 2
			if !s.timerLess(s.timers[j], s.timers[p]) {
				break
			}
			s.timers[j], s.timers[p] = s.timers[p], s.timers[j]
			s.timers[j].idx, s.timers[p].idx = j, p
			j = p
		}
	}
	t.idx = -1
	return t
}

func (s *Sim) nextTimer() *Timer {
	if len(s.timers) == 0 {
		return nil
	}
	return s.timers[0]
}

// Timers is the number of pending timers.
func (s *Sim) Timers() int { return len(s.timers) }

func (s *Sim) fireDue() {
	for {
		t := s.nextTimer()
		if t == nil || t.at > s.now {
			return
		}
		s.removeTimer(0)
		s.nested++
		t.fn()
		s.nested--
	}
}

// ---- tracing

func (s *Sim) ev(kind string, vals ...int64) {
	for i := 0; i < len(kind); i++ {
		s.hash = (s.hash ^ uint64(kind[i])) * 1099511628211
	}
	for _, v := range vals {
		s.hash = (s.hash ^ uint64(v)) * 1099511628211
	}
}

func (s *Sim) sched(v int64) {
	s.schedH = (s.schedH ^ uint64(v)) * 1099511628211
	s.hash = (s.hash ^ uint64(v) ^ uint64(s.now)) * 1099511628211
}

// Hash identifies the execution.
func (s *Sim) Hash() uint64 { return s.hash ^ uint64(s.Steps)*31 ^ uint64(s.now) }

// SchedHash identifies the interleaving (task switch and event order).
func (s *Sim) SchedHash() uint64 { return s.schedH }

// MixBytes folds observed bytes into the execution hash.
func (s *Sim) MixBytes(b []byte) {
	for _, c := range b {
		s.hash = (s.hash ^ uint64(c)) * 1099511628211
	}
}

// Quietly formats something without that costing any steps.
func (s *Sim) Quietly(f func() string) string {
	left := Left
	Left = 1 << 60
	s.nested++
	defer func() {
		s.nested--
		Left = left
	}()
	return f()
}

// Tracef records a line of the event log, in verbose runs.
func (s *Sim) Tracef(format string, args ...interface{}) {
	if s.Verbose {
		name := "-"
		if s.cur != nil {
			name = s.cur.name
			if s.nested > 0 {
				name = "event"
			}
		}
		// formatting may run program code
		msg := s.Quietly(func() string { return fmt.Sprintf(format, args...) })
		s.Log = append(s.Log, fmt.Sprintf("%12s %-14s %s", s.NowDur(), name, msg))
	}
}

// Fault counts a fault that actually happened.
func (s *Sim) Fault(kind string) {
	s.Faults[kind]++
	s.ev("F" + kind)
	s.schedH = (s.schedH ^ uint64(len(kind))) * 1099511628211
	s.Tracef("fault %s", kind)
}

// Probe counts a rare condition that was reached.
func (s *Sim) Probe(kind string) { s.Probes[kind]++ }

// Cur returns the current task's name.
func (s *Sim) Cur() string {
	if s.cur == nil {
		return "-"
	}
	return s.cur.name
}

// InProgram runs fn as the main task of process p and returns a handle.
func (s *Sim) StartProc(p *Proc, name string, fn func()) *Task {
	return s.Spawn(name, p, fn)
}

// Done reports whether a task has ended.
func (t *Task) Done() bool { return t.done || t.killed }

// Name returns the task's name.
func (t *Task) Name() string { return t.name }

// Choose draws a choice; 0 is the most boring.
func (s *Sim) Choose(n int) int { return s.C.Choose(n) }

// Pct is true with probability p percent; false is boring.
func (s *Sim) Pct(p int) bool {
	if p <= 0 {
		return false
	}
	return s.C.Choose(100) >= 100-p
}

// Between draws from [lo, hi], lo being boring.
func (s *Sim) Between(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.C.Choose(hi-lo+1)
}
