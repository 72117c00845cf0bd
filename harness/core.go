package main

import (
	"fmt"
	"sort"
	"strings"
	"syscall"

	simflag "github.com/jcorbin/anansi/zz/shim/flag"
	simlog "github.com/jcorbin/anansi/zz/shim/log"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

// Scenario is the simulation that decides one property.
type Scenario struct {
	ID       string
	Title    string
	Quick    int   // runs of a quick check
	Thorough int   // runs of a thorough check
	MaxSteps int64 // schedule points per run
	Rule     string
	Real     []string // components that run real code
	Stub     []string // components that are simulated
	Fn       func(r *R)
}

var scenarios = map[string]*Scenario{}

func register(sc *Scenario) { scenarios[sc.ID] = sc }

// R is one run of a scenario.
type R struct {
	S *sim.Sim
	K *sim.Kernel

	// Trivial marks a run in which nothing that could go wrong was exercised.
	Trivial bool
	Desc    []string
}

// Fail reports a violation and ends the run.
func (r *R) Fail(class, format string, args ...interface{}) { r.S.Fail(class, format, args...) }

// Descf describes the run, for samples and replay files.
func (r *R) Descf(format string, args ...interface{}) {
	if r.S.Verbose {
		r.Desc = append(r.Desc, r.S.Quietly(func() string { return fmt.Sprintf(format, args...) }))
		r.S.Tracef(format, args...)
	}
}

// Choose, Pct and Between draw from the run's choices.
func (r *R) Choose(n int) int       { return r.S.Choose(n) }
func (r *R) Pct(p int) bool         { return r.S.Pct(p) }
func (r *R) Between(lo, hi int) int { return r.S.Between(lo, hi) }

// Pick draws an index with the given weights; index 0 is the most boring.
func (r *R) Pick(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := r.S.Choose(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// schedConfig draws how the scheduler behaves in this run.
func (r *R) schedConfig() {
	r.S.PreemptK = []int{0, 4, 8, 12}[r.Pick(3, 3, 3, 2)]
	r.S.Slow = []int64{1000, 100, 20000}[r.Pick(6, 2, 2)]
	r.K.MaxSigDelay = []int64{0, 2e6, 50e6}[r.Pick(2, 3, 1)]
}

// runOutcome is what is kept of a run.
type runOutcome struct {
	S       *sim.Sim
	R       *R
	Choices []uint32
}

// runOnce executes one run from clean package state.
func runOnce(sc *Scenario, c *sim.Chooser, verbose bool) *runOutcome {
	simResetAll()
	simos.SimReset()
	simlog.SimReset()
	simflag.SimReset()
	r := &R{}
	s := sim.Run(c, sc.MaxSteps, verbose, func(s *sim.Sim) {
		r.S, r.K = s, s.K
		sc.Fn(r)
	})
	if s.Violation == nil && c.Overrun {
		s.Trouble = "run too long to record"
	}
	return &runOutcome{S: s, R: r, Choices: c.Rec}
}

func salt(id string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(id); i++ {
		h = (h ^ uint64(id[i])) * 1099511628211
	}
	return h
}

func newChooser(sc *Scenario, seed, run uint64) *sim.Chooser {
	return sim.NewRandom(seed^salt(sc.ID), run)
}

func sortedCounts(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fmtCounts(m map[string]int64) string {
	var b strings.Builder
	for _, k := range sortedCounts(m) {
		fmt.Fprintf(&b, " %s=%d", k, m[k])
	}
	return b.String()
}

// ---- common environment

// stdTTY gives the program a terminal on descriptors 0, 1 and 2.
func (r *R) stdTTY(cols, rows int) (*sim.TTY, *sim.OFD) {
	t := r.K.NewTTY("tty", cols, rows)
	o := r.K.NewOFD("tty", t, syscall.O_RDWR|0x8000)
	r.K.Install(0, o)
	r.K.Install(1, o)
	r.K.Install(2, o)
	return t, o
}

// prog runs fn as the program's main task and waits for it to end, at most d
// of simulated time.
func (r *R) prog(name string, d int64, fn func()) *sim.Task {
	t := r.S.StartProc(r.K.Prog, name, fn)
	r.S.WaitUntil("program", d, t.Done)
	return t
}

// zeroSize has a terminal of w by h say, now and then and for a while, that it
// has no columns or no rows.
func (r *R) zeroSize(tty *sim.TTY, w, h int) {
	if !r.Pct(6) {
		return
	}
	switch r.S.Fault("resize.zero"); r.Choose(3) {
	case 0:
		tty.Resize(0, 0)
	case 1:
		tty.Resize(0, h)
	case 2:
		tty.Resize(w, 0)
	}
	r.S.Sleep(int64(r.Choose(100)) * 1e6)
}

// newSize draws a size for a screen of w by h to be resized to; often one with
// as many cells, or that differs in just one direction.
func (r *R) newSize(w, h, minW, maxW, minH, maxH int) (int, int) {
	switch r.Pick(4, 2, 1, 1) {
	case 1:
		var ws []int
		for a := minW; a <= maxW; a++ {
			if a != w && w*h%a == 0 && w*h/a >= minH && w*h/a <= maxH {
				ws = append(ws, a)
			}
		}
		if len(ws) > 0 {
			a := ws[r.Choose(len(ws))]
			return a, w * h / a
		}
	case 2:
		return w, minH + r.Choose(maxH-minH+1)
	case 3:
		return minW + r.Choose(maxW-minW+1), h
	}
	return minW + r.Choose(maxW-minW+1), minH + r.Choose(maxH-minH+1)
}
