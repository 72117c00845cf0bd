package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	simlog "github.com/jcorbin/anansi/zz/shim/log"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C14", Quick: 800000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws goroutines that log messages of various sizes and shapes (whole lines, several lines, unterminated), readers of the in-memory log, and a loop that attaches, replaces and detaches log files, " +
			"starts, notifies and stops the worker, under schedule preemption, slow disks, and write errors, short writes and full disks; non-trivial if messages were logged while the worker was running",
		Real: []string{"platform.LogSink (x/platform/log.go)", "background worker protocol (x/platform/bg.go)"}, Stub: kernelStub, Fn: scenC14,
	})
	register(&Scenario{
		ID: "C15", Quick: 500000, Thorough: 10000000, MaxSteps: 2000000,
		Rule: "each run draws a platform session (frame rate, timing, telemetry and log files, suspends, several Run calls, background loggers) with slow disks, write errors, short writes and full disks at drawn points; 30% of the runs drive just a log worker with Write, Notify, Stop and Start on a disk that is slow, hangs or fails; " +
			"non-trivial if a worker wrote a file, or a call was made while it was busy",
		Real: []string{"platform.Platform.Run/RunWith, BackgroundWorkers, telemetryCollector, LogSink, Ticker, TimingData (x/platform)", "anansi.Term and everything below"}, Stub: append([]string{"profilers"}, kernelStub...), Fn: scenC15,
	})
	register(&Scenario{
		ID: "C16", Quick: 1500000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws a sequence of Enter, Exit and Wait calls on a Ticker, with pauses, late timers, and other goroutines that exit or enter it while a Wait is under way; non-trivial if a Wait met an exit or a tick was late",
		Real: []string{"platform.Ticker (x/platform/tick.go)"}, Stub: kernelStub, Fn: scenC16,
	})
}

// eolIndex is the line index of log contents.
func eolIndex(b []byte) (r []int) {
	for i, c := range b {
		if c == '\n' {
			r = append(r, i)
		}
	}
	if n := len(b); n > 0 && b[n-1] != '\n' {
		r = append(r, n)
	}
	return r
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// logMsg is a logged message.
type logMsg struct {
	b          string
	start, end int64 // event order; end is 0 while being logged
}

// fileFaults puts faults into writes to some files.
type fileFaults struct {
	r     *R
	on    bool
	pct   int
	short int
	slow  int
	errs  []syscall.Errno
	files map[*sim.Inode]bool
	hits  int
	seen  map[syscall.Errno]int
}

func (ff *fileFaults) op(op *sim.Op) {
	r := ff.r
	if op.Kind != "write" || op.OFD == nil || !ff.on {
		return
	}
	in := op.OFD.InodeOf()
	if in == nil || ff.files != nil && !ff.files[in] {
		return
	}
	if ff.slow > 0 && r.Pct(ff.slow) {
		r.S.Fault("disk.slow")
		r.S.Sleep(int64(r.Choose(200)) * 1e6)
	}
	switch {
	case ff.pct > 0 && r.Pct(ff.pct):
		op.Err = ff.errs[r.Choose(len(ff.errs))]
		if op.Len > 1 && r.Pct(40) {
			op.Limit = 1 + r.Choose(op.Len-1) // fails part way, or rather with the next write
			op.Err = 0
		}
	case ff.short > 0 && op.Len > 1 && r.Pct(ff.short):
		op.Limit = 1 + r.Choose(op.Len-1)
	}
}

func (ff *fileFaults) observe(op *sim.Op) {
	if op.Kind == "write" && op.OFD != nil && op.Res != 0 && op.OFD.InodeOf() != nil {
		ff.hits++
		if ff.seen == nil {
			ff.seen = make(map[syscall.Errno]int)
		}
		ff.seen[op.Res]++
	}
}

// onStack returns whether a function is being called.
func onStack(name string) bool {
	var pcs [64]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs[:])])
	for {
		f, more := fs.Next()
		if strings.HasSuffix(f.Function, name) {
			return true
		}
		if !more {
			return false
		}
	}
}

// ---- C14

func scenC14(r *R) {
	r.schedConfig()
	ff := &fileFaults{r: r, errs: []syscall.Errno{syscall.EIO, syscall.ENOSPC}}
	ff.on = true
	ff.pct = []int{0, 10, 40}[r.Pick(4, 1, 1)]
	ff.short = []int{0, 30}[r.Pick(2, 1)]
	ff.slow = []int{0, 30}[r.Pick(2, 1)]
	if r.Pct(10) {
		r.K.Space = int64(r.Choose(300))
	}
	r.K.OnOp = ff.op

	var sink platform.LogSink
	var msgs []*logMsg
	var clock int64
	tick := func() int64 { clock++; return clock }
	genMsg := func(task, i int) string {
		id := fmt.Sprintf("<%d.%d:", task, i)
		body := []string{"", " some text", strings.Repeat("x", 70), " a\nb", "\n", "é"}[r.Choose(6)]
		return id + body + ">" + []string{"\n", "\n", "\n", "", "\n\n"}[r.Choose(5)]
	}
	writers := r.Choose(4)
	left := writers
	inWrite := 0
	worked := false
	running := false
	putting := make(map[string]bool) // tasks in Write
	var leaving *bool                // whether the file left failed, by the SetFile under way
	direct0 := 0                     // write errors returned by Write
	r.K.Observe = func(op *sim.Op) {
		h := ff.hits
		ff.observe(op)
		if h != ff.hits && putting[r.S.Cur()] {
			direct0++
			ff.hits = h
			if leaving != nil {
				*leaving = true
			}
		}
	}
	put := func(task, i int, direct bool, l *simlog.Logger) {
		s := genMsg(task, i)
		if !direct && !strings.HasSuffix(s, "\n") {
			s += "\n" // as the logger does
		}
		m := &logMsg{b: s, start: tick()}
		msgs = append(msgs, m)
		inWrite++
		if running {
			worked = true
		}
		r.S.Tracef("task %d logs %q", task, s)
		putting[r.S.Cur()] = true
		if direct {
			d := direct0
			n, err := sink.Write([]byte(s))
			if n != len(s) || err != nil && d == direct0 {
				r.Fail("write", "Write(%q) returned %d, %v", s, n, err)
			}
		} else {
			l.Print(s)
		}
		delete(putting, r.S.Cur())
		inWrite--
		m.end = tick()
	}
	for w := 1; w <= writers; w++ {
		w := w
		n := 1 + r.Choose(8)
		gap := []int{0, 100, 20000}[r.Choose(3)]
		direct := r.Pct(50)
		r.S.Spawn(fmt.Sprintf("logger%d", w), r.K.Prog, func() {
			l := simlog.New(&sink, "", 0)
			for i := 0; i < n; i++ {
				put(w, i, direct, l)
				if gap > 0 {
					r.S.Sleep(int64(r.Choose(gap)) * 1000)
				}
			}
			left--
		})
	}

	// attachment of a file
	type attachment struct {
		name           string
		in             *sim.Inode
		t0, t1, t2, t3 int64 // SetFile called, returned; detaching called, returned
		failed         bool
	}
	var atts []*attachment
	var cur *attachment
	var consumed []byte // read out of the log

	check := func(a *attachment, data string, now int64, mem string) {
		// file content must be the messages of the attachment, whole and in
		// the order of the in-memory log
		i := strings.Index(mem, data)
		if i < 0 {
			r.Fail("file", "the file %s (writes failed: %v) holds %q, which is not part of the log %q", a.name, a.failed, data, mem)
		}
		if a.failed {
			return
		}
		for _, m := range msgs {
			in := strings.Contains(data, m.b)
			switch {
			case m.start > a.t1 && m.end != 0 && m.end < now && (a.t2 == 0 || m.end < a.t2) && !in:
				r.Fail("file-lost", "%q, logged while %s was attached, is not in the file; which holds %q, of the log %q", m.b, a.name, data, mem)
			case (m.end != 0 && m.end < a.t0 || a.t3 != 0 && m.start > a.t3) && in:
				r.Fail("file-extra", "%q, not logged while %s was attached, is in the file; which holds %q", m.b, a.name, data)
			}
			if strings.Count(data, m.b) > 1 {
				r.Fail("file-twice", "%q is in the file %s more than once: %q", m.b, a.name, data)
			}
			if k := strings.Index(data, m.b[:strings.IndexByte(m.b, 0x3a)+1]); k >= 0 && !in {
				r.Fail("file-torn", "%q is only partly in the file %s, which holds %q", m.b, a.name, data)
			}
		}
	}
	checkMem := func(quiet bool) string {
		t0 := tick()
		b, eols := sink.Contents()
		b = append([]byte(nil), b...)
		if want := eolIndex(b); !sameInts(eols, want) {
			r.Fail("eols", "the line index of %q is %v, want %v", b, eols, want)
		}
		mem := string(consumed) + string(b)
		if quiet {
			rest := len(mem)
			for _, m := range msgs {
				if strings.Count(mem, m.b) == 0 {
					r.Fail("memory", "%q is not in the log %q", m.b, mem)
				}
				rest -= len(m.b)
			}
			if rest != 0 {
				r.Fail("memory", "the log has %d bytes other than those logged: %q", rest, mem)
			}
		} else {
			for _, m := range msgs {
				if m.end != 0 && m.end < t0 && !strings.Contains(mem, m.b) {
					r.Fail("memory", "%q is not in the log %q", m.b, mem)
				}
			}
		}
		return mem
	}

	t := r.prog("main", 3600e9, func() {
		hitsSeen := 0 // faults that happened while attached and are not reported yet
		report := func(what string, err error) {
			if err != nil {
				r.S.Tracef("%s: %v", what, err)
				if ff.hits == 0 && direct0 == 0 {
					r.Fail("error", "%s failed with %v without a fault", what, err)
				}
				if cur != nil {
					cur.failed = true
				}
			}
			_ = hitsSeen
		}
		n := 0
		detach := func(f *simos.File, a *attachment) {
			hits := ff.hits
			if cur != nil {
				cur.t2 = tick()
			}
			if a != nil {
				a.t0 = tick()
			}
			prev := cur
			if prev != nil {
				leaving = &prev.failed
			}
			err := sink.SetFile(f)
			leaving = nil
			if prev != nil {
				prev.t3 = tick()
				if err != nil {
					prev.failed = true
				}
				if hits != ff.hits && err == nil {
					r.Fail("fault-hidden", "a write failed in SetFile, which returned nil")
				}
			}
			report("SetFile", err)
			if err == nil {
				cur = a
			} else {
				cur = nil
				_ = sink.SetFile(nil)
				running = false
			}
			if a != nil {
				a.t1 = tick()
			}
			if err == nil && a != nil {
				atts = append(atts, a)
				running = true
			}
			if f == nil {
				running = false
			}
		}
		newFile := func() {
			n++
			name := fmt.Sprintf("/log%d", n)
			f, err := simos.Create(name)
			if err != nil {
				r.Fail("create", "%v", err)
			}
			detach(f, &attachment{name: name, in: r.K.Disk[name]})
		}
		if r.Pct(70) {
			newFile()
		}
		pend := 0 // failed writes of the current attachment
		base := ff.hits
		reported := 0
		for step, steps := 0, 1+r.Choose(25); step < steps; step++ {
			if cur == nil || cur.failed {
				base, reported = ff.hits, 0
			}
			switch r.Pick(8, 4, 2, 3, 1, 1, 3, 2) {
			case 0:
				r.S.Sleep(int64(r.Choose(5000)) * 1000)
			case 1:
				err := sink.Notify()
				report("Notify", err)
			case 2:
				report("Start", sink.Start())
				running = cur != nil
			case 3:
				err := sink.Stop()
				report("Stop", err)
				if cur != nil && !cur.failed && ff.hits != base && err == nil {
					r.Fail("fault-hidden", "a write failed since the last Stop, and neither Notify nor Stop returned an error")
				}
				if running && cur != nil && !cur.failed && inWrite == 0 && ff.hits == base && direct0 == 0 {
					data, now := string(cur.in.Data), tick()
					check(cur, data, now, checkMem(false))
				}
				running = false
			case 4:
				newFile()
				base = ff.hits
			case 5:
				detach(nil, nil)
				base = ff.hits
			case 6:
				put(0, step, true, nil)
			case 7:
				if r.Pct(50) {
					p := make([]byte, []int{1, 10, 1000}[r.Choose(3)])
					k, err := sink.Read(p)
					if k == 0 && err != io.EOF || k > 0 && err != nil {
						r.Fail("read", "Read returned %d, %v", k, err)
					}
					consumed = append(consumed, p[:k]...)
				}
				checkMem(false)
			}
		}
		_, _ = pend, reported
		r.S.WaitUntil("loggers", 3000e9, func() bool { return left == 0 })
		err := sink.Stop()
		report("Stop", err)
		if cur != nil && !cur.failed && ff.hits != base && err == nil {
			r.Fail("fault-hidden", "a write failed since the last Stop, and neither Notify nor Stop returned an error")
		}
		mem := checkMem(true)
		for _, a := range atts {
			check(a, string(a.in.Data), tick(), mem)
		}
		if cur != nil && sink.Stop() == nil {
			// stopped, so that messages are written directly again, whatever
			// failed before
			ff.on, r.K.Space = false, -1
			put(0, 1000, true, nil)
			if m, data := msgs[len(msgs)-1].b, string(cur.in.Data); !strings.HasSuffix(data, m) {
				r.Fail("file-lost", "%q, logged after Stop, is not at the end of the file %s, which holds %q", m, cur.name, data)
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the program did not finish; tasks:\n%s", r.S.Dump())
	}
	r.S.Sleep(1e9)
	if cur == nil || !cur.failed {
		if ts := r.S.ProgramTasks(); len(ts) > 0 {
			r.Fail("leak", "goroutines left after Stop: %v", ts)
		}
	}
	r.Trivial = !worked
}

// ---- C16

func scenC16(r *R) {
	r.schedConfig()
	if r.Pct(40) {
		r.S.LatePct = []int{5, 50}[r.Choose(2)]
		r.S.LateMax = int64([]int{1e6, 40e6}[r.Choose(2)])
	}
	const d = int64(time.Second / 60)
	ct := &platform.Ticker{}
	slack := r.S.LateMax + 5e6
	var (
		active           bool
		known            = true // active is known
		mixed            bool   // changes overlapped
		enteredAt        int64
		got              int
		last             int64
		waiting          bool
		exits            int // completed exits by anyone
		changing         int // enters or exits under way
		enters           int
		nontrivial       bool
		lastExit, lastEn int64
	)
	begin := func() {
		changing++
		if changing > 1 {
			mixed = true
		}
	}
	finish := func(on bool) {
		changing--
		active, known = on, !mixed
		if changing == 0 {
			mixed = false
		}
	}
	enter := func() {
		begin()
		t0 := r.S.Elapsed()
		if err := ct.Enter(nil); err != nil {
			r.Fail("enter", "Enter returned %v", err)
		}
		enters++
		finish(true)
		enteredAt, got = t0, 0
		lastEn = r.S.Elapsed()
	}
	exit := func() {
		begin()
		if err := ct.Exit(nil); err != nil {
			r.Fail("exit", "Exit returned %v", err)
		}
		exits++
		finish(false)
		lastExit = r.S.Elapsed()
	}
	others := r.Pick(2, 1, 1) // nobody else, an exiter, an exiter and enterer
	done := false
	if others > 0 {
		r.S.Spawn("other", r.K.Prog, func() {
			for i := r.Choose(8); i >= 0 && !done; i-- {
				r.S.Sleep(int64(r.Choose(60)) * 1e6)
				if others == 2 && r.Pct(50) {
					enter()
				} else {
					if waiting {
						nontrivial = true
					}
					exit()
				}
			}
		})
	}
	t := r.prog("main", 3600e9, func() {
		for i := 1 + r.Choose(40); i > 0; i-- {
			switch r.Pick(10, 2, 2, 2) {
			case 0:
				was, ex0, en0, ch0 := active, exits, enters, changing
				t0 := r.S.Elapsed()
				a0 := r.S.Now()
				waiting = true
				v := ct.Wait()
				waiting = false
				now := r.S.Now()
				took := r.S.Elapsed() - t0
				quiet := known && ex0 == exits && en0 == enters && ch0 == 0 && changing == 0
				r.S.Tracef("Wait = %v after %d", v, took)
				if v.IsZero() {
					if quiet && was {
						r.Fail("zero", "Wait on an active ticker returned the zero time")
					}
					if quiet && took > 5e6 {
						r.Fail("slow-zero", "Wait on an inactive ticker took %d ns", took)
					}
					continue
				}
				if quiet && !was {
					r.Fail("tick-inactive", "Wait on an inactive ticker returned %v", v)
				}
				n := v.UnixNano()
				if n > now {
					r.Fail("future", "Wait returned %v, which is %d ns ahead", v, n-now)
				}
				if n < last {
					r.Fail("order", "Wait returned %v after a tick %d ns later", v, last-n)
				}
				last = n
				_ = a0
				if others < 2 {
					got++
					if int64(got)*(d-1) > r.S.Elapsed()-enteredAt {
						r.Fail("pace", "%d ticks in the %d ns since Enter, one takes %d", got, r.S.Elapsed()-enteredAt, d)
					}
				}
				if quiet && took > d+slack {
					r.Fail("late", "Wait took %d ns", took)
				}
				if took > d {
					nontrivial = true
				}
			case 1:
				enter()
				if others == 0 {
					last = 0
				}
			case 2:
				exit()
				if others == 0 && r.S.Tickers != 0 {
					r.Fail("timer", "%d timers are running after Exit", r.S.Tickers)
				}
			case 3:
				r.S.Sleep(int64(r.Choose(100)) * 1e6)
			}
		}
		done = true
		exit()
	})
	if !t.Done() {
		r.Fail("stuck", "the program did not finish (last Enter at %d, Exit at %d); tasks:\n%s", lastEn, lastExit, r.S.Dump())
	}
	r.S.Sleep(1e9)
	if known && !active && r.S.Tickers != 0 {
		r.Fail("timer", "%d timers are running after Exit", r.S.Tickers)
	}
	r.Trivial = !nontrivial && got == 0
}

// ---- C15

type telRecord struct {
	T      *int64            `json:"t"`
	Name   string            `json:"name"`
	Data   []json.RawMessage `json:"data"`
	Stalls []json.RawMessage `json:"stalls"`
}

func (r *R) checkTelemetry(data []byte, cut bool, start, end int64) int {
	lines := bytes.SplitAfter(data, []byte("\n"))
	last := int64(0)
	n := 0
	for i, l := range lines {
		if i == len(lines)-1 {
			if len(l) > 0 && !cut {
				r.Fail("telemetry", "the telemetry log ends in an incomplete record %q", l)
			}
			break
		}
		var rec telRecord
		if err := json.Unmarshal(l, &rec); err != nil || rec.T == nil || rec.Name == "" {
			r.Fail("telemetry", "malformed telemetry record %q: %v", l, err)
		}
		if *rec.T < last {
			r.Fail("telemetry-order", "telemetry record %q is %d ns older than the one before", l, last-*rec.T)
		}
		last = *rec.T
		if last < start || last > end {
			r.Fail("telemetry-time", "telemetry record %q is not of the session", l)
		}
		if len(rec.Data) == 0 && len(rec.Stalls) == 0 && rec.Name != "stalls" {
			r.Fail("telemetry", "telemetry record %q holds nothing", l)
		}
		n++
	}
	return n
}

var errClient = errors.New("client is done")

// scenC15Worker drives a worker (a log file's) directly, as a frame loop does,
// while its disk is slow, hangs or fails.
func scenC15Worker(r *R) {
	r.schedConfig()
	var (
		hang    bool // writes by the worker wait
		hung    bool // one does
		fail    syscall.Errno
		failed  int // faults not reported yet
		inWork  bool
		sink    platform.LogSink
		logged  strings.Builder
		faults  int
		slowPct = []int{0, 30, 80}[r.Choose(3)]
		failPct = []int{0, 5, 30}[r.Pick(3, 2, 1)]
		hangPct = []int{0, 10}[r.Choose(2)]
	)
	r.K.OnOp = func(op *sim.Op) {
		if op.Kind != "write" || op.OFD == nil || op.OFD.InodeOf() == nil {
			return
		}
		if onStack("(*LogSink).Write") {
			r.Fail("direct", "a message is written to the file by its logger, while the worker runs")
		}
		inWork = true
		if slowPct > 0 && r.Pct(slowPct) {
			r.S.Fault("disk.slow")
			r.S.Sleep(int64(200+r.Choose(2000)) * 1e6)
		}
		if hang {
			r.S.Fault("disk.hang")
			hung = true
			r.S.WaitUntil("disk", 5000e9, func() bool { return !hang })
			hung = false
		}
		if op.Len > 0 && failPct > 0 && r.Pct(failPct) {
			fail = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[r.Choose(2)]
			op.Err = fail
			faults++
			failed++
		}
		inWork = false
	}
	n := 2 + r.Choose(60)
	r.Descf("%d rounds, writes slow %d%%, fail %d%%, hang %d%%", n, slowPct, failPct, hangPct)
	busy := 0
	t := r.prog("app", 5000e9, func() {
		f, err := simos.Create("/worker.log")
		if err != nil {
			r.Fail("trouble", "%v", err)
		}
		timed := func(what string, fn func()) {
			t0, was := r.S.Elapsed(), inWork || hung
			fn()
			if took := r.S.Elapsed() - t0; took > 50e6 {
				r.Fail("blocked", "%s took %d ns, waiting for the worker", what, took)
			}
			if was {
				busy++
			}
		}
		running := false
		notified := 0
		broken := false // content may have been lost
		got := func(what string, err error) {
			if err == nil {
				return
			}
			r.S.Tracef("%s: %v", what, err)
			if failed == 0 {
				r.Fail("error-twice", "%s returned %v, but each failed write was reported before", what, err)
			}
			if en := errnoOf(err); en != fail && failed == 1 {
				r.Fail("wrong-error", "%s returned %v, the write failed with %v", what, err, fail)
			}
			failed = 0
			broken = true
		}
		put := func(s string) {
			logged.WriteString(s)
			timed("Write", func() {
				if n, err := sink.Write([]byte(s)); n != len(s) || err != nil {
					r.Fail("write", "Write(%q) returned %d, %v", s, n, err)
				}
			})
		}
		stop := func() {
			if hang {
				d := int64(r.Choose(3000)) * 1e6
				r.S.After(d, func() { hang = false })
			}
			t0 := r.S.Elapsed()
			before := failed
			err := sink.Stop()
			running = false
			if took := r.S.Elapsed() - t0; took > 30e9 {
				r.Fail("stop-late", "Stop took %d ns", took)
			}
			got("Stop", err)
			if before > 0 && err == nil || failed > 0 {
				r.Fail("fault-hidden", "a write of the worker failed, but neither Notify nor Stop returned an error")
			}
			data, _ := r.K.File("/worker.log")
			if !broken && string(data) != logged.String() {
				r.Fail("unprocessed", "after Stop the file holds %q, want %q", tail(data, 200), tail([]byte(logged.String()), 200))
			}
			r.S.Sleep(50e6)
			if ts := r.S.ProgramTasks(); len(ts) > 1 {
				r.Fail("leak", "goroutines left after Stop: %v", ts)
			}
		}
		if err := sink.SetFile(f); err != nil {
			r.Fail("setfile", "SetFile returned %v", err)
		}
		running = true
		for i := 0; i < n; i++ {
			switch r.Pick(6, 6, 1, 4) {
			case 0:
				put(fmt.Sprintf("message %d\n", i))
			case 1:
				if hangPct > 0 && r.Pct(hangPct) {
					hang = !hang
				}
				timed("Notify", func() { got("Notify", sink.Notify()) })
				notified = logged.Len()
			case 2:
				stop()
				if r.Pct(30) { // stopped twice
					stop()
				}
				if err := sink.Start(); err != nil {
					r.Fail("start", "Start returned %v", err)
				}
				running = true
			case 3:
				r.S.Sleep(int64(r.Choose(300)) * 1e6)
				if !hang && !broken && r.Pct(20) {
					r.S.Sleep(20e9)
					data, _ := r.K.File("/worker.log")
					if failed == 0 && len(data) < notified {
						r.Fail("not-done", "20 s after the last Notify the file holds %d bytes, %d were logged by then", len(data), notified)
					}
				}
			}
		}
		_ = running
		stop()
	})
	if !t.Done() {
		r.Fail("stuck", "the program did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = busy == 0
}

func scenC15(r *R) {
	if r.Pct(30) {
		scenC15Worker(r)
		return
	}
	r.schedConfig()
	r.K.MaxSigDelay = 2e6
	cols, rows := 4+r.Choose(20), 2+r.Choose(4)
	tty, _ := r.stdTTY(cols, rows)
	r.K.Tty = tty
	slow := r.Pct(30)
	if slow {
		r.slowTTY(tty)
	}
	v := newVT(cols, rows)
	tty.Sink = func(b []byte) { v.Write(b) }
	ff := &fileFaults{r: r}
	ff.on = true
	ff.pct = []int{0, 3, 30}[r.Pick(3, 1, 1)]
	ff.short = []int{0, 30}[r.Pick(2, 1)]
	ff.slow = []int{0, 30}[r.Pick(2, 1)]
	ff.errs = []syscall.Errno{syscall.EIO, syscall.ENOSPC}
	space := r.Pct(10)
	workerHits := 0 // other faults may be met by a log message that is written directly, and only reported to its writer
	r.K.OnOp = ff.op
	r.K.Observe = func(op *sim.Op) {
		h := ff.hits
		ff.observe(op)
		if h != ff.hits && strings.Contains(r.S.Cur(), ".go#") && !onStack("(*LogSink).Write") {
			workerHits++
		}
	}
	fps := []int{60, 3, 10, 20, 1}[r.Pick(1, 2, 2, 2, 1)]
	cfg := platform.Config{}
	if r.Pct(75) {
		cfg.LogFileName = "/p.log"
	}
	if r.Pct(75) {
		cfg.TelemetryLogFileName = "/telemetry.log"
	}
	cfg.StartTiming = r.Pct(50)
	cfg.LogTiming = r.Pct(60)
	frames := 1 + r.Choose([]int{5, 20, 60}[r.Pick(2, 2, 1)])
	runs := 1 + r.Choose(3)
	suspendPct := []int{0, 10}[r.Pick(2, 1)]
	stalls := r.Pct(30)
	chatty := r.Choose(3)
	r.Descf("%d fps, %d frames, %d runs, files %q %q, timing %v log %v, faults %d%%", fps, frames, runs, cfg.LogFileName, cfg.TelemetryLogFileName, cfg.StartTiming, cfg.LogTiming, ff.pct)
	_ = rows

	var memAt int // in-memory log size when logging began
	var runErrs []error
	start := r.S.Now()
	var done, stopLogging bool
	suspends := 0
	r.K.OnStop = func(p *sim.Proc) {
		r.S.After(int64(1+r.Choose(2000))*1e6, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	var lastFrame int64
	reported := func() (n int) {
		for _, e := range runErrs {
			if en := errnoOf(e); en == syscall.EIO || en == syscall.ENOSPC {
				n++
			}
		}
		return n
	}
	var rwErr error
	t := r.prog("app", 4000e9, func() {
		p, err := platform.New(simos.Stdin, simos.Stdout, cfg, platform.FrameRate(fps))
		if err != nil {
			if ff.hits == 0 {
				r.Fail("new", "New failed with %v without a fault", err)
			}
			done = true
			return
		}
		if space {
			r.K.Space = int64(r.Choose(3000))
		}
		if stalls {
			p.SetStallTracking(true)
			p.LogStallData = true
		}
		for i := 0; i < chatty; i++ {
			i := i
			r.S.Spawn(fmt.Sprintf("chatter%d", i), r.K.Prog, func() {
				for k := 0; !stopLogging; k++ {
					simlog.Printf("chatter %d.%d", i, k)
					r.S.Sleep(int64(1+r.Choose(900)) * 1e6)
				}
			})
		}
		_ = memAt
		err = p.RunWith(func(p *platform.Platform) error {
			for i := 0; i < runs; i++ {
				n := 0
				lastFrame = r.S.Elapsed()
				err := p.Run(platform.ClientFunc(func(ctx *platform.Context) error {
					now := r.S.Elapsed()
					if gap := now - lastFrame; !slow && gap > int64(time.Second)/int64(fps)*2+3e9 {
						r.Fail("frame-blocked", "%d ns between frames", gap)
					}
					n++
					ctx.Output.Clear()
					ctx.Output.To(ansi.Pt(1, 1))
					fmt.Fprintf(ctx.Output, "%d", n)
					simlog.Printf("frame %d", n)
					if suspendPct > 0 && r.Pct(suspendPct) {
						suspends++
						if err := ctx.Suspend(); err != nil {
							r.S.Tracef("suspend: %v", err)
							i = runs // the terminal may not be entered any more
							return err
						}
					}
					lastFrame = r.S.Elapsed()
					if n >= frames {
						return errClient
					}
					return nil
				}))
				r.S.Tracef("Run: %v", err)
				if err != errClient {
					runErrs = append(runErrs, err)
					if err == nil {
						r.Fail("run-nil", "Run ended with nil")
					}
					if errnoOf(err) == 0 || ff.hits == 0 {
						r.Fail("run-error", "Run failed with %v without a fault", err)
					}
				}
			}
			return nil
		})
		r.S.Tracef("RunWith: %v", err)
		rwErr = err
		if err != nil {
			runErrs = append(runErrs, err)
			if errnoOf(err) == 0 || ff.hits == 0 {
				r.Fail("exit-error", "RunWith failed with %v without a fault", err)
			}
		}
		stopLogging = true
		r.S.Sleep(2e9)
		if ts := r.S.ProgramTasks(); len(ts) > 1 {
			sort.Strings(ts)
			r.Fail("leak", "goroutines left after RunWith: %v", ts)
		}
		done = true
		if workerHits > 0 && reported() == 0 {
			r.Fail("fault-hidden", "%d background writes failed, but no error was returned by Run or RunWith", workerHits)
		}
		if n := reported(); n > ff.hits {
			r.Fail("error-twice", "%d errors were returned, of %d failed writes: %v", n, ff.hits, runErrs)
		}
		if ff.hits == 0 && cfg.LogFileName != "" {
			// chatter after the stop is written directly
			mem, eols := platform.Logs.Contents()
			if want := eolIndex(mem); !sameInts(eols, want) {
				r.Fail("eols", "the line index of the log is %v, want %v", eols, want)
			}
			file, _ := r.K.File("/p.log")
			if !bytes.HasSuffix(mem, file) && !bytes.Contains(mem, file) {
				r.Fail("log", "the log file holds %q, which is not part of the log %q", tail(file, 300), tail(mem, 300))
			}
			for _, l := range bytes.SplitAfter(mem, []byte("\n")) {
				if bytes.Contains(l, []byte("frame ")) && bytes.Count(file, l) == 0 {
					r.Fail("log-lost", "%q is not in the log file", l)
				}
			}
		}
	})
	if !t.Done() || !done {
		r.Fail("stuck", "the session did not finish; tasks:\n%s", r.S.Dump())
	}
	wrote := false
	if cfg.TelemetryLogFileName != "" {
		data, _ := r.K.File(cfg.TelemetryLogFileName)
		if ff.hits == 0 {
			n := r.checkTelemetry(data, false, start, r.S.Now())
			wrote = n > 0
		}
	}
	if tty.Termios != sim.DefaultTermios() {
		r.Fail("termios", "termios attributes were not restored")
	}
	_ = rwErr
	r.Trivial = !wrote && ff.hits == 0
}
