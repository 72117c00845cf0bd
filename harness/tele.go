package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C24", Quick: 200000, Thorough: 6000000, MaxSteps: 8000000,
		Rule: "each run draws a frame rate, what is measured and logged (and when the client changes that), a slow terminal, late ticks, suspends, a slow or failing disk; non-trivial if a timing period was completed",
		Real: platReal, Stub: kernelStub, Fn: scenC24,
	})
}

// period is a round of frames that were timed.
type period struct {
	end int64 // time of its last frame
	ds  []int64
}

// timingModel is a reference for the frame timing.
type timingModel struct {
	n       int // frames per period
	ts      []int64
	prevEnd int64
	stats   platform.TimingStats
	logged  []period // to be logged
}

// frame adds a frame, and returns true only if it completes a period.
func (m *timingModel) frame(t int64, logging bool) bool {
	m.ts = append(m.ts, t)
	if len(m.ts) < m.n {
		return false
	}
	p := period{end: t}
	var sum int64
	for _, t := range m.ts {
		d := int64(0)
		if m.prevEnd != 0 {
			d = t - m.prevEnd
		}
		m.prevEnd = t
		p.ds = append(p.ds, d)
		sum += d
	}
	m.ts = nil
	st := platform.TimingStats{Time: time.Unix(0, t), Elapsed: time.Duration(sum)}
	first := true
	for _, d := range p.ds {
		if d := time.Duration(d); d > 0 {
			if first || st.Min > d {
				st.Min = d
			}
			if first || st.Max < d {
				st.Max = d
			}
			first = false
		}
	}
	st.FPS = float64(m.n) / float64(sum) * 1e9
	sort.Slice(p.ds, func(i, j int) bool { return p.ds[i] < p.ds[j] })
	q := m.n / 4
	st.Q1, st.Q2, st.Q3 = time.Duration(p.ds[q]), time.Duration(p.ds[2*q]), time.Duration(p.ds[3*q])
	m.stats = st
	if logging {
		m.logged = append(m.logged, p)
	}
	return true
}

func (m *timingModel) reset() { m.ts, m.prevEnd, m.stats = nil, 0, platform.TimingStats{} }

func sameStats(a, b platform.TimingStats) bool {
	if a.FPS != b.FPS && math.Abs(a.FPS-b.FPS) > 1e-6*math.Abs(b.FPS) {
		return false
	}
	a.FPS, b.FPS = 0, 0
	same := a.Time.Equal(b.Time) || a.Time.IsZero() && b.Time.IsZero()
	a.Time, b.Time = time.Time{}, time.Time{}
	return same && a == b
}

// usagePeriods is what the resource usage at the time t is reported over: the
// longest periods of up to 1, 2, … 8 s, as far as there were frames; unless
// there was too long a break between frames to tell.
func usagePeriods(times []int64, t int64) (ds []int64, ok bool) {
	j := slices.Index(times, t)
	for k := int64(1); k <= 8; k++ {
		i := j
		for i > 0 && t-times[i-1] <= k*1e9 {
			if i--; times[i+1]-times[i] > 9e8 {
				return nil, false
			}
		}
		if i > 0 && times[i]-times[i-1] > 9e8 {
			return nil, false
		}
		if i < j {
			ds = append(ds, t-times[i])
		}
		if i == 0 {
			break
		}
	}
	return ds, true
}

// stall is a stalled write to the terminal.
type stall struct {
	from        int64 // when a write failed with EAGAIN
	begun, done int64 // when the blocking write of it began and ended
	hi          int64 // at most as long
	loose       bool
}

func (st *stall) close(now int64) {
	if st.hi == 0 {
		st.hi = now - st.from
	}
}

// lo is the least duration.
func (st stall) lo() int64 {
	if st.loose || st.done < st.begun {
		return 1
	}
	return st.done - st.begun
}

func (st stall) String() string { return fmt.Sprintf("%d..%d", st.lo(), st.hi) }

// stallSnap is what was to be logged as of a frame.
type stallSnap struct {
	t      int64
	stalls []stall
}

// stallsAre tells how statistics are not of the stalls.
func stallsAre(sts []stall, st platform.StallsStats) string {
	if st.N != len(sts) || st.N == 0 {
		return ""
	}
	var sumLo, sumHi int64
	minLo, minHi, maxLo, maxHi := sts[0].lo(), sts[0].hi, sts[0].lo(), sts[0].hi
	for _, s := range sts {
		sumLo, sumHi = sumLo+s.lo(), sumHi+s.hi
		minLo, minHi = min(minLo, s.lo()), min(minHi, s.hi)
		maxLo, maxHi = max(maxLo, s.lo()), max(maxHi, s.hi)
	}
	switch {
	case int64(st.Sum) < sumLo || int64(st.Sum) > sumHi:
		return fmt.Sprintf("the sum of %v is %d to %d", sts, sumLo, sumHi)
	case int64(st.Min) < minLo || int64(st.Min) > minHi:
		return fmt.Sprintf("the least of %v is %d to %d", sts, minLo, minHi)
	case int64(st.Max) < maxLo || int64(st.Max) > maxHi:
		return fmt.Sprintf("the longest of %v is %d to %d", sts, maxLo, maxHi)
	}
	return ""
}

func scenC24(r *R) {
	r.schedConfig()
	r.K.MaxSigDelay = 2e6
	cols, rows := 4+r.Choose(16), 1+r.Choose(4)
	tty, ofd := r.stdTTY(cols, rows)
	r.K.Tty = tty
	if r.Pct(40) {
		r.slowTTY(tty)
	}
	if r.Pct(50) {
		ofd.Flags |= syscall.O_NONBLOCK
	}
	tty.Sink = func(b []byte) {}
	if r.Pct(30) {
		r.S.LatePct, r.S.LateMax = 20, int64([]int{1e6, 60e6}[r.Choose(2)])
	}
	fps := []int{60, 30, 12, 8, 7, 4, 1}[r.Pick(2, 2, 2, 1, 1, 1, 1)]
	n := fps / 4
	if n < 1 {
		n = 1
	}
	ff := &fileFaults{r: r, on: true}
	ff.pct = []int{0, 5}[r.Pick(4, 1)]
	ff.short = []int{0, 30}[r.Pick(2, 1)]
	ff.slow = []int{0, 30}[r.Pick(2, 1)]
	ff.errs = []syscall.Errno{syscall.EIO, syscall.ENOSPC}
	rusagePct := []int{0, 2}[r.Pick(8, 1)]
	rusageErr := false
	again := 0
	var (
		held      []stall // since the frame before
		suspended bool
		failedAt  int64 // when writing the telemetry log failed
	)
	r.K.OnOp = func(op *sim.Op) {
		if n := len(held) - 1; n >= 0 && op.Kind == "write" && op.OFD == ofd && held[n].begun == 0 {
			held[n].begun = r.S.Now()
		}
		if op.Kind == "getrusage" && r.Pct(rusagePct) {
			op.Err = syscall.EINVAL
			rusageErr = true
			return
		}
		ff.op(op)
	}
	r.K.Observe = func(op *sim.Op) {
		ff.observe(op)
		switch n := len(held) - 1; {
		case op.Kind == "write" && op.OFD != nil && op.Res != 0 && op.OFD.InodeOf() != nil:
			if failedAt == 0 && op.OFD.InodeOf() == r.K.Disk["/telemetry.log"] {
				failedAt = r.S.Now()
			}
		case op.Kind != "write" || op.OFD != ofd:
		case op.Res == syscall.EAGAIN:
			again++
			if n >= 0 {
				held[n].close(r.S.Now())
			}
			held = append(held, stall{from: r.S.Now(), loose: suspended})
		case n >= 0 && ofd.Flags&syscall.O_NONBLOCK == 0:
			held[n].done = r.S.Now()
		}
	}
	cfg := platform.Config{StartTiming: r.Pct(50), LogTiming: r.Pct(60)}
	if r.Pct(70) {
		cfg.TelemetryLogFileName = "/telemetry.log"
	}
	if r.Pct(40) {
		cfg.LogFileName = "/p.log"
	}
	frames := n*r.Choose(5) + 1 + r.Choose(20)
	suspendPct := []int{0, 3}[r.Pick(2, 1)]
	changePct := []int{0, 5, 30}[r.Pick(2, 2, 1)]
	pausePct := []int{0, 5}[r.Pick(3, 1)]
	r.Descf("%d fps, %d frames, files %q %q, timing %v log %v, changes %d%%, suspends %d%%, write faults %d%%", fps, frames, cfg.TelemetryLogFileName, cfg.LogFileName, cfg.StartTiming, cfg.LogTiming, changePct, suspendPct, ff.pct)
	r.K.OnStop = func(p *sim.Proc) {
		r.S.After(int64(1+r.Choose(2000))*1e6, func() { r.K.Raise(p, syscall.SIGCONT) })
	}

	m := &timingModel{n: n}
	var (
		times             []int64 // of the frames
		enabled, logging  = cfg.StartTiming || cfg.LogTiming, cfg.LogTiming
		tracking          bool
		stalls, stallsWas int // recorded since consumed; as last reported
		est               = make([]float64, fps)
		paused            bool
		usage             = map[int64]int64{} // CPU time as of the frame at
		toggled           bool                // what is measured was changed
		logStalls         bool
		since             []stall // stalls recorded since consumed
		snaps             []stallSnap
		lastStats         platform.StallsStats
		after             int // frames since the log failed
	)
	var runErr, rwErr error
	ended := false
	frame := func(ctx *platform.Context) error {
		t := ctx.Platform.Time.UnixNano()
		// the model of what was collected before the frame
		est[len(times)%fps] = float64(time.Second) / float64(ctx.Platform.Time.Sub(ctx.LastTime))
		times = append(times, t)
		usage[t] = r.K.CPUTime
		if failedAt != 0 {
			if after++; after > 6 && r.S.Now() > failedAt+1e9/int64(fps)*6 {
				r.Fail("log-failed", "the telemetry log failed at %d, and %d frames later Run goes on", failedAt, after)
			}
		}
		if k := len(held) - 1; k >= 0 {
			held[k].close(r.S.Now())
		}
		if tracking {
			stalls = min(n, stalls+again)
			if since = append(since, held...); len(since) > n {
				since = since[:n]
			}
		}
		again, held = 0, nil
		if enabled || logging {
			full := m.frame(t, logging)
			if tracking {
				stallsWas = stalls
				if logStalls {
					snaps = append(snaps, stallSnap{t, append([]stall(nil), since...)})
				}
				if d := stallsAre(since, ctx.Stalls.Stats); d != "" {
					r.Fail("stalls", "frame %d has stall statistics %+v, %s", len(times), ctx.Stalls.Stats, d)
				}
				if st := ctx.Stalls.Stats; !lastStats.Time.IsZero() && !st.Time.Equal(lastStats.Time) {
					if want := float64(st.Sum) / float64(st.Time.Sub(lastStats.Time)); math.Abs(st.Pct-want) > 1e-6*want {
						r.Fail("stalls", "frame %d has stall statistics %+v, the ones before were %+v", len(times), st, lastStats)
					}
				}
				if full || stalls == n {
					stalls, since = 0, nil
				}
			}
		}
		lastStats = ctx.Stalls.Stats
		if !sameStats(ctx.Timing.Stats, m.stats) {
			r.Fail("stats", "frame %d has timing %+v, want %+v", len(times), ctx.Timing.Stats, m.stats)
		}
		var want float64
		for _, v := range est {
			want += v / float64(fps)
		}
		if got := ctx.FPSEstimate.Value; !paused && math.Abs(got-want) > 1e-6*want {
			r.Fail("estimate", "frame %d has the estimate %v, want %v", len(times), got, want)
		}
		if got := ctx.FPS(); enabled || logging {
			if got != ctx.Timing.Stats.FPS {
				r.Fail("fps", "FPS() is %v, %v was measured", got, ctx.Timing.Stats.FPS)
			}
		} else if got != ctx.FPSEstimate.Value {
			r.Fail("fps", "FPS() is %v, %v was estimated", got, ctx.FPSEstimate.Value)
		}
		if ss := ctx.Stalls.Stats; ss.N != stallsWas {
			r.Fail("stalls", "frame %d has %d stalls, want %d", len(times), ss.N, stallsWas)
		} else if ss.N > 0 && (ss.Min <= 0 || ss.Min > ss.Max || ss.Sum < ss.Min*time.Duration(ss.N) || ss.Sum > ss.Max*time.Duration(ss.N)) {
			r.Fail("stalls", "frame %d has stall statistics %+v", len(times), ss)
		}

		ctx.Output.Clear()
		ctx.Output.To(ansi.Pt(1, 1))
		fmt.Fprintf(ctx.Output, "%d", len(times))
		for k := r.Choose(cols * rows); k > 0; k-- {
			if i, ok := ctx.Output.CellOffset(ansi.Pt(1+r.Choose(cols), 1+r.Choose(rows))); ok {
				ctx.Output.Grid.Rune[i] = rune('a' + r.Choose(26))
			}
		}
		if len(times) >= frames {
			return errClient
		}
		for k := 2; k > 0 && r.Pct(changePct); k-- {
			toggled = true
			switch b := r.Pct(50); r.Choose(4) {
			case 0:
				ctx.SetTimingEnabled(b)
				if enabled != b {
					if enabled = b; !b && !logging {
						m.reset()
					}
				}
			case 1:
				ctx.Telemetry.LogTiming = b
				logging = b
			case 2:
				ctx.SetStallTracking(b)
				tracking, stalls, since = b, 0, nil
				if !b {
					stallsWas, lastStats = 0, platform.StallsStats{}
				}
			case 3:
				ctx.LogStallData = b
				logStalls = b
			}
		}
		if r.Pct(pausePct) {
			ctx.Paused = !ctx.Paused
			paused = true
		}
		if r.Pct(suspendPct) {
			suspended = true
			err := ctx.Suspend()
			suspended = false
			if err != nil {
				return err
			}
		}
		return nil
	}
	t := r.prog("app", 4000e9, func() {
		p, err := platform.New(simos.Stdin, simos.Stdout, cfg, platform.FrameRate(fps))
		if err != nil {
			if ff.hits == 0 {
				r.Fail("new", "New failed with %v without a fault", err)
			}
			ended = true
			return
		}
		rwErr = p.RunWith(func(p *platform.Platform) error {
			again = 0
			runErr = p.Run(platform.ClientFunc(frame))
			return runErr
		})
		r.S.Tracef("Run: %v; RunWith: %v", runErr, rwErr)
		ended = true
		en := errnoOf(rwErr)
		switch {
		case rwErr == errClient:
		case en == syscall.EINVAL && rusageErr:
		case (en == syscall.EIO || en == syscall.ENOSPC) && ff.hits > 0:
		default:
			r.Fail("run-error", "Run ended with %v; %d writes failed", rwErr, ff.hits)
		}
		if rusageErr && en != syscall.EINVAL && ff.hits == 0 {
			r.Fail("fault-hidden", "reading the resource usage failed, but Run ended with %v", rwErr)
		}
	})
	if !t.Done() || !ended {
		r.Fail("stuck", "the session did not finish; tasks:\n%s", r.S.Dump())
	}

	// what was logged
	next := 0
	match := func(ds []int64, t int64) {
		i := next
		for ; i < len(m.logged); i++ {
			if fmt.Sprint(m.logged[i].ds) == fmt.Sprint(ds) && (t == 0 || i == len(m.logged)-1 || m.logged[i+1].end > t) {
				break
			}
			if n >= 4 && ff.hits == 0 {
				r.Fail("timing", "the frame times %v were logged, want %v, of the period %d to %d", ds, m.logged[i].ds, i, m.logged[i].end)
			}
		}
		if i == len(m.logged) {
			r.Fail("timing", "the frame times %v were logged, which are not of any period after %d of %v", ds, next, m.logged)
		}
		next = i + 1
		if t != 0 && t < m.logged[i].end {
			r.Fail("timing-t", "the frame times of the period to %d were logged with time %d", m.logged[i].end, t)
		}
	}
	if cfg.TelemetryLogFileName != "" {
		data, _ := r.K.File(cfg.TelemetryLogFileName)
		end := int64(0) // a frame may have failed before it got to the client
		if len(times) > 0 {
			if end = times[len(times)-1]; rusageErr {
				end = r.S.Now()
			}
			r.checkTelemetry(data, ff.hits > 0, times[0], end)
		} else if len(data) > 0 {
			r.Fail("telemetry", "the telemetry log of no frames is %q", tail(data, 100))
		}
		isFrame := map[int64]bool{}
		for _, t := range times {
			isFrame[t] = true
		}
		lastRusage := int64(0)
		for _, l := range bytes.SplitAfter(data, []byte("\n")) {
			if !bytes.HasSuffix(l, []byte("\n")) {
				break
			}
			var rec struct {
				T      int64
				Name   string
				Data   json.RawMessage
				Stalls []int64
			}
			if err := json.Unmarshal(l, &rec); err != nil || !isFrame[rec.T] && rec.T <= times[len(times)-1] {
				r.Fail("telemetry", "bad telemetry record %q: %v", l, err)
			}
			switch rec.Name {
			case "timing":
				var ds []int64
				if err := json.Unmarshal(rec.Data, &ds); err != nil {
					r.Fail("telemetry", "bad telemetry record %q: %v", l, err)
				}
				match(ds, rec.T)
			case "stalls":
				for _, d := range rec.Stalls {
					if d <= 0 {
						r.Fail("telemetry", "bad stall in %q", l)
					}
				}
				if len(rec.Stalls) > n {
					r.Fail("telemetry", "too many stalls in %q", l)
				}
				k := len(snaps)
				for k > 0 && snaps[k-1].t > rec.T {
					k--
				}
				if k == 0 {
					r.Fail("stall-log", "record %q is of no frame whose stalls were to be logged", l)
				}
				r.S.Probe("stall records")
				sn := snaps[k-1]
				bad := len(sn.stalls) != len(rec.Stalls)
				for i := 0; i < len(sn.stalls) && !bad; i++ {
					bad = rec.Stalls[i] < sn.stalls[i].lo() || rec.Stalls[i] > sn.stalls[i].hi
				}
				if bad {
					r.Fail("stall-log", "record %q has not the stalls of the frame at %d, %v", l, sn.t, sn.stalls)
				}
			case "rusage_delta":
				var ds []struct{ Dt, Utime, Stime int64 }
				if err := json.Unmarshal(rec.Data, &ds); err != nil || len(ds) == 0 || len(ds) > 8 {
					r.Fail("telemetry", "bad telemetry record %q: %v", l, err)
				}
				for i, d := range ds {
					if d.Dt <= 0 || isFrame[rec.T] && !isFrame[rec.T-d.Dt] || d.Utime < 0 || d.Stime < 0 || i > 0 && (d.Dt <= ds[i-1].Dt || d.Utime < ds[i-1].Utime || d.Stime < ds[i-1].Stime) {
						r.Fail("rusage", "bad usage %d in %q", i, l)
					}
				}
				if end, ok := usage[rec.T]; ok {
					for i, d := range ds {
						from := usage[rec.T-d.Dt]
						if d.Utime != (end/2-from/2)*1000 || d.Stime != (end/10-from/10)*1000 {
							r.Fail("rusage", "usage %d in %q is from %d to %d us", i, l, from, end)
						}
					}
					if want, ok := usagePeriods(times, rec.T); ok {
						var got []int64
						for _, d := range ds {
							got = append(got, d.Dt)
						}
						if !slices.Equal(got, want) {
							r.Fail("rusage", "record %q is over %v, want %v", l, got, want)
						}
					}
				}
				if lastRusage != 0 && rec.T-lastRusage < 1e9 {
					r.Fail("rusage", "record %q comes %d ns after the one before", l, rec.T-lastRusage)
				}
				lastRusage = rec.T
			default:
				r.Fail("telemetry", "unknown record %q", l)
			}
		}
		if d := int64(0); len(times) > 0 && ff.hits == 0 && !rusageErr {
			if d = times[len(times)-1] - times[0]; d > 4e9 && lastRusage == 0 {
				r.Fail("rusage", "no resource usage was logged in %d ns", d)
			}
		}
	} else {
		mem, _ := platform.Logs.Contents()
		for _, l := range strings.Split(string(mem), "\n") {
			i := strings.Index(l, "timing data: ")
			if i < 0 {
				continue
			}
			var ds []int64
			for _, s := range strings.Fields(strings.Trim(l[i+len("timing data: "):], "[]")) {
				d, err := time.ParseDuration(s)
				if err != nil {
					r.Fail("timing", "bad log line %q", l)
				}
				ds = append(ds, int64(d))
			}
			match(ds, 0)
		}
	}
	if n >= 4 && ff.hits == 0 && next < len(m.logged) {
		r.Fail("timing-lost", "the frame times of %d periods were not logged, as of %v", len(m.logged)-next, m.logged[next])
	}
	_ = toggled
	r.Trivial = m.stats == (platform.TimingStats{}) && len(m.logged) == 0
}
