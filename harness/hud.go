package main

import (
	"bytes"
	"fmt"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	simlog "github.com/jcorbin/anansi/zz/shim/log"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C26", Quick: 50000, Thorough: 1500000, MaxSteps: 60000000,
		Rule: "each run draws either a screen of any size with random typing and clicking over an open HUD, resizes, slow terminals and failing files; or a screen that fits the HUD and a user who reads it, clicks on what it shows and edits file names, " +
			"with files that fail to be created or synced; non-trivial if the HUD was shown",
		Real: platReal, Stub: append([]string{"profilers"}, kernelStub...), Fn: scenC26,
	})
}

func scenC26(r *R) {
	r.schedConfig()
	if r.Pct(40) {
		hudChaos(r)
	} else {
		hudOperator(r)
	}
}

// hudChaos is a session with somebody hammering on the HUD.
func hudChaos(r *R) {
	tio := r.newTermIO(false)
	tty := tio.tty
	w, h := 1+r.Choose(60), 1+r.Choose(30)
	if r.Pct(30) {
		w, h = 1+r.Choose(5), 1+r.Choose(3)
	}
	resize := func(nw, nh int) {
		w, h = nw, nh
		tio.vt.resize(w, h)
		tty.Resize(w, h)
	}
	resize(w, h)
	if r.Pct(3) {
		tty.Cols, tty.Rows = 0, 0 // not known yet
		r.S.Fault("resize.zero")
	}
	slow := r.Pct(20)
	if slow {
		r.slowTTY(tty)
	}
	tio.save()
	fps := []int{60, 20}[r.Choose(2)]
	frame := int64(1e9) / int64(fps)
	faulty := r.Pct(50)
	resizes := []int{0, 4}[r.Pick(2, 1)]
	n := 5 + r.Choose(40)
	r.Descf("chaos on %dx%d, %d fps, %d inputs, faults %v, resizes %d", w, h, fps, n, faulty, resizes)

	var started, typed, ended bool
	var frames int
	recs := false // events may be replayed ones
	ck := &frameChecker{r: r, struck: "\x0b\x0c\x12"}
	taken := 0
	r.K.OnOp = func(op *sim.Op) {
		if !faulty {
			return
		}
		var in *sim.Inode
		if op.OFD != nil {
			in = op.OFD.InodeOf()
		}
		switch {
		case op.Kind == "open" && r.Pct(30):
			op.Err = []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EISDIR}[r.Choose(4)]
		case (op.Kind == "sync" || op.Kind == "seek" || op.Kind == "truncate" || op.Kind == "close") && in != nil && r.Pct(20):
			op.Err = syscall.EIO
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "open" && strings.HasSuffix(op.Path, "auto.rec") {
			recs = true
		}
		if op.Kind == "read" && op.OFD == tio.inOFD {
			if n := tty.Taken(); n > taken {
				ck.took(tty.Arrived[taken:n])
				taken = n
			}
			if op.Res != 0 || op.N == 0 {
				ck.mark()
			}
		}
	}
	r.S.Spawn("user", nil, func() {
		r.S.WaitUntil("first frame", 100e9, func() bool { return started })
		r.S.Sleep(2 * frame)
		tty.Type([]byte{'\x0b'})
		for i := 0; i < n; i++ {
			r.S.Sleep(int64(r.Choose(int(3 * frame))))
			if resizes > 0 && r.Pct(15) {
				resizes--
				r.zeroSize(tty, w, h)
				nw, nh := r.newSize(w, h, 1, 60, 1, 30)
				resize(nw, nh)
				r.S.Fault("resize")
			}
			click := func(x, y int) string {
				b := []int{0, 0, 0, 0, 2, 64, 65, 35}[r.Choose(8)]
				s := fmt.Sprintf("\x1b[<%d;%d;%dM", b, x, y)
				if r.Pct(60) {
					s += fmt.Sprintf("\x1b[<%d;%d;%dm", b, x, y)
				}
				return s
			}
			s := ""
			for k := 1 + r.Pick(3, 1, 1); k > 0; k-- {
				switch r.Pick(4, 3, 2, 2, 1, 1, 1, 6) {
				case 0: // top right
					s += click(max(1, w-r.Choose(32)), 1)
				case 1: // details
					s += click(max(1, w-r.Choose(20)), min(h, 1+r.Choose(20)))
				case 2:
					s += click(1+r.Choose(w), 1+r.Choose(h))
				case 3: // logs
					s += click(1+r.Choose(w), max(1, h-r.Choose(12)))
				case 4:
					s += []string{"abc", "\r", "\x7f", "\x1b[D", "\x1b[C", "\x1b[3D", "é", "x\r", "\x7f\x7f\x7f"}[r.Choose(9)]
				case 5:
					s += string("prof.trace and more"[r.Choose(19)])
				case 6:
					s += []string{"\x0b", "\x0b\x0b", "\x0c", "q"}[r.Choose(4)]
				case 7: // a control
					at := [][2]int{{w, 1}}
					for y := 1; y <= h; y++ {
						for x := 1; x <= w; x++ {
							if strings.ContainsRune("⊙◴◷◶◵[#/", tio.vt.at(x-1, y-1).r) {
								at = append(at, [2]int{x, y})
							}
						}
					}
					p := at[r.Choose(len(at))]
					s += click(p[0], p[1])
				}
			}
			tty.Type([]byte(s))
		}
		r.S.Sleep(10*frame + r.K.MaxSigDelay)
		typed = true
	})
	cf := func(ctx *platform.Context) error {
		frames++
		started = true
		if ctx.HUD.Visible {
			r.Trivial = false
			r.S.Probe("hud.frames")
		}
		for id, kind := range ctx.Input.Type {
			if kind == platform.EventNone || recs {
				continue
			}
			e := ctx.Input.Escape(id)
			ck.got(inEvent{rune(e.ID), string(e.Arg)})
		}
		if !recs {
			ck.drained()
		}
		if r.Pct(30) {
			simlog.Printf("frame %d %s", frames, strings.Repeat("long ", r.Choose(20)))
		}
		if typed && (!recs || frames > 20000) {
			ended = true
			return errClient
		}
		if typed && recs {
			// the client can't tell the end of a replay
			ended = true
			return errClient
		}
		return nil
	}
	r.Trivial = true
	t := r.prog("app", 2000e9, func() {
		err := platform.Run(simos.Stdin, simos.Stdout, func(p *platform.Platform) error {
			return p.Run(platform.ClientFunc(cf))
		}, platform.FrameRate(fps), platform.Config{})
		if err != errClient && !(faulty && ended) {
			r.Fail("error", "Run ended with %v", err)
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the session did not finish after %d frames; tasks:\n%s", frames, r.S.Dump())
	}
	if d := tio.differs(true, true, true); d != "" {
		r.Fail("restore", "after Run: %s", d)
	}
}

// hudFlags is what can be toggled on the HUD.
type hudFlags struct {
	Visible, TimeDetail, ProfDetail, FPSDetail, FPSControl bool
	Timing, Stalls, LogTiming, LogStalls, Paused           bool
}

// hudShown is what rows of the HUD should show in a frame.
type hudShown struct {
	times, timing, stalls []string
	fps                   string
}

// hudProf is a row of the profiling control.
type hudProf struct {
	name   string // shown
	dflt   string // default file name
	file   string // of the open file, if any
	in     *sim.Inode
	active bool
	taken  int                // profiles looked at
	shared map[*sim.Inode]int // how often files were created, by all
}

var hudTimeRE = regexp.MustCompile(`\d\d:\d\d:\d\d\.\d{6}$`)

// hudClient is a client that can be recorded.
type hudClient struct {
	N int

	update func(ctx *platform.Context) error
}

// Update hands off to the scenario.
func (c *hudClient) Update(ctx *platform.Context) error {
	c.N++
	return c.update(ctx)
}

// hudOperator is a session with a user who reads the HUD.
func hudOperator(r *R) {
	tio := r.newTermIO(false)
	tty := tio.tty
	w, h := 50+r.Choose(20), 42+r.Choose(10)
	tio.vt.resize(w, h)
	tty.Resize(w, h)
	r.S.Slow = 100
	tio.save()
	fps := []int{60, 30}[r.Choose(2)]
	frame := int64(1e9) / int64(fps)
	n := 4 + r.Choose(20)
	faulty := r.Pct(30)
	r.Descf("operator on %dx%d, %d fps, %d actions, faults %v", w, h, fps, n, faulty)

	var (
		frames                     int
		started, typed             bool
		have                       hudFlags // as of the last frame
		want                       hudFlags
		failOpen, failSync, failed bool
		logs                       []string // lines logged, as of the last frame
		logPos                     int      // scrolled to, 0 for the end
		opens                      []string
		suspend, note              bool
		resumed                    int
		shown                      []hudShown // what the HUD should show, by frame
		failErrs                   []syscall.Errno
		failIn                     *sim.Inode // only to fail
		openRes                    []syscall.Errno
		failSome                   bool // only some opens fail
		recOn                      bool // recording
		again                      int  // stalled writes since the last frame
		both                       int  // frames that measured stalls
		stalling                   = r.Pct(30)
		profiling                  = r.Pct(15)
		logging                    = r.Pct(8)
		lastTime                   time.Time
	)
	ck := &frameChecker{r: r, struck: "\x0b\x0c\x12"}
	taken := 0
	r.K.OnOp = func(op *sim.Op) {
		switch {
		case op.Kind == "sync" && failSync && (failIn == nil || op.OFD.InodeOf() == failIn):
			op.Err = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}[r.Choose(3)]
			failed, failErrs = true, append(failErrs, op.Err)
		case op.Kind == "open" && failOpen && (!failSome || r.Pct(50)):
			op.Err = []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EMFILE}[r.Choose(3)]
			failed, failErrs = true, append(failErrs, op.Err)
		case op.Kind == "write" && stalling && started && op.OFD == tio.outOFD && op.OFD.Flags&syscall.O_NONBLOCK != 0:
			op.Err = syscall.EAGAIN
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "open" {
			opens = append(opens, op.Path)
			openRes = append(openRes, op.Res)
		}
		if op.Kind == "write" && op.OFD == tio.outOFD && op.Res == syscall.EAGAIN {
			again++
		}
		if op.Kind == "read" && op.OFD == tio.inOFD {
			if n := tty.Taken(); n > taken {
				ck.took(tty.Arrived[taken:n])
				taken = n
			}
			if op.Res != 0 || op.N == 0 {
				ck.mark()
			}
		}
	}
	stopped := map[string]string{} // profiles while suspended
	r.K.OnStop = func(p *sim.Proc) {
		for _, p := range r.K.Paths() {
			data, _ := r.K.File(p)
			stopped[p] = string(data)
		}
		r.S.After(int64(1+r.Choose(500))*1e6, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	settle := func() {
		// the write is noticed after the signal delay, and takes effect in
		// that frame; what it does is seen by the next, and drawn by then
		r.S.Sleep(r.K.MaxSigDelay)
		f := frames
		r.S.WaitUntil("frames", 100e9, func() bool { return frames >= f+3 })
		r.S.Sleep(frame / 2)
	}
	line := func(y int) string { return tio.vt.line(y - 1) }
	find := func(label string) (x, y int) {
		for y := 1; y <= h; y++ {
			if i := strings.Index(line(y), label); i >= 0 {
				return 1 + utf8.RuneCountInString(line(y)[:i]), y
			}
		}
		return 0, 0
	}
	screen := func() string { return tio.vt.String() }
	mouse := "" // what should be shown of it, if known
	move := func() {
		x, y := 1+r.Choose(w), 1+r.Choose(h)
		mouse = fmt.Sprintf("motion@(%d,%d)", x, y)
		tty.Type([]byte(fmt.Sprintf("\x1b[<35;%d;%dM", x, y)))
	}
	press := func(x, y int) {
		mouse = ""
		s := fmt.Sprintf("\x1b[<0;%d;%dM", x, y)
		if r.Pct(80) {
			s += fmt.Sprintf("\x1b[<0;%d;%dm", x, y)
		}
		r.S.Tracef("user clicks at %d,%d of\n%s", x, y, screen())
		tty.Type([]byte(s))
	}
	shared := map[*sim.Inode]int{}
	cpu := &hudProf{name: "CPU profiler", dflt: "prof.cpu", shared: shared}
	trc := &hudProf{name: "Trace profiler", dflt: "prof.trace", shared: shared}
	tele := &hudProf{name: "Telemetry Log", dflt: "telemetry.log"}
	profs := []*hudProf{cpu, trc}
	expanded := false
	var edit *hudProf // whose file name is being edited
	var buf []rune
	cur := 0
	logsTop := func() int {
		if expanded {
			return h - 12
		}
		return h - 1
	}
	// what a file name being given does
	create := func(p *hudProf, name string, hadFault bool) {
		r.S.Tracef("create %q for %s, fault %v", name, p.name, hadFault)
		if p == tele {
			if !hadFault {
				p.file, p.in = name, r.K.Disk[name]
				shared[p.in] += 2
			}
			return
		}
		p.active = false
		if hadFault {
			return
		}
		if in := r.K.Disk[name]; p.in != in {
			p.in = in
			shared[in]++
		}
		p.file, p.active = name, true
	}
	trunc := func(s string) string { // as shown in w columns
		if n := utf8.RuneCountInString(s); n > w {
			s = string([]rune(s)[:w-1])
		}
		return strings.TrimRight(s, " ")
	}
	// telemetry is logged by the background worker
	quiet := 0 // checks until it is done
	noisy := func() bool {
		if want.LogTiming || want.LogStalls {
			quiet = 3
		}
		return quiet > 0
	}
	checkLogs := func(what string) {
		n := len(logs)
		if noisy() {
			quiet--
			return
		}
		shows := func(y, i int) { // line i of the logs on line y of the screen
			got := strings.TrimRight(strings.TrimSuffix(line(y), "…"), " ")
			if want := trunc(logs[i-1]); y < h && !strings.HasPrefix(line(y), want) || y == h && !strings.HasPrefix(got, want) {
				r.Fail("logs", "after %s: line %d shows %q, want log line %d of %d: %q\n%s", what, y, line(y), i, n, want, screen())
			}
		}
		if !expanded {
			if logPos == 0 {
				shows(h, n)
			}
			return
		}
		y := h - min(10, n)
		var a, b, c int
		if k, _ := fmt.Sscanf(line(y), "Logs (%d-%d/%d):", &a, &b, &c); k != 3 || c != n || b-a+1 != min(10, n) || a < 1 || b > n {
			r.Fail("logs", "after %s: the header of the logs is %q, with %d lines\n%s", what, line(y), n, screen())
		}
		for i := a; i <= b; i++ {
			shows(y+1+i-a, i)
		}
		if logPos == 0 && b != n || logPos > 0 && logPos != a {
			r.Fail("logs", "after %s: the logs show %d-%d of %d, want to start with %d\n%s", what, a, b, n, logPos, screen())
		}
	}
	check := func(what string) {
		if have != want {
			r.Fail("toggle", "after %s the state is %+v, want %+v\n%s", what, have, want, screen())
		}
		if !want.Visible {
			for y := 1; y <= h; y++ {
				if l := line(y); l != "" && l != fmt.Sprintf("client %d", y) {
					r.Fail("hidden", "the HUD is hidden, but line %d shows %q", y, l)
				}
			}
			return
		}
		if !hudTimeRE.MatchString(line(1)) {
			r.Fail("shown", "the HUD should be shown, with the time\n%s", screen())
		}
		label := func(label string, on bool) {
			if x, _ := find(label); (x > 0) != on {
				r.Fail("label", "after %s: %q shown: %v, want %v\n%s", what, label, x > 0, on, screen())
			}
		}
		label("paused", want.TimeDetail)
		label("# Telemetry:", want.TimeDetail || want.FPSDetail)
		if _, y := find("recording"); want.TimeDetail && y > 0 && y < logsTop() && strings.Contains(line(y), map[bool]string{true: "Start", false: "auto.rec"}[recOn]) {
			r.Fail("recording", "after %s: recording is shown as %q, it should be %v\n%s", what, line(y), recOn, screen())
		}
		label("# Profiling Control:", want.ProfDetail)
		label("# Frame Timing:", want.FPSDetail)
		label("∂t min", want.FPSDetail && want.Timing)
		label("max t", want.FPSDetail && want.Stalls)
		if want.ProfDetail {
			for _, p := range profs {
				x, y := find(p.name)
				if x == 0 {
					r.Fail("label", "after %s: %q is not shown\n%s", what, p.name, screen())
				}
				spin := tio.vt.at(x-1+utf8.RuneCountInString(p.name), y-1).r
				if (spin != '⊙') != p.active {
					r.Fail("active", "after %s: the %s is shown with %q, active should be %v\n%s", what, p.name, spin, p.active, screen())
				}
				if short := []rune(p.file); edit != p && p.file != "" {
					if len(short) > 10 {
						short = short[:10]
					}
					if !strings.Contains(line(y), strings.TrimRight(string(short), " ")) {
						r.Fail("name", "after %s: the %s is shown with %q, its file is %q\n%s", what, p.name, line(y), p.file, screen())
					}
				}
			}
		}
		rows := func(header string, on bool, off int, f func(hudShown) []string) {
			_, y := find(header)
			if y == 0 || !on {
				return
			}
			var want string
			for i := len(shown) - 1; i >= 0 && i > len(shown)-8; i-- {
				vs, ok := f(shown[i]), true
				want = ""
				for k, v := range vs {
					if v != "" {
						want += "\n" + v
						ok = ok && strings.HasSuffix(line(y+off+k), v)
					}
				}
				if ok {
					return
				}
			}
			r.Fail("shown", "after %s, what is shown below %q should be like this:%s\n%s", what, header, want, screen())
		}
		rows("# Frame Timing:", want.Timing, 1, func(s hudShown) []string { return s.timing })
		rows("# Output Stalls:", want.Stalls, 1, func(s hudShown) []string { return s.stalls })
		rows("last", want.TimeDetail, 0, func(s hudShown) []string { return s.times })
		if l := line(1); w >= 60 && !strings.Contains(l, fmt.Sprintf(",%d) ", h)) {
			r.Fail("shown", "after %s, the size %d,%d is not shown\n%s", what, w, h, screen())
		}
		if l := line(1); w >= 62 && mouse != "" && !strings.Contains(l, mouse+" ") {
			r.Fail("shown", "after %s, the mouse at %s is not shown\n%s", what, mouse, screen())
		}
		checkLogs(what)
		if cpu.active != (r.S.CPUProfile != nil) || trc.active != (r.S.Trace != nil) {
			r.Fail("active", "after %s: CPU profile running: %v, want %v; trace running: %v, want %v", what, r.S.CPUProfile != nil, cpu.active, r.S.Trace != nil, trc.active)
		}
		if edit != nil {
			x0, x1 := w-15, w
			_, y := find(edit.name)
			if edit == tele {
				_, y = find("# Telemetry:")
				y++
			}
			var shown []rune
			for x := x0; x <= x1; x++ {
				shown = append(shown, tio.vt.at(x-1, y-1).r)
			}
			s := strings.TrimRight(strings.ReplaceAll(string(shown), "\x00", " "), " ")
			if strings.TrimSpace(string(buf)) != "" && (s == "" && len(buf) <= 14 || !strings.Contains(string(buf), s) || len(buf) <= 14 && s != strings.TrimRight(string(buf), " ")) {
				r.Fail("edit", "after %s: the name being edited shows %q, want (part of) %q\n%s", what, s, string(buf), screen())
			}
			if !tio.vt.visible() {
				r.Fail("edit", "after %s: the cursor is hidden while editing", what)
			}
			if len(buf) <= 14 && (tio.vt.x+1 != x0+cur || tio.vt.y+1 != y) {
				r.Fail("edit", "after %s: the cursor is at %d,%d, want %d,%d", what, tio.vt.x+1, tio.vt.y+1, x0+cur, y)
			}
		}
	}
	r.S.Spawn("user", nil, func() {
		r.S.WaitUntil("first frame", 100e9, func() bool { return started })
		settle()
		check("start")
		for i := 0; i < n; i++ {
			what := ""
			log0 := len(logs)
			failed, failIn, failSome, failErrs = false, nil, false, nil
			logged := func() { // what failed must be, at least the first or last
				if failed && !slices.ContainsFunc(logs[min(log0, len(logs)):], func(l string) bool {
					return slices.ContainsFunc(failErrs, func(e syscall.Errno) bool { return strings.Contains(l, e.Error()) })
				}) {
					r.Fail("unlogged", "%s failed with %v, but this is what was logged: %q", what, failErrs, logs[log0:])
				}
			}
			toggle := func(flag *bool, x, y int, name string) {
				mouse = ""
				k := 1
				if r.Pct(15) {
					k = 2 // at once
				}
				var s string
				for i := 0; i < k; i++ {
					s += fmt.Sprintf("\x1b[<0;%d;%dM", x, y)
					if r.Pct(80) {
						s += fmt.Sprintf("\x1b[<0;%d;%dm", x, y)
					}
				}
				if k == 1 {
					*flag = !*flag
				}
				what = fmt.Sprintf("%d clicks on %s at %d,%d", k, name, x, y)
				r.S.Tracef("user: %s of\n%s", what, screen())
				tty.Type([]byte(s))
			}
			toggleFPS := func() {
				x, _ := find("FPS:")
				// its width may change, but not where it ends
				end := x + strings.Index(string([]rune(line(1))[x-1:]), "/s")
				toggle(&want.FPSDetail, end+1-r.Choose(7), 1, "FPS")
			}
			if !want.Visible || r.Pct(8) {
				if r.Pct(30) {
					move()
				}
				k := 1
				if r.Pct(20) {
					k += 1 + r.Choose(2) // at once
				}
				tty.Type(bytes.Repeat([]byte{'\x0b'}, k))
				if k%2 == 1 {
					want.Visible = !want.Visible
				}
				what = fmt.Sprintf("%d times Ctrl-K", k)
				if !want.Visible {
					edit, buf, cur = nil, nil, 0
				}
				settle()
				check(what)
				continue
			}
			if edit != nil && r.Pct(85) {
				failOpen = false
				switch r.Pick(8, 2, 2, 1, 1, 3, 1, 1) {
				case 0:
					s := []string{"a", "bc", "log.txt", "/d/x", "é", "z-_", "0123456789", ".", " ", " x "}[r.Choose(10)]
					for _, ru := range s {
						buf = append(buf[:cur:cur], append([]rune{ru}, buf[cur:]...)...)
						cur++
					}
					what = fmt.Sprintf("typing %q", s)
					tty.Type([]byte(s))
				case 1:
					k := 1 + r.Choose(3)
					for i := 0; i < k && cur > 0; i++ {
						buf = append(buf[:cur-1:cur-1], buf[cur:]...)
						cur--
					}
					what = fmt.Sprintf("%d backspaces", k)
					tty.Type([]byte(strings.Repeat("\x7f", k)))
				case 2:
					k := 1 + r.Choose(4)
					cur = max(0, cur-k)
					what = fmt.Sprintf("moving left by %d", k)
					tty.Type([]byte(fmt.Sprintf("\x1b[%dD", k)))
				case 3:
					cur = min(len(buf), cur+1)
					what = "moving right"
					tty.Type([]byte("\x1b[C"))
				case 4:
					cur = min(len(buf), cur+80)
					what = "moving to the end"
					tty.Type([]byte("\x1b[80C"))
				case 5, 6:
					name := string(buf)
					if name == "" {
						name = edit.dflt
					}
					p := edit
					failOpen = faulty && r.Pct(50)
					failSync = faulty && p.active && r.Pct(40)
					failed = false
					n0 := len(opens)
					before := p.in
					what = fmt.Sprintf("Enter of %q for %s", name, p.name)
					tty.Type([]byte("\r" + []string{"", "x", "\x7f\x7f", "\x1b[D0"}[r.Pick(6, 1, 1, 1)]))
					edit, buf, cur = nil, nil, 0
					settle()
					logged()
					if failSync {
						failSync = false
						if len(opens) != n0 {
							r.Fail("create", "after %s, which can't write to the current file, these were opened: %q", what, opens[n0:])
						}
						p.active = false
						hudProfile(r, "after "+what, p)
						check(what)
						continue
					}
					if len(opens) != n0+min(1, len(name)) || name != "" && opens[n0] != name {
						r.Fail("create", "after %s these were opened: %q", what, opens[n0:])
					}
					if name != "" {
						if p.active && p != tele && p.file != name {
							hudProfiled(r, what, p, before)
						}
						create(p, name, failed)
					}
				case 7:
					what = "Escape"
					tty.Type([]byte("\x1b"))
					edit, buf, cur = nil, nil, 0
				}
				settle()
				check(what)
				continue
			}
			failOpen = false
			if p := edit; p != nil && r.Pct(40) { // editing may go on after this
				if r.Pct(50) {
					toggle(&want.TimeDetail, w-1-r.Choose(15), 1, "the time")
				} else {
					toggleFPS()
				}
				settle()
				name := string(buf)
				if name == "" {
					name = p.dflt
				}
				n0 := len(opens)
				edit, buf, cur = nil, nil, 0
				for p == tele && !want.TimeDetail && !want.FPSDetail { // can't be seen any more
					if r.Pct(50) {
						toggle(&want.TimeDetail, w-1-r.Choose(15), 1, "the time")
					} else {
						toggleFPS()
					}
					settle()
				}
				failed = false
				what += ", then Enter of " + name + " for " + p.name
				tty.Type([]byte("\r" + []string{"", "x", "\x7f\x7f", "\x1b[D0"}[r.Pick(6, 1, 1, 1)]))
				settle()
				switch before, was := p.in, p.active; {
				case len(opens) == n0:
				case len(opens) == n0+1 && opens[n0] == name:
					if was && p != tele && p.file != name {
						hudProfiled(r, what, p, before)
					}
					create(p, name, false)
				default:
					r.Fail("create", "after %s these were opened: %q", what, opens[n0:])
				}
				check(what)
				continue
			}
			if edit != nil { // get out of it
				press(2, 5)
				edit, buf, cur = nil, nil, 0
				settle()
				check("click outside")
				continue
			}
			// the layout may be too tall for the logs
			type target struct {
				label string
				flag  *bool
				row   bool // a button on the right
			}
			var ts []target
			add := func(label string, flag *bool, row bool) {
				if x, y := find(label); x > 0 && y < logsTop() {
					ts = append(ts, target{label, flag, row})
				}
			}
			add("# Frame Timing:", &want.Timing, false)
			add("# Output Stalls:", &want.Stalls, false)
			add("# Frame Control:", &want.FPSControl, false)
			add("Log Timing", &want.LogTiming, true)
			add("Log Stalls", &want.LogStalls, true)
			add("paused", &want.Paused, true)
			var ps []*hudProf
			for _, p := range profs {
				if x, y := find(p.name); x > 0 && y < logsTop() {
					ps = append(ps, p)
				}
			}
			weights := []int{2, 2, 2, 6, 4, 4, 2, 1, 2, 1, 1, 2, 3, 3, 1, 1}
			if logging {
				weights = []int{0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 3, 6, 0, 0, 0}
				if !expanded {
					weights = []int{0, 0, 0, 0, 0, 0, 1}
				}
			} else if profiling {
				weights = []int{0, 0, 1, 0, 2, 2, 0, 0, 12, 0, 0, 0, 0, 4, 0}
				if !want.ProfDetail {
					weights = []int{0, 0, 1, 0}
				}
			}
			switch k := r.Pick(weights...); {
			case k == 0:
				toggle(&want.TimeDetail, w-1-r.Choose(15), 1, "the time")
			case k == 1:
				toggleFPS()
			case k == 2:
				steady := false // the width of the frame rate
				for i := 0; i < 30 && !steady; i++ {
					x, _ := find("FPS:")
					var f int
					fmt.Sscanf(string([]rune(line(1))[x-1:]), "FPS:%d/s", &f)
					if steady = f >= 14 && f <= 90; !steady {
						settle()
					}
				}
				if !steady {
					break
				}
				x, _ := find("FPS:")
				f0 := len(shown)
				toggle(&want.ProfDetail, x-2, 1, "profiling")
				settle()
				for _, s := range shown[f0-1:] {
					if len(s.fps) != len(shown[f0-1].fps) { // may have been moved
						want.ProfDetail = have.ProfDetail
						edit, buf, cur = nil, nil, 0
					}
				}
			case k == 3 && len(ts) > 0:
				t := ts[r.Choose(len(ts))]
				x, y := find(t.label)
				x += r.Choose(len(t.label))
				if t.row {
					x = w - r.Choose(16)
				}
				toggle(t.flag, x, y, t.label)
			case k == 4 && len(ps) > 0: // start and stop
				p := ps[r.Choose(len(ps))]
				x, y := find(p.name)
				x += utf8.RuneCountInString(p.name)
				failOpen = faulty && r.Pct(50)
				failSync = faulty && r.Pct(50)
				failed = false
				n0 := len(opens)
				was, before := p.active, p.in
				what = fmt.Sprintf("click on the spinner of %s", p.name)
				press(x, y)
				edit, buf, cur = nil, nil, 0
				settle()
				logged()
				failSync = false
				switch {
				case was && failed: // it stops, but the file may be incomplete
					p.active = false
					hudProfile(r, "after "+what, p)
				case was:
					p.active = false
					hudProfiled(r, what, p, before)
				case p.file == "":
					if len(opens) != n0+1 || opens[n0] != p.dflt {
						r.Fail("create", "after %s these were opened: %q", what, opens[n0:])
					}
					create(p, p.dflt, failed)
				default:
					p.active = true
				}
				if (was || p.file != "" && !failed) && !(n0 == len(opens) || !was && before == nil) {
					r.Fail("create", "after %s these were opened: %q", what, opens[n0:])
				}
			case k == 5 && (len(ps) > 0 || want.TimeDetail || want.FPSDetail): // edit
				var p *hudProf
				y := 0
				if _, ty := find("# Telemetry:"); ty > 0 && ty+1 < logsTop() && (len(ps) == 0 || r.Pct(25)) {
					p, y = tele, ty+1
				} else if len(ps) > 0 {
					p = ps[r.Choose(len(ps))]
					_, y = find(p.name)
				}
				if p == nil || p == edit {
					break
				}
				what = fmt.Sprintf("click on the file of %s", p.name)
				press(w-r.Choose(16), y)
				edit = p
				buf, cur = []rune(p.file), 0
				if r.Pct(10) {
					what += ", and outside"
					press(2, 5)
					edit, buf, cur = nil, nil, 0
				}
			case k == 6 && edit == nil: // logs
				what = "click on the logs"
				if expanded {
					press(1+r.Choose(w-1), h-10)
				} else {
					press(1+r.Choose(w-1), h)
				}
				expanded = !expanded
			case k == 7: // somewhere else
				what = "click on nothing"
				x, y := 1+r.Choose(10), 2+r.Choose(15)
				press(x, y)
				edit, buf, cur = nil, nil, 0
			case k == 8 && want.ProfDetail: // add a profile
				x, y := find("PProf")
				if x == 0 || y+7 >= logsTop() {
					break
				}
				edit, buf, cur = nil, nil, 0
				press(w-r.Choose(14)-1, y)
				settle()
				names := map[string]bool{}
				for _, p := range profs {
					names[p.name] = true
				}
				var cand []string
				for _, n := range []string{"allocs", "block", "goroutine", "heap", "mutex", "threadcreate"} {
					if !names[n+" profiler"] {
						cand = append(cand, n)
					}
				}
				for i, n := range cand {
					if !strings.Contains(line(y+i), n) {
						r.Fail("select", "profile %s is not shown for selection on line %d\n%s", n, y+i, screen())
					}
				}
				if len(cand) == 0 {
					r.S.Probe("hud.allprofiles")
					break
				}
				i := r.Choose(len(cand))
				what = "selecting " + cand[i]
				press(w-2-r.Choose(12), y+i)
				profs = append(profs, &hudProf{name: cand[i] + " profiler", dflt: "prof." + cand[i], shared: shared})
			case k == 9: // suspend
				what = "suspend"
				rn := resumed
				suspend = true
				r.S.WaitUntil("resumed", 100e9, func() bool { return resumed > rn })
				settle()
				for _, p := range profs {
					if p.active {
						if want := hudProfile(r, "while suspended", p); stopped[p.file] != want && p.shared[p.in] < 2 {
							r.Fail("profile", "while suspended the file of the %s has %q, want %q", p.name, stopped[p.file], want)
						}
					} else if p.file != "" {
						p.active = true // files that are set up start again
					}
				}
			case k == 11:
				what = "logging"
				note = true
			case k == 12 && expanded && !noisy(): // scroll the logs
				var a, b, c int
				if k, _ := fmt.Sscanf(line(h-min(10, len(logs))), "Logs (%d-%d/%d):", &a, &b, &c); k != 3 {
					break
				}
				up := r.Pct(60)
				k := 1 + r.Choose(25)
				if d := len(logs) - a; !up && d > 0 && r.Pct(40) {
					k = d // just to the end
				}
				mouse = ""
				what = fmt.Sprintf("scrolling by %d, up: %v", k, up)
				tty.Type([]byte(strings.Repeat(fmt.Sprintf("\x1b[<%d;%d;%dM", map[bool]int{true: 64, false: 65}[up], 1+r.Choose(w-1), h-r.Choose(min(9, len(logs)))), k)))
				settle()
				var a2, b2, c2 int
				fmt.Sscanf(line(h-min(10, len(logs))), "Logs (%d-%d/%d):", &a2, &b2, &c2)
				switch n := len(logs); {
				case up && logPos > 0 && a2 != max(1, a-k), up && logPos == 0 && (a2 > a || a2 < max(1, n-k-9)):
					r.Fail("scroll", "after %s: the logs show %d-%d of %d, before %d-%d\n%s", what, a2, b2, n, a, b, screen())
				case up:
					logPos = a2
				case logPos == 0 && a2 != a, logPos > 0 && a2 != min(a+k, max(1, n-9)):
					r.Fail("scroll", "after %s: the logs show %d-%d of %d, before %d-%d\n%s", what, a2, b2, n, a, b, screen())
				case logPos > 0 && a+k >= n:
					logPos = 0
				case logPos > 0:
					logPos = a2
				}
			case k == 13 && len(ps) > 0: // start or stop all
				_, hy := find("# Profiling Control:")
				x, y := find("All")
				if x == 0 || y != hy+1 {
					r.Fail("label", "there is no row for all profilers\n%s", screen())
				}
				x += 3
				var active []*hudProf
				for _, p := range profs {
					if p.active {
						active = append(active, p)
					}
				}
				if spin := tio.vt.at(x-1, y-1).r; (spin != '⊙') != (len(active) > 0) {
					r.Fail("active", "all profilers are shown with %q, %d are active\n%s", spin, len(active), screen())
				}
				what = "click on the spinner of all profilers"
				if failSome = true; faulty && r.Pct(50) {
					failOpen, failSync = true, true
					if len(active) > 0 {
						failIn = active[r.Choose(len(active))].in
					}
				}
				n0 := len(opens)
				press(x, y)
				edit, buf, cur = nil, nil, 0
				settle()
				logged()
				failOpen, failSync = false, false
				for _, p := range active {
					p.active = false
					if failed && p.in == failIn {
						hudProfile(r, "after "+what, p)
					} else {
						hudProfiled(r, what, p, p.in)
					}
				}
				if len(active) > 0 {
					if len(opens) > n0 {
						r.Fail("create", "after %s, which stops, these were opened: %q", what, opens[n0:])
					}
					break
				}
				for _, p := range profs {
					if p.file != "" {
						p.active = true
					} else if i := slices.Index(opens[n0:], p.dflt); i < 0 {
						r.Fail("create", "after %s these were opened: %q", what, opens[n0:])
					} else {
						create(p, p.dflt, openRes[n0+i] != 0)
					}
				}
			case k == 14 && want.TimeDetail && !recOn:
				_, y := find("recording")
				if y == 0 || y >= logsTop() {
					break
				}
				failOpen = faulty && r.Pct(50)
				n0 := len(opens)
				what = "click on recording"
				press(w-r.Choose(16), y)
				edit, buf, cur = nil, nil, 0
				settle()
				logged()
				if recOn = !failed; len(opens) != n0+1 {
					r.Fail("create", "after %s these were opened: %q", what, opens[n0:])
				}
			case k == 15:
				what = "Ctrl-L"
				tty.Type([]byte(strings.Repeat("\x0c", 1+r.Choose(2))))
			case k == 10:
				what = "moving the mouse"
				move()
			}
			if what == "" {
				continue
			}
			settle()
			check(what)
		}
		failed, failOpen, failSync, failErrs = false, false, false, nil
		if faulty && r.Pct(50) { // one file fails when everything is stopped
			for _, p := range profs {
				if p.active && (failIn == nil || r.Pct(50)) {
					failSync, failIn = true, p.in
				}
			}
		}
		typed = true
	})
	cf := func(ctx *platform.Context) error {
		frames++
		started = true
		passed := ctx.Platform.Time.Sub(lastTime)
		if d := ctx.Time.Sub(ctx.LastTime); frames > 1 && d > passed || ctx.Paused && d != 0 {
			r.Fail("time", "in frame %d, paused %v, the time goes on by %v, after %v", frames, ctx.Paused, d, passed)
		}
		lastTime = ctx.Platform.Time
		was := have
		have = hudFlags{
			ctx.HUD.Visible, ctx.HUD.TimeDetail, ctx.HUD.ProfDetail, ctx.HUD.FPSDetail, ctx.HUD.FPSControl,
			ctx.Telemetry.TimingEnabled, ctx.Telemetry.StallDataEnabled, ctx.Telemetry.LogTiming, ctx.Telemetry.LogStallData, ctx.Paused,
		}
		if was.Timing && !have.Timing && !was.LogTiming && !have.LogTiming && ctx.Timing.Stats != (platform.TimingStats{}) {
			r.Fail("timing", "frame timing was disabled, but has the statistics %+v", ctx.Timing.Stats)
		}
		if was.Stalls && !have.Stalls && ctx.Stalls.Stats != (platform.StallsStats{}) {
			r.Fail("stalls", "stall tracking was disabled, but has the statistics %+v", ctx.Stalls.Stats)
		}
		if have.Stalls && was.Stalls && (have.Timing || have.LogTiming) {
			if both++; both > 3 && again > 0 && ctx.Stalls.Stats.N == 0 {
				r.Fail("stalls", "stalls are tracked, and %d writes since the frame before stalled, but none is reported", again)
			}
		} else {
			both = 0
		}
		again = 0
		for id, kind := range ctx.Input.Type {
			if kind == platform.EventNone {
				continue
			}
			e := ctx.Input.Escape(id)
			ck.got(inEvent{rune(e.ID), string(e.Arg)})
		}
		ck.drained()
		row := func(name, val string) string { return fmt.Sprintf("%s %16s", name, val) }
		ms := func(d time.Duration) string { return fmt.Sprintf("%.1fms", d.Seconds()*1e3) }
		ts, ss := ctx.Timing.Stats, ctx.Stalls.Stats
		shown = append(shown, hudShown{
			fps:   fmt.Sprintf("FPS:%.0f/s", ctx.FPS()),
			times: []string{row("last", ctx.Time.Format("15:04:05.000000")), row("∂t", ms(ctx.Time.Sub(ctx.LastTime)))},
			timing: []string{
				row("estimate", fmt.Sprintf("%.0f", ctx.FPSEstimate.Value)), row("actual", fmt.Sprintf("%.0f", ts.FPS)),
				row("∂t min", ms(ts.Min)), row("q1", ms(ts.Q1)), row("q2", ms(ts.Q2)), row("q3", ms(ts.Q3)), row("max", ms(ts.Max)),
			},
			stalls: []string{
				row("Stalls", fmt.Sprint(ss.N)), row("min t", ss.Min.String()), row("max t", ss.Max.String()),
				row("∑ t", ss.Sum.String()), row("% t", fmt.Sprintf("%.2f%%", 100*ss.Pct)),
			},
		})
		if note {
			note = false
			simlog.Printf("frame %d %s", frames, strings.Repeat("more ", r.Choose(20)))
		}
		b, _ := platform.Logs.Contents()
		logs = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		for y := 1; y <= h; y++ {
			ctx.Output.To(ansi.Pt(1, y))
			fmt.Fprintf(ctx.Output, "client %d", y)
		}
		if suspend {
			suspend = false
			err := ctx.Suspend()
			resumed++
			return err
		}
		if typed {
			return errClient
		}
		return nil
	}
	r.Trivial = false
	t := r.prog("app", 2000e9, func() {
		err := platform.Run(simos.Stdin, simos.Stdout, func(p *platform.Platform) error {
			return p.Run(&hudClient{update: cf})
		}, platform.FrameRate(fps), platform.Config{})
		if err != errClient && !(failed && failSync && slices.Contains(failErrs, errnoOf(err))) {
			r.Fail("error", "Run ended with %v", err)
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the session did not finish after %d frames; tasks:\n%s", frames, r.S.Dump())
	}
	if r.S.CPUProfile != nil || r.S.Trace != nil {
		r.Fail("active", "after Run, CPU profile running: %v, trace running: %v", r.S.CPUProfile != nil, r.S.Trace != nil)
	}
	for _, p := range profs {
		if p.active && failed && p.in == failIn {
			hudProfile(r, "at the end", p)
		} else if p.active {
			hudProfiled(r, "the end", p, p.in)
		}
	}
	if d := tio.differs(true, true, true); d != "" {
		r.Fail("restore", "after Run: %s", d)
	}
}

// hudProfiled checks the file of a profiler that was stopped.
func hudProfiled(r *R, what string, p *hudProf, in *sim.Inode) {
	if in != nil && p.shared[in] > 1 { // by several profilers
		hudProfile(r, "after "+what, p)
		return
	}
	want := hudProfile(r, "after "+what, p)
	if in == nil || string(in.Data) != want {
		data := "no file"
		if in != nil {
			data = string(in.Data)
		}
		r.Fail("profile", "after %s the file of the %s has %q, want %q", what, p.name, data, want)
	}
}

// hudProfile is what the profiler wrote last, which must be since this was
// last asked for.
func hudProfile(r *R, what string, p *hudProf) string {
	all := r.S.Profiles[strings.TrimSuffix(p.name, " profiler")]
	if len(all) <= p.taken {
		r.Fail("profile", "%s, nothing was written by the %s", what, p.name)
	}
	p.taken = len(all)
	return all[p.taken-1]
}
