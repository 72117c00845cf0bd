package main

import (
	"bytes"
	"fmt"
	"image"
	"math"
	"math/rand"
	"os/exec"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
	zzdemo "github.com/jcorbin/anansi/cmd/demo"
	zzinteract "github.com/jcorbin/anansi/cmd/interact"
	zzlolwut "github.com/jcorbin/anansi/cmd/lolwut"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C27", Quick: 80000, Thorough: 1500000, MaxSteps: 60000000,
		Rule: "each run draws a command with variables, what the user fills in and how (clicks, edits, corrections, given-up edits), how long the command takes and how it ends, resizes, suspends and the HUD coming and going; " +
			"or a session hammering on it with any size of screen, faults and signals; non-trivial if the command was run",
		Real: append([]string{"cmd/interact (its main function)"}, platReal...), Stub: append([]string{"commands (os/exec)"}, kernelStub...), Fn: scenC27,
	})
	register(&Scenario{
		ID: "C28", Quick: 50000, Thorough: 1500000, MaxSteps: 60000000,
		Rule: "each run draws one of the programs demo, lolwut -i and lolwut, a size, and either zooming, resizing, suspending, slow terminals, or a session hammering on it, or write faults; non-trivial if a picture was checked after such",
		Real: append([]string{"cmd/demo, cmd/lolwut (their main functions)", "anansi.Bitmap, DrawBitmap, WriteBitmap"}, platReal...), Stub: kernelStub, Fn: scenC28,
	})
}

// demoProg runs the main function of a command.
func (r *R) demoProg(d int64, main func(), args ...string) (ended, returned bool) {
	simos.Args = args
	r.prog(args[0], d, func() {
		main()
		returned = true
	})
	p := r.K.Prog
	if p.KilledBy != "" && p.KilledBy != "SIGPIPE" {
		r.Fail("crash", "%s was killed by %s", args[0], p.KilledBy)
	}
	return p.Exited || p.KilledBy != "" || returned, returned
}

// execError is how running a command fails.
func execError(name string, res sim.ExecResult, e syscall.Errno) (status, err string) {
	switch {
	case e == syscall.ENOENT:
		return "<nil>", (&exec.Error{Name: name, Err: exec.ErrNotFound}).Error()
	case e != 0:
		return "<nil>", (&simos.PathError{Op: "fork/exec", Path: name, Err: e}).Error()
	case res.Signal != "":
		status = "signal: " + res.Signal
	default:
		status = fmt.Sprintf("exit status %d", res.Code)
	}
	if res.Signal != "" || res.Code != 0 {
		err = status
	}
	return status, err
}

// genExec draws how a command goes.
func (r *R) genExec(slow bool) (res sim.ExecResult, e syscall.Errno) {
	switch r.Pick(8, 1, 1) {
	case 1:
		return res, syscall.ENOENT
	case 2:
		return res, []syscall.Errno{syscall.EACCES, syscall.EAGAIN, syscall.ENOMEM}[r.Choose(3)]
	}
	switch r.Pick(4, 2, 1) {
	case 1:
		res.Code = 1 + r.Choose(255)
	case 2:
		res.Signal = []string{"killed", "terminated", "segmentation fault"}[r.Choose(3)]
	}
	for n := r.Choose(4); n > 0; n-- {
		res.Out = append(res.Out, fmt.Sprintf("out%d\n", r.Choose(1000))...)
	}
	if r.Pct(30) && len(res.Out) > 0 {
		res.Out = res.Out[:len(res.Out)-1]
	}
	if r.Pct(30) {
		res.ErrOut = []byte("complaint\n")
	}
	if slow && r.Pct(30) {
		res.Duration = int64(r.Choose(3000)) * 1e6
	}
	return res, 0
}

func scenC27(r *R) {
	r.schedConfig()
	if r.Pct(25) {
		demoChaos(r, zzinteract.SimMain, append([]string{"interact"}, r.genCommand()...))
	} else {
		interactUser(r)
	}
}

// genCommand draws a command with variables.
func (r *R) genCommand() (cmd []string) {
	for n := 1 + r.Choose(5); n > 0; n-- {
		switch r.Pick(3, 5, 1, 1) {
		case 0:
			cmd = append(cmd, []string{"prog", "run", "all", "x=1", "a b", "é", "100%", "out"}[r.Choose(8)])
		case 1:
			cmd = append(cmd, "$"+[]string{"name", "v", "file", "long_name", "n2", "é"}[r.Choose(6)])
		case 2:
			cmd = append(cmd, "\\$"+[]string{"HOME", "x"}[r.Choose(2)])
		case 3:
			if len(cmd) > 0 {
				cmd = append(cmd, []string{"-x", "--all", "$", "a$b", "\\x", ""}[r.Choose(6)])
			}
		}
	}
	if len(cmd) == 0 {
		cmd = []string{"prog"}
	}
	return cmd
}

func interactUser(r *R) {
	cmd := r.genCommand()
	// how it is understood
	word := make([]string, len(cmd))
	isVar := make([]bool, len(cmd))
	val := make([]string, len(cmd))
	length := 0
	var names []int // variables
	for i, c := range cmd {
		word[i] = c
		if strings.HasPrefix(c, "\\$") {
			word[i] = c[1:]
		} else if strings.HasPrefix(c, "$") {
			isVar[i] = true
			names = append(names, i)
			length += 20
		}
		length += 1 + utf8.RuneCountInString(word[i])
	}
	tio := r.newTermIO(false)
	tty := tio.tty
	minW := max(length+4, 64)
	w, h := minW+r.Choose(16), 1+r.Choose(14)
	tio.vt.resize(w, h)
	tty.Resize(w, h)
	slow := r.Pct(25)
	if slow {
		r.slowTTY(tty)
		tty.PauseMax /= 50
	} else {
		r.S.Slow = 50
	}
	tio.save()
	slowCmd := r.Pct(40)
	hud := false
	n := 1 + r.Choose(10)
	r.Descf("interact %q on %dx%d, %d actions, slow command %v", cmd, w, h, n, slowCmd)

	all := func() bool {
		for i, v := range val {
			if isVar[i] && v == "" {
				return false
			}
		}
		return true
	}
	args := func() []string {
		as := append([]string(nil), word...)
		for i, v := range val {
			if isVar[i] {
				as[i] = v
			}
		}
		return as
	}
	top := func() int {
		if hud {
			return 2
		}
		return 1
	}
	space := func() int { return h - 1 - top() } // lines for output

	runs, wantRuns := 0, 0
	var last []string // what the last run shows
	r.K.OnExec = func(as []string) (sim.ExecResult, syscall.Errno) {
		runs++
		r.Trivial = false
		r.S.Probe("interact.runs")
		if want := args(); !all() || strings.Join(as, "\x00") != strings.Join(want, "\x00") {
			r.Fail("command", "it runs %q of %q, want %q", as, cmd, want)
		}
		if runs > wantRuns {
			r.Fail("command", "it runs %q for the %dth time, want %d", as, runs, wantRuns)
		}
		res, e := r.genExec(slowCmd)
		if res.Code != 0 || res.Signal != "" || e != 0 {
			r.S.Fault("command.fails")
		}
		if res.Duration > 0 {
			r.S.Fault("command.slow")
		}
		status, err := execError(as[0], res, e)
		last = []string{"status: " + status}
		if err != "" {
			last = append(last, "error: "+err)
		}
		if out := strings.TrimSuffix(string(res.Out), "\n"); out != "" {
			last = append(last, strings.Split(out, "\n")...)
		}
		return res, e
	}
	sized := true
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "winsz" && op.Res == 0 {
			sized = true
		}
	}
	stops := 0
	r.K.OnStop = func(p *sim.Proc) {
		stops++
		r.S.Fault("suspend")
		if s := tio.differs(true, true, true); s != "" {
			r.Fail("stop-state", "when it is suspended %s", s)
		}
		r.S.After(int64(r.Choose(3000))*1000, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	p := r.K.Prog
	over := func() bool { return p.Exited || p.Dead }
	submitted := func() {
		if all() && space() > 0 {
			wantRuns++
		}
	}
	submitted() // at first
	layout := func() (line string, at []int) {
		x := 1
		for i, wd := range word {
			if i > 0 {
				line += " "
				x++
			}
			at = append(at, x)
			line += wd
			if val[i] != "" {
				line += "=" + val[i]
			}
			x = 1 + utf8.RuneCountInString(line)
		}
		return strings.TrimRight(line, " "), at
	}
	text := func(y int) string { return strings.TrimRight(tio.vt.line(y-1), " ") }
	// what is wrong with what is shown
	wrong := func() string {
		if runs != wantRuns {
			return fmt.Sprintf("the command was run %d times, want %d", runs, wantRuns)
		}
		y := top()
		if y > h {
			return ""
		}
		if line, _ := layout(); text(y) != line && !(hud && y == h) {
			return fmt.Sprintf("line %d shows %q, want %q", y, text(y), line)
		}
		if tio.vt.visible() {
			return "the cursor shows"
		}
		want := []string{"Define variables to run"}
		if all() {
			want = last
		}
		if len(want) > space() {
			want = nil // does not scroll
		}
		for i, l := range want {
			if y++; y >= h || utf8.RuneCountInString(l) >= w {
				break
			}
			got := text(y)
			if i > 0 && !strings.HasPrefix(l, "error") && strings.HasPrefix(want[i-1], "out") {
				got = strings.TrimLeft(got, " ") // there's no carriage return in the output
			}
			if got != l {
				return fmt.Sprintf("line %d shows %q, want %q", y, text(y), l)
			}
		}
		return ""
	}
	await := func(what string, cond func() bool) bool {
		limit := int64(20e9)
		if slow {
			limit = 120e9
		}
		if !r.S.WaitUntil(what, limit, func() bool { return over() || cond() }) {
			r.Fail("stuck", "waiting for %s: %s; of %q with %q; screen %dx%d, HUD %v\n%s\ntasks:\n%s", what, wrong(), cmd, val, w, h, hud, tio.vt.String(), r.S.Dump())
		}
		return !over()
	}
	outs := -1
	settled := func(what string) bool {
		var seen [4]int
		done := false
		outs = -1
		// the frame that took the input is over in a while
		if !await(what, func() bool { return tty.Taken() == len(tty.Arrived) && sized }) {
			return false
		}
		r.S.Sleep(50e6)
		ok := await(what, func() bool {
			k := [4]int{len(tty.Out), runs, tty.Taken(), len(tty.Arrived)}
			if k != seen {
				seen, outs = k, len(tty.Out)
				done = runs == wantRuns && tty.Taken() == len(tty.Arrived) && wrong() == ""
			}
			return done
		})
		r.S.Tracef("settled after %s", what)
		if ok && r.Pct(50) {
			// and stays so
			r.S.Sleep(100e6 + r.K.MaxSigDelay)
			if s := wrong(); s != "" && tty.Backlog() == 0 && (!slow || outs == len(tty.Out)) {
				r.Fail("shown", "after %s: %s; of %q with %q\n%s", what, s, cmd, val, tio.vt.String())
			}
		}
		return ok
	}
	send := func(s string) {
		r.S.Tracef("user types %q", s)
		if r.Pct(70) {
			tty.Type([]byte(s))
			return
		}
		for s != "" {
			n := 1 + r.Choose(len(s))
			if s[n-1] == 0x1b {
				n++ // else it is the key
			}
			tty.Type([]byte(s[:n]))
			s = s[n:]
			r.S.Sleep(int64(r.Choose(40)) * 1e6)
		}
	}
	click := func(x, y int) string {
		s := fmt.Sprintf("\x1b[<0;%d;%dM", x, y)
		if r.Pct(80) {
			s += fmt.Sprintf("\x1b[<0;%d;%dm", x, y)
		}
		return s
	}
	exit := 0
	r.S.Spawn("user", nil, func() {
		if !settled("the start") {
			return
		}
		for ; n > 0; n-- {
			_, at := layout()
			op := r.Pick(10, 2, 1, 1, 1, 1)
			if op == 0 && (len(names) == 0 || top() > h || hud && top() == h) {
				op = 5
			}
			switch op {
			case 0: // fill in a variable
				i := names[r.Choose(len(names))]
				if r.Pct(50) {
					for _, j := range names { // one that's missing
						if val[j] == "" {
							i = j
							break
						}
					}
				}
				x := at[i] + r.Choose(utf8.RuneCountInString(word[i]))
				together := r.Pct(30)
				s := click(x, top())
				if r.Pct(10) {
					// twice is as good as never
					tty.Type([]byte(s + s))
					if !settled("a double click") {
						return
					}
					break
				}
				if !together {
					send(s)
					s = ""
					if !await("the editor", tio.vt.visible) {
						return
					}
				}
			edit:
				buf, cur := []rune(val[i]), 0
				var keys bytes.Buffer
				for k := 1 + r.Choose(8); k > 0; k-- {
					switch r.Pick(8, 2, 2, 1) {
					case 0:
						c := []rune("abcxyz0189 $\"'\\*;é")[r.Choose(18)]
						if len(buf) >= 18 {
							break
						}
						keys.WriteRune(c)
						buf = append(buf[:cur], append([]rune{c}, buf[cur:]...)...)
						cur++
					case 1:
						keys.WriteByte(0x7f)
						if cur > 0 {
							cur--
							buf = append(buf[:cur], buf[cur+1:]...)
						}
					case 2:
						keys.WriteString("\x1b[D")
						cur = max(0, cur-1)
					case 3:
						m := 1 + r.Choose(4)
						fmt.Fprintf(&keys, "\x1b[%dC", m)
						cur = min(len(buf), cur+m)
					}
				}
				if r.Pct(70) {
					if len(buf) > 0 {
						val[i] = string(buf)
					}
					submitted()
					keys.WriteByte('\r')
					if r.Pct(25) { // which isn't part of it
						keys.WriteString([]string{"x", "yz", "\x1b[D", "\x7f", " \x7f\x7f"}[r.Choose(5)])
					}
					send(s + keys.String())
				} else {
					// look at it, and think better of it
					send(s + keys.String())
					edited := func() string {
						y := top()
						if !tio.vt.visible() || len(buf) >= utf8.RuneCountInString(word[i]) {
							return ""
						}
						if tio.vt.x != at[i]-1+cur || tio.vt.y != y-1 {
							return fmt.Sprintf("the cursor is at %d,%d, want %d,%d", tio.vt.x+1, tio.vt.y+1, at[i]+cur, y)
						}
						for k, c := range buf {
							if got := tio.vt.at(at[i]-1+k, y-1).r; got != c {
								return fmt.Sprintf("it shows %q at %d,%d", got, at[i]+k, y)
							}
						}
						return ""
					}
					if !await("the edit", func() bool { return tty.Taken() == len(tty.Arrived) && tio.vt.visible() }) {
						return
					}
					r.S.Sleep(100e6)
					if !await("the editor", func() bool { return tio.vt.visible() && edited() == "" }) {
						return
					}
					switch op := r.Pick(3, 2, 2); {
					case op == 2 && i > names[0]: // another that's to the left of it
						var js []int
						for _, j := range names {
							if j < i {
								js = append(js, j)
							}
						}
						i = js[r.Choose(len(js))]
						x = at[i]
						send(click(x, top()))
						if !await("the edit", func() bool { return tty.Taken() == len(tty.Arrived) }) {
							return
						}
						r.S.Sleep(100e6)
						s = ""
						goto edit
					case op == 1:
						tty.Type([]byte{0x1b})
						submitted()
					default:
						send(click(x, top()))
					}
				}
				if !settled("the edit") {
					return
				}
			case 1:
				r.S.Fault("resize")
				ow, oh := w, h
				w, h = r.newSize(w, h, minW, minW+20, 1, 15)
				if w < minW {
					w = minW
				}
				if w != ow || h != oh {
					submitted()
					r.zeroSize(tty, ow, oh)
					sized = false
				}
				tio.vt.resize(w, h)
				tty.Resize(w, h)
				if !settled("a resize") {
					return
				}
			case 2:
				s := stops
				send(strings.Repeat("\x1a", 1+r.Pick(4, 1)))
				if !await("a suspend", func() bool { return stops > s }) || !settled("a suspend") {
					return
				}
			case 3:
				hud = !hud
				submitted()
				send("\x0b")
				if !settled("the HUD") {
					return
				}
			case 4: // elsewhere
				x, y := 1+r.Choose(w), 2+r.Choose(h)
				free := y != top() && !hud
				for i, wd := range word {
					if len(wd) > 0 && !isVar[i] && r.Pct(30) {
						x, y = at[i], top()
						free = !hud || y < h
					}
				}
				if !free {
					break
				}
				send(click(x, y) + []string{"", "text", "\r"}[r.Choose(3)])
				if !settled("a click") {
					return
				}
			case 5:
				send([]string{"text", "\r", "\x7f", "\x1b[C", "\x1b[5;5H"}[r.Choose(5)])
				if !settled("typing") {
					return
				}
			}
		}
		switch r.Pick(3, 1) {
		case 0:
			send("\x03")
		case 1:
			exit = 1
			r.K.Raise(p, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[r.Choose(3)])
		}
	})
	r.Trivial = true
	ended, returned := r.demoProg(4000e9, zzinteract.SimMain, append([]string{"interact"}, cmd...)...)
	if !ended {
		r.Fail("stuck", "it does not end; screen:\n%s\ntasks:\n%s", tio.vt.String(), r.S.Dump())
	}
	if n > 0 || exit == 0 && !returned && p.ExitCode != 0 || exit != 0 && (returned || p.ExitCode == 0) {
		r.Fail("exit", "it ended with status %d, returned %v, with %d actions left", p.ExitCode, returned, n)
	}
	if s := tio.differs(true, true, true); s != "" {
		r.Fail("restore", "at the end %s", s)
	}
}

// demoChaos is a session with somebody hammering on a program.
func demoChaos(r *R, main func(), args []string) {
	tio := r.newTermIO(false)
	tty := tio.tty
	w, h := 1+r.Choose(40), 1+r.Choose(20)
	if r.Pct(30) {
		w, h = 1+r.Choose(5), 1+r.Choose(3)
	}
	resize := func(nw, nh int) {
		w, h = nw, nh
		tio.vt.resize(w, h)
		tty.Resize(w, h)
	}
	resize(w, h)
	if r.Pct(3) {
		tty.Cols, tty.Rows = 0, 0 // not known yet
		r.S.Fault("resize.zero")
	}
	if r.Pct(30) {
		r.slowTTY(tty)
	}
	tio.save()
	n := 3 + r.Choose(30)
	record := r.Pct(20)
	r.Descf("%q on %dx%d, chaos of %d inputs", args, w, h, n)
	r.K.OnExec = func([]string) (sim.ExecResult, syscall.Errno) {
		r.S.Probe("interact.runs")
		return r.genExec(true)
	}
	r.K.OnStop = func(p *sim.Proc) {
		r.S.Fault("suspend")
		if s := tio.differs(true, true, true); s != "" {
			r.Fail("stop-state", "when it is suspended %s", s)
		}
		r.S.After(int64(r.Choose(3000))*1000, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	p := r.K.Prog
	over := func() bool { return p.Exited || p.Dead }
	ending := r.Pick(4, 2, 1)
	r.S.Spawn("user", nil, func() {
		r.S.WaitUntil("first frame", 100e9, func() bool { return over() || len(tty.Out) > 0 })
		for i := 0; i < n && !over(); i++ {
			r.S.Sleep(int64(r.Choose(60)) * 1e6)
			if r.Pct(15) {
				r.S.Fault("resize")
				r.zeroSize(tty, w, h)
				resize(r.newSize(w, h, 1, 40, 1, 20))
			}
			var s []byte
			for k := 1 + r.Pick(3, 1, 1); k > 0; k-- {
				switch r.Pick(3, 3, 3, 2, 1) {
				case 0:
					s = append(s, r.genToken()...)
				case 1: // clicks and scrolls, often at the top
					b := []int{0, 0, 0, 64, 65, 2, 35}[r.Choose(7)]
					y := 1 + r.Choose(h)
					if r.Pct(60) {
						y = 1 + r.Choose(2)
					}
					s = append(s, fmt.Sprintf("\x1b[<%d;%d;%d%c", b, 1+r.Choose(w), y, "MMm"[r.Choose(3)])...)
				case 2:
					s = append(s, []string{"abc", "\r", "\x7f", "\x1b[D", "\x1b[C", "\x1b[3D", "é", "x\r"}[r.Choose(8)]...)
				case 3:
					s = append(s, "\x0b\x1a\x0c"[r.Choose(3)])
				case 4:
					if record {
						s = append(s, 0x12)
					}
				}
			}
			s = bytes.ReplaceAll(s, []byte{0x03}, nil)
			if !record {
				s = bytes.ReplaceAll(s, []byte{0x12}, nil)
			}
			if len(s) > 0 {
				tty.Type(s)
			}
		}
		r.S.Sleep(1e9)
		switch ending {
		case 1:
			sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[r.Choose(3)]
			r.S.WaitUntil("its start", 100e9, func() bool { return over() || r.K.Registered(p, sig) > 0 })
			r.K.Raise(p, sig)
		case 2:
			tty.Hangup()
		default:
			tty.Type([]byte("\x1b\\")) // ends any string
			for i := 0; i < 50 && !over(); i++ {
				tty.Type([]byte{0x03})
				r.S.Sleep(4e9)
			}
		}
	})
	ended, _ := r.demoProg(4000e9, main, args...)
	if !ended {
		r.Fail("stuck", "it does not end, ending %d; screen:\n%s\ntasks:\n%s", ending, tio.vt.String(), r.S.Dump())
	}
	if s := tio.differs(true, true, true); s != "" && ending != 2 {
		r.Fail("restore", "at the end %s", s)
	}
}

func scenC28(r *R) {
	r.schedConfig()
	switch r.Pick(3, 3, 2, 1, 2) {
	case 0:
		demoSweep(r)
	case 1:
		lolwutUser(r)
	case 2:
		lolwutStatic(r)
	case 3:
		demoChaos(r, zzdemo.SimMain, []string{"demo"})
	case 4:
		demoChaos(r, zzlolwut.SimMain, []string{"lolwut", "-i"})
	}
}

// watcher waits for a picture to be shown.
type watcher struct {
	r   *R
	tio *termIO
	w   int
	h   int

	slow   bool
	sized  bool // the size was asked for since the last resize
	stops  int
	paused bool
}

func (r *R) newWatcher(w, h int) *watcher {
	wa := &watcher{r: r, tio: r.newTermIO(false), w: w, h: h}
	wa.tio.vt.resize(w, h)
	wa.tio.tty.Resize(w, h)
	if wa.slow = r.Pct(30); wa.slow {
		r.slowTTY(wa.tio.tty)
		wa.tio.tty.PauseMax /= 50
	} else {
		r.S.Slow = 20
	}
	wa.tio.save()
	wa.sized = true
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "winsz" && op.Res == 0 {
			wa.sized = true
		}
	}
	r.K.OnStop = func(p *sim.Proc) {
		wa.stops++
		r.S.Fault("suspend")
		if s := wa.tio.differs(true, true, true); s != "" {
			r.Fail("stop-state", "when it is suspended %s", s)
		}
		r.S.After(int64(r.Choose(3000))*1000, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	return wa
}

func (wa *watcher) over() bool { return wa.r.K.Prog.Exited || wa.r.K.Prog.Dead }

// shows waits for the terminal to show what wrong finds nothing wrong with.
func (wa *watcher) shows(what string, wrong func() string) bool {
	r, n, s := wa.r, -1, ""
	limit := int64(20e9)
	if wa.slow {
		limit = 120e9
	}
	tty := wa.tio.tty
	if !r.S.WaitUntil(what, limit, func() bool { return wa.over() || tty.Taken() == len(tty.Arrived) && wa.sized }) {
		r.Fail("stuck", "after %s: input isn't read, or the size not taken notice of\n%s", what, r.S.Dump())
	}
	r.S.Sleep(50e6) // the frame that took the input is over in a while
	if !r.S.WaitUntil(what, limit, func() bool {
		if m := len(wa.tio.tty.Out); m != n {
			n = m
			s = wrong()
		}
		return wa.over() || s == ""
	}) {
		r.Fail("picture", "after %s on %dx%d: %s\n%s\ntasks:\n%s", what, wa.w, wa.h, s, wa.tio.vt.String()+fmt.Sprintf("%q", tail(wa.tio.tty.Out, 200)), r.S.Dump())
	}
	if !wa.over() && what != "the start" {
		r.Trivial = false
	}
	return !wa.over()
}

// disturb does something that the picture has to get over.
func (wa *watcher) disturb(minW, maxW, minH, maxH int) (string, bool) {
	r := wa.r
	switch r.Pick(3, 2, 2, 1) {
	case 0:
		r.S.Fault("resize")
		w, h := wa.w, wa.h
		wa.w, wa.h = r.newSize(w, h, minW, maxW, minH, maxH)
		if wa.w != w || wa.h != h {
			r.zeroSize(wa.tio.tty, w, h)
		}
		wa.sized = w == wa.w && h == wa.h
		wa.tio.vt.resize(wa.w, wa.h)
		wa.tio.tty.Resize(wa.w, wa.h)
		return "a resize", true
	case 1:
		s := wa.stops
		wa.tio.tty.Type([]byte("\x1a\x1a")[:1+r.Pick(4, 1)])
		ok := r.S.WaitUntil("a suspend", 400e9, func() bool { return wa.over() || wa.stops > s })
		if !ok {
			r.Fail("stuck", "it isn't suspended; tasks:\n%s", r.S.Dump())
		}
		return "a suspend", !wa.over()
	case 2:
		r.S.Sleep(int64(r.Choose(1500)) * 1e6)
		return "a while", !wa.over()
	}
	wa.tio.tty.Type([]byte([]string{"hello", "\r", "\x1b[A", "\x1b[<0;1;1M", "\x0c"}[r.Choose(5)]))
	return "typing", true
}

func (wa *watcher) end(main func(), interrupt int, args ...string) {
	r, p := wa.r, wa.r.K.Prog
	ended, returned := r.demoProg(4000e9, main, args...)
	if !ended {
		r.Fail("stuck", "it does not end; screen:\n%s\ntasks:\n%s", wa.tio.vt.String(), r.S.Dump())
	}
	if !wa.paused || !returned && p.ExitCode != interrupt || returned && interrupt != 0 {
		r.Fail("exit", "it ended with status %d, returned %v, want %d; interrupted %v", p.ExitCode, returned, interrupt, wa.paused)
	}
	if s := wa.tio.differs(true, true, true); s != "" {
		r.Fail("restore", "at the end %s", s)
	}
}

func demoSweep(r *R) {
	wa := r.newWatcher(1+r.Choose(40), 1+r.Choose(40))
	n := 1 + r.Choose(5)
	r.Descf("demo on %dx%d, %d disturbances", wa.w, wa.h, n)
	vt := wa.tio.vt
	var seen int64 // last time shown
	wrong := func() string {
		now := r.S.Now()
		first := true
		sweep := 0
		for y := 1; y <= wa.h; y++ {
			for x := 1; x <= wa.w; x++ {
				c := vt.at(x-1, y-1)
				want := ' '
				red := 0
				if y%16 == 0 {
					if first {
						first = false
						// the time, in tenths of seconds of its minute
						for t := now; ; t -= 100e6 {
							tm := r.demoTenths(t)
							if c.a == attrOf(demoBG(tm, x, y)) {
								if t < seen-100e6 {
									return "time goes backwards"
								}
								sweep = tm
								seen = t
								break
							}
							if now-t > 20e9 || now-t > 1e9 && !wa.slow {
								return fmt.Sprintf("cell %d,%d has %v, want the time (%d), or a bit earlier", x, y, c.a, r.demoTenths(now))
							}
						}
					}
					red = sweep
					want = rune('0' + sweep%10)
					sweep++
				}
				if c.r != want || c.a != attrOf(demoBG(red, x, y)) {
					return fmt.Sprintf("cell %d,%d has %q %v, want %q %v", x, y, c.r, c.a, want, attrOf(demoBG(red, x, y)))
				}
			}
		}
		return ""
	}
	r.Trivial = true
	r.S.Spawn("user", nil, func() {
		ok := wa.shows("the start", wrong)
		for ; n > 0 && ok; n-- {
			var s string
			if s, ok = wa.disturb(1, 40, 1, 40); ok {
				ok = wa.shows(s, wrong)
			}
		}
		wa.paused = ok
		wa.tio.tty.Type([]byte{0x03})
	})
	wa.end(zzdemo.SimMain, 0, "demo")
}

// lolwutModel draws squares.
type lolwutModel struct {
	w, h int // dots
	bits []bool
}

func (m *lolwutModel) set(x, y int) {
	if x >= 0 && y >= 0 && x < m.w && y < m.h {
		m.bits[y*m.w+x] = true
	}
}

func (m *lolwutModel) line(x0, y0, x1, y1 int) {
	dx, dy := x1-x0, y1-y0
	sx, sy := 1, 1
	if dx < 0 {
		dx = -dx
	}
	if dy < 0 {
		dy = -dy
	}
	if x0 >= x1 {
		sx = -1
	}
	if y0 >= y1 {
		sy = -1
	}
	err := dx - dy
	for m.set(x0, y0); x0 != x1 || y0 != y1; m.set(x0, y0) {
		e := 2 * err
		if e > -dy {
			err -= dy
			x0 += sx
		}
		if e < dx {
			err += dx
			y0 += sy
		}
	}
}

// lolwutDraw draws the picture, of disorder growing with every row.
func lolwutDraw(w, h, rows, cols, side, padding int, offset float64) *lolwutModel {
	m := &lolwutModel{w: w, h: h, bits: make([]bool, w*h)}
	rnd := rand.New(rand.NewSource(0))
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			cx, cy := x*side+side/2+padding, y*side+side/2+padding
			angle := offset
			if y > 0 {
				var rs [3]float64
				for i := range rs {
					rs[i] = rnd.Float64() / float64(rows) * float64(y)
				}
				for i := range rs {
					if rnd.Intn(2) == 1 {
						rs[i] = -rs[i]
					}
				}
				angle = offset + rs[0]
				cx += int(rs[1] * float64(side) / 3)
				cy += int(rs[2] * float64(side) / 3)
			}
			size := math.Round(float64(side) / math.Sqrt2)
			k := math.Pi/4 + angle
			pt := func() image.Point {
				return image.Pt(int(math.Round(math.Sin(k)*size))+cx, int(math.Round(math.Cos(k)*size))+cy)
			}
			last := pt()
			for i := 0; i < 4; i++ {
				k += math.Pi / 2
				p := pt()
				m.line(last.X, last.Y, p.X, p.Y)
				last = p
			}
		}
	}
	return m
}

// braille is the rune of a cell.
func (m *lolwutModel) braille(x, y int) rune {
	c := rune(0x2800)
	for i, d := range [8]image.Point{{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 1}, {1, 2}, {0, 3}, {1, 3}} {
		if px, py := 2*x+d.X, 4*y+d.Y; px < m.w && py < m.h && m.bits[py*m.w+px] {
			c |= 1 << uint(i)
		}
	}
	return c
}

func lolwutUser(r *R) {
	maxW, maxH := 16, 6
	wa := r.newWatcher(1+r.Choose(maxW), 1+r.Choose(maxH))
	n := 1 + r.Choose(5)
	r.Descf("lolwut -i on %dx%d, %d disturbances", wa.w, wa.h, n)
	vt := wa.tio.vt
	side := 20
	angles := []float64{0}
	first := 0 // the frame shown must not be an earlier one
	wrong := func() string {
		padding := 0
		if wa.w > 2 {
			padding = 2
		}
		cols, rows := ((wa.w-padding)*2+side-1)/side, ((wa.h-padding)*4+side-1)/side
		frames := int(r.S.Elapsed()/1e9*60) + 120
		shown := false
		for k := first; k < frames; k++ {
			for len(angles) <= k {
				a := angles[len(angles)-1] + 0.01
				if a > math.Pi {
					a -= math.Pi
				}
				angles = append(angles, a)
			}
			m := lolwutDraw(wa.w*2, wa.h*4, rows, cols, side, padding, angles[k])
			same := true
		cells:
			for y := 0; y < wa.h; y++ {
				for x := 0; x < wa.w; x++ {
					if vt.at(x, y).r != m.braille(x, y) {
						same = false
						break cells
					}
				}
			}
			if same {
				shown = true
				break
			}
		}
		if !shown {
			return fmt.Sprintf("it shows no picture of %dx%d squares of %d", cols, rows, side)
		}
		return ""
	}
	r.Trivial = true
	r.S.Spawn("user", nil, func() {
		ok := wa.shows("the start", wrong)
		for ; n > 0 && ok; n-- {
			s := "zooming"
			if r.Pct(40) {
				b, d := 64, -1
				if r.Pct(50) {
					b, d = 65, 1
				}
				for k := 1 + r.Choose(16); k > 0; k-- {
					wa.tio.tty.Type([]byte(fmt.Sprintf("\x1b[<%d;%d;%dM", b, 1+r.Choose(wa.w), 1+r.Choose(wa.h))))
					side = max(1, side+d)
					if r.Pct(20) {
						r.S.Sleep(int64(r.Choose(50)) * 1e6)
					}
				}
			} else {
				s, ok = wa.disturb(1, maxW, 1, maxH)
			}
			if ok {
				ok = wa.shows(s, wrong)
			}
		}
		wa.paused = ok
		wa.tio.tty.Type([]byte{0x03})
	})
	wa.end(zzlolwut.SimMain, 1, "lolwut", "-i")
}

func lolwutStatic(r *R) {
	args := []string{"lolwut"}
	v := [3]int{60, 8, 12}
	for i, n := 0, r.Choose(4); i < n; i++ {
		switch r.Pick(6, 1, 1) {
		case 0:
			v[i] = 1 + r.Choose([]int{80, 12, 16}[i])
			args = append(args, fmt.Sprint(v[i]))
		case 1:
			args = append(args, "")
		case 2:
			v[i] = 1
			args = append(args, "0")
		}
	}
	bad := false
	if r.Pct(5) {
		bad = true
		args = append(args[:1], "many")
	}
	padding := 0
	if v[0]*2 > 4 {
		padding = 2
	}
	side := int(float64(v[0]*2-padding*2) / float64(v[1]))
	h := side*v[2] + padding*2
	var want bytes.Buffer
	if !bad {
		m := lolwutDraw(v[0]*2, h, v[2], v[1], side, padding, 0)
		for y := 0; 4*y < h; y++ {
			if y > 0 {
				want.WriteByte('\n')
			}
			for x := 0; x < v[0]; x++ {
				want.WriteRune(m.braille(x, y))
			}
		}
		want.WriteByte('\n')
	}
	errPipe, _, errW := r.K.NewPipe("err")
	errPipe.Cap = 65536
	r.K.Install(2, errW)
	var out func() []byte
	file := r.Pct(50)
	if file {
		o := r.K.MkFile("/out", nil)
		r.K.Install(1, r.K.NewOFD("/out", o, syscall.O_WRONLY))
		out = func() []byte { return o.Data }
		if r.Pct(30) {
			r.K.Space = int64(r.Choose(want.Len() + 50))
		}
	} else {
		p, _, wr := r.K.NewPipe("out")
		p.Cap = []int{65536, 100, 5000}[r.Choose(3)]
		r.K.Install(1, wr)
		out = func() []byte { return p.Total }
		r.S.Spawn("consumer", nil, func() {
			for !r.K.Prog.Exited && !r.K.Prog.Dead {
				p.Take(1 + r.Choose(500))
				r.S.Sleep(int64(r.Choose(100)) * 1e6)
			}
		})
	}
	ofd := r.K.Lookup(1)
	pct, short := []int{0, 30}[r.Pick(3, 1)], []int{0, 50}[r.Choose(2)]
	failed := false
	r.K.OnOp = func(op *sim.Op) {
		if op.Kind != "write" || op.OFD != ofd {
			return
		}
		if pct > 0 && r.Pct(pct) {
			op.Err = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[r.Choose(2)]
		}
		if op.Len > 1 && (op.Err != 0 && r.Pct(50) || op.Err == 0 && r.Pct(short)) {
			op.Limit = 1 + r.Choose(op.Len-1)
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "write" && op.OFD == ofd && op.Res != 0 {
			failed = true
		}
	}
	r.Descf("%q, write faults %d%%, short %d%%", args, pct, short)
	ended, returned := r.demoProg(400e9, zzlolwut.SimMain, args...)
	p := r.K.Prog
	if !ended {
		r.Fail("stuck", "it does not end\n%s", r.S.Dump())
	}
	r.Trivial = !failed && short == 0
	got := bytes.ReplaceAll(out(), []byte{'\r'}, nil)
	switch {
	case bad || failed:
		if returned || p.ExitCode != 1 {
			r.Fail("exit", "%q ended with status %d, returned %v, although it failed", args, p.ExitCode, returned)
		}
		if !bytes.HasPrefix(want.Bytes(), got) || len(errPipe.Total) == 0 {
			r.Fail("output", "%q wrote %q, want a part of %q, and an error, got %q", args, got, want.Bytes(), errPipe.Total)
		}
	case !returned && p.ExitCode != 0:
		r.Fail("exit", "%q ended with status %d: %q", args, p.ExitCode, errPipe.Total)
	case !bytes.Equal(got, want.Bytes()):
		r.Fail("output", "%q wrote\n%s\nwant\n%s", args, got, want.Bytes())
	}
}

// demoTenths is the time of the minute, in tenths of seconds.
func (r *R) demoTenths(t int64) int { return int(t / 1e8 % 600) }

// demoBG is the background of a cell.
func demoBG(red, x, y int) ansi.SGRAttr {
	return ansi.RGB(uint8(red), uint8(x), uint8(y)).BG()
}
