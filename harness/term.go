package main

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	simsignal "github.com/jcorbin/anansi/zz/shim/signal"
	"github.com/jcorbin/anansi/zz/sim"
)

var termReal = []string{"anansi.Term, Attr, Mode, Input, Output, Contexts, Signal (term.go, attr.go, mode.go, input.go, output.go, context.go, signal.go)"}

func init() {
	register(&Scenario{
		ID: "C03", Quick: 1200000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws typed input in time and size, signal delays, spurious SIGIO, fcntl and read errors, and a program that sets up Notify (directly or by InputSignal), waits, reads and decodes, with output, " +
			"channel replacement, Notify(nil), RunWithout and repeated RunWith in between; non-trivial if the program was woken by SIGIO at least once",
		Real: termReal, Stub: kernelStub, Fn: scenC03,
	})
	register(&Scenario{
		ID: "C08", Quick: 1200000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws contexts (some failing), nestings of RunWith/RunWithout, endings (return, error, panic, signal), terminal speed and fcntl/ioctl/write faults; " +
			"non-trivial if there was a nesting, a failure, a panic or a fault",
		Real: termReal, Stub: termStub, Fn: scenC08,
	})
	register(&Scenario{
		ID: "C09", Quick: 1200000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws stop and continue timing, signal delivery delays, input and output around suspends, kill errors and terminal speed; non-trivial if the process was stopped at least once",
		Real: termReal, Stub: termStub, Fn: scenC09,
	})
	register(&Scenario{
		ID: "C10", Quick: 1200000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws signals raised by another task, delivery delays, and a program of Open/Enter/Exit/Close/Send/AsErr/receive calls; non-trivial if a signal was delivered while open",
		Real: []string{"anansi.Signal, SignalError (signal.go)", "anansi.Term.RunWith"}, Stub: kernelStub, Fn: scenC10,
	})
}

// termIO is a program's terminal files.
type termIO struct {
	r      *R
	tty    *sim.TTY
	in     *inSource
	inOFD  *sim.OFD
	outOFD *sim.OFD
	vt     *vt

	inFlags, outFlags int
	termios           syscall.Termios
	modes             string
}

// newTermIO draws how the program's terminal is set up.
func (r *R) newTermIO(pipeIn bool) *termIO {
	t := r.K.NewTTY("tty", 80, 24)
	io := &termIO{r: r, tty: t}
	o := r.K.NewOFD("tty", t, syscall.O_RDWR|0x8000)
	io.inOFD, io.outOFD = o, o
	io.in = &inSource{r: r, tty: t, ofd: o}
	switch r.Pick(3, 1, 1) {
	case 1: // opened separately
		io.outOFD = r.K.NewOFD("tty-out", t, syscall.O_RDWR|0x8000)
	case 2:
		if pipeIn {
			p, rd, _ := r.K.NewPipe("pipe")
			io.inOFD = rd
			io.in = &inSource{r: r, pipe: p, ofd: rd}
		}
	}
	if r.Pct(10) {
		io.inOFD.Flags |= syscall.O_NONBLOCK
		r.S.Fault("initially.nonblocking")
	}
	if io.outOFD != io.inOFD && r.Pct(10) {
		io.outOFD.Flags |= syscall.O_NONBLOCK
	}
	r.K.Install(0, io.inOFD)
	r.K.Install(1, io.outOFD)
	r.K.Install(2, r.K.NewOFD("null", sim.Null{}, syscall.O_WRONLY))
	io.vt = newVT(80, 24)
	t.Sink = func(b []byte) { io.vt.Write(b) }
	io.save()
	return io
}

func (io *termIO) modeString() string {
	var on []string
	for m, v := range io.vt.modes {
		if v && m != 25 {
			on = append(on, fmt.Sprint(m))
		}
	}
	if !io.vt.visible() {
		on = append(on, "hidden")
	}
	sort.Strings(on)
	return strings.Join(on, " ")
}

func (io *termIO) save() {
	io.inFlags, io.outFlags = io.inOFD.Flags, io.outOFD.Flags
	io.termios = io.tty.Termios
	io.modes = io.modeString()
}

// differs tells what of the terminal is not as saved.
func (io *termIO) differs(flags, termios, modes bool) string {
	if flags && io.inOFD.Flags != io.inFlags {
		return fmt.Sprintf("input descriptor flags are %#x, were %#x", io.inOFD.Flags, io.inFlags)
	}
	if flags && io.outOFD.Flags != io.outFlags {
		return fmt.Sprintf("output descriptor flags are %#x, were %#x", io.outOFD.Flags, io.outFlags)
	}
	if termios && io.tty.Termios != io.termios {
		return fmt.Sprintf("termios attributes are %+v, were %+v", io.tty.Termios, io.termios)
	}
	if m := io.modeString(); modes && m != io.modes {
		return fmt.Sprintf("terminal modes are %q, were %q", m, io.modes)
	}
	return ""
}

// ---- C03

func recvSig(c chan os.Signal) (os.Signal, bool) {
	rc := sim.RecvCase((<-chan os.Signal)(c))
	if sim.Select(true, rc) == 0 {
		return rc.V, true
	}
	return nil, false
}

func scenC03(r *R) {
	r.schedConfig()
	io := r.newTermIO(true)
	io.tty.Termios.Lflag &^= syscall.ICANON
	io.save()
	src := io.in
	r.slowTTY(io.tty)
	io.tty.WakeupSIG = []int{0, 20}[r.Pick(2, 1)]
	src.setMaxRead([]int{0, 1, 3, 17}[r.Pick(3, 1, 2, 1)])
	stream := make([]byte, 1+r.Choose([]int{4, 20, 80}[r.Pick(3, 3, 1)]))
	for i := range stream {
		stream[i] = byte('a' + i%26)
	}
	maxPiece := []int{3, 1, 20}[r.Pick(2, 2, 1)]
	maxGap := []int{0, 20, 3000, 200000}[r.Pick(1, 3, 3, 2)]
	readErr := []int{0, 10}[r.Pick(3, 1)]
	fcntlErr := []int{0, 10, 40}[r.Pick(4, 1, 1)]
	r.Descf("%d bytes in pieces of up to %d, gaps up to %dus, read errors %d%%, fcntl errors in Notify %d%%", len(stream), maxPiece, maxGap, readErr, fcntlErr)

	armed, faults, exitFault := false, 0, false
	r.K.OnOp = func(op *sim.Op) {
		if op.OFD != io.inOFD {
			return
		}
		switch op.Kind {
		case "read":
			if r.Pct(readErr) {
				op.Err = syscall.EIO
			}
		case "getfl", "setfl", "setown":
			if armed && r.Pct(fcntlErr) {
				op.Err = syscall.EIO
				faults++
			}
		}
	}
	feedDone := false
	r.S.Spawn("user", nil, func() {
		rest := stream
		for len(rest) > 0 {
			if maxGap > 0 {
				r.S.Sleep(int64(r.Choose(maxGap)) * 1000)
			}
			n := min(len(rest), 1+r.Choose(maxPiece))
			src.put(rest[:n])
			rest = rest[n:]
		}
		feedDone = true
	})

	decoded, woken := 0, 0
	finished := false
	rounds := 1 + r.Choose(2)
	useCtx := r.Pct(50)
	early := !useCtx && r.Pct(30)
	t := r.S.StartProc(r.K.Prog, "async", func() {
		sig := &anansi.InputSignal{}
		var term *anansi.Term
		if useCtx {
			term = anansi.NewTerm(simos.Stdin, simos.Stdout, sig)
		} else {
			term = anansi.NewTerm(simos.Stdin, simos.Stdout)
		}
		if r.Pct(30) {
			term.SetRaw(true)
		}
		if r.Pct(20) {
			term.AddMode(ansi.ModeAlternateScreen)
		}
		var ch chan os.Signal
		var old []chan os.Signal
		notify := func(c chan os.Signal) {
			for try := 0; ; try++ {
				armed, faults = try < 5, 0
				err := term.Input.Notify(c)
				armed = false
				r.S.Tracef("Notify = %v", err)
				if err == nil {
					return
				}
				if faults == 0 {
					r.Fail("notify-error", "Notify failed with %v without a fault", err)
				}
			}
		}
		if early {
			ch = make(chan os.Signal, 1)
			notify(ch)
		}
		drain := func() {
			for try := 0; ; try++ {
				_, err := term.Input.ReadAny()
				for {
					e, _, ok := term.Input.Decode()
					if !ok {
						break
					}
					if decoded >= len(stream) || rune(e) != rune(stream[decoded]) {
						r.Fail("corrupted", "decoded %q as byte %d", rune(e), decoded)
					}
					decoded++
				}
				if err == nil {
					return
				}
				if try > 50 {
					readErr = 0
				}
			}
		}
		lazy := r.Pct(50)
		maybe := func() { // what arrived before must be notified too
			if !lazy {
				drain()
			}
		}
		for round := 0; round < rounds; round++ {
			last := round == rounds-1
			steps := 1 + r.Choose(6)
			err := term.RunWith(func(term *anansi.Term) error {
				if useCtx {
					ch = sig.C
				} else if ch == nil || !early {
					ch = make(chan os.Signal, 1)
					notify(ch)
				}
				early = false
				maybe()
				for n := 0; last || n < steps; n++ {
					if decoded == len(stream) {
						return nil
					}
					switch r.Pick(12, 2, 1, 1, 1) {
					case 0:
						s := sim.Recv((<-chan os.Signal)(ch))
						if s != syscall.SIGIO {
							r.Fail("wrong-signal", "got %v on the input channel", s)
						}
						woken++
						drain()
					case 1:
						var b anansi.Buffer
						b.WriteString(r.outText(1+r.Choose(30), false))
						if err := term.Output.Flush(&b); err != nil {
							r.Fail("flush", "Flush failed: %v", err)
						}
					case 2:
						// another channel takes over
						old = append(old, ch)
						ch = make(chan os.Signal, 1)
						notify(ch)
						for _, c := range old {
							recvSig(c)
						}
						r.S.Sleep(int64(r.Choose(3000)) * 1000)
						for _, c := range old {
							if s, ok := recvSig(c); ok {
								r.Fail("old-channel", "%v delivered to a channel that was replaced", s)
							}
						}
						maybe()
					case 3:
						notify(nil)
						recvSig(ch)
						if io.inOFD.Flags&syscall.O_ASYNC != 0 {
							r.Fail("async-left-on", "after Notify(nil) the descriptor flags are %#x", io.inOFD.Flags)
						}
						r.S.Sleep(int64(r.Choose(5000)) * 1000)
						if s, ok := recvSig(ch); ok {
							r.Fail("notified-after-nil", "%v delivered after Notify(nil)", s)
						}
						notify(ch)
						maybe()
					case 4:
						if err := term.RunWithout(func(*anansi.Term) error {
							if d := io.differs(true, false, false); d != "" {
								r.Fail("flags-suspended", "inside RunWithout %s", d)
							}
							r.S.Sleep(int64(r.Choose(3000)) * 1000)
							return nil
						}); err != nil {
							r.Fail("runwithout", "RunWithout failed: %v", err)
						}
						if useCtx && ch != sig.C { // entering notifies its channel again
							var keep []chan os.Signal
							for _, c := range append(old, ch) {
								if c != sig.C {
									keep = append(keep, c)
								}
							}
							old, ch = keep, sig.C
						}
						maybe()
					}
				}
				return nil
			})
			if err != nil {
				r.Fail("runwith", "RunWith failed: %v", err)
			}
			if d := io.differs(true, false, false); d != "" && !exitFault {
				r.Fail("flags", "after RunWith %s", d)
			}
			for _, c := range append(old, ch) {
				recvSig(c)
			}
			src.put(nil)
			r.S.Sleep(int64(r.Choose(1000)) * 1000)
			for _, c := range append(old, ch) {
				if s, ok := recvSig(c); ok {
					r.Fail("notified-after-close", "%v delivered after RunWith ended", s)
				}
			}
			if n := r.K.Registered(r.K.Prog, syscall.SIGIO); n > 0 {
				r.Fail("still-registered", "SIGIO is still notified to a channel after RunWith ended")
			}
		}
		finished = true
	})
	r.S.WaitUntil("input", 1000e9, func() bool { return feedDone })
	r.S.WaitUntil("async program", 60e9, t.Done)
	if !finished {
		r.Fail("stuck", "%d of %d bytes handled and no signal is coming; tasks:\n%s", decoded, len(stream), r.S.Dump())
	}
	r.Trivial = woken == 0
}

// ---- C08

var errStop = errors.New("harness: stop")

type tctx struct {
	l    *ctxLedger
	i    int
	name string
}

func (c *tctx) Enter(term *anansi.Term) error { return c.l.enter(c) }
func (c *tctx) Exit(term *anansi.Term) error  { return c.l.exit(c) }

type tctxC struct{ tctx }

func (c *tctxC) Close() error { return c.l.close(&c.tctx) }

// ctxLedger watches the calls made to the contexts.
type ctxLedger struct {
	r       *R
	all     []*tctx
	closers int
	entered []*tctx        // currently entered, in order
	closed  map[*tctx]int  // since the last full run
	exited  map[*tctx]bool // exit called since the last enter
	failPct int
	fails   int
	phase   string
	first   error // first error of the ending of the current RunWith
	panics  bool
	enters  int
	exits   int
	closes  int
}

func (l *ctxLedger) isIn(c *tctx) bool {
	for _, o := range l.entered {
		if o == c {
			return true
		}
	}
	return false
}

func (l *ctxLedger) fail(c *tctx, what string) error {
	if !l.r.Pct(l.failPct) {
		return nil
	}
	l.fails++
	l.r.S.Fault("context." + what + ".error")
	err := fmt.Errorf("%s of %s fails", what, c.name)
	l.note(err)
	return err
}

func (l *ctxLedger) note(err error) {
	if l.first == nil {
		l.first = err
	}
}

func (l *ctxLedger) enter(c *tctx) error {
	l.enters++
	l.r.S.Tracef("enter %s", c.name)
	if l.phase != "enter" {
		l.r.Fail("enter-unexpected", "context %s entered during %s", c.name, l.phase)
	}
	if l.isIn(c) {
		l.r.Fail("entered-twice", "context %s entered again without an exit", c.name)
	}
	if n := len(l.entered); n > 0 && l.entered[n-1].i > c.i {
		l.r.Fail("enter-order", "context %s entered after %s", c.name, l.entered[n-1].name)
	}
	if k := len(l.entered); c.i != k {
		l.r.Fail("enter-others", "context %s entered after %d others", c.name, k)
	}
	err := l.fail(c, "enter")
	if err == nil {
		l.entered = append(l.entered, c)
	}
	return err
}

func (l *ctxLedger) exit(c *tctx) error {
	l.exits++
	l.r.S.Tracef("exit %s", c.name)
	if l.phase == "enter" {
		l.phase = "exit" // an enter failed
	}
	if l.phase != "exit" {
		l.r.Fail("exit-unexpected", "context %s exited during %s", c.name, l.phase)
	}
	if n := len(l.entered); l.isIn(c) {
		if l.entered[n-1] != c {
			l.r.Fail("exit-order", "context %s exited before %s, which was entered later", c.name, l.entered[n-1].name)
		}
		l.entered = l.entered[:n-1]
	}
	return l.fail(c, "exit")
}

func (l *ctxLedger) close(c *tctx) error {
	l.closes++
	l.r.S.Tracef("close %s", c.name)
	if l.phase != "exit" && l.phase != "enter" {
		l.r.Fail("close-unexpected", "context %s closed during %s", c.name, l.phase)
	}
	if len(l.entered) > 0 {
		l.r.Fail("close-before-exit", "context %s closed while %s is entered", c.name, l.entered[len(l.entered)-1].name)
	}
	l.closed[c]++
	return l.fail(c, "close")
}

type tpanic struct{ n int }

// groupContexts puts contexts into drawn groups, with nil ones in between, and
// with other groups that are made of the same parts.
func (r *R) groupContexts(l *ctxLedger, cs []anansi.Context, depth int) (g []anansi.Context) {
	for len(cs) > 0 {
		if r.Pct(15) {
			g = append(g, nil)
		}
		n := 1
		if r.Pct(50) && depth < 3 {
			n = 1 + r.Choose(len(cs))
			grp := anansi.Contexts(r.groupContexts(l, cs[:n], depth+1)...)
			if r.Pct(30) && len(cs) > n {
				// two groups that start with the same one
				stray := &tctx{l: l, i: 99, name: "stray"}
				rest := r.groupContexts(l, cs[n:], depth+1)
				both := anansi.Contexts(append([]anansi.Context{grp}, rest...)...)
				anansi.Contexts(grp, stray)
				return append(g, both)
			}
			g = append(g, grp)
		} else {
			g = append(g, cs[0])
		}
		cs = cs[n:]
	}
	if r.Pct(10) {
		g = append(g, nil)
	}
	return g
}

func scenC08(r *R) {
	r.schedConfig()
	io := r.newTermIO(true)
	r.slowTTY(io.tty)
	faultPct := []int{0, 3, 15}[r.Pick(3, 1, 1)]
	l := &ctxLedger{r: r, closed: map[*tctx]int{}, failPct: []int{0, 10, 30}[r.Pick(3, 2, 1)], phase: "setup"}
	hit := map[string]bool{} // resources that could not be restored
	errFault := errors.New("injected fault")
	attrFault := false
	r.K.OnOp = func(op *sim.Op) {
		if op.OFD != io.inOFD && op.OFD != io.outOFD {
			return
		}
		if l.phase == "attr" && op.Kind == "tcsets" && r.Pct(faultPct) {
			op.Err = syscall.EIO
			attrFault = true
			return
		}
		if l.phase != "enter" && l.phase != "exit" {
			return
		}
		switch op.Kind {
		case "getfl", "setfl", "tcgets", "tcsets", "write":
		default:
			return
		}
		if r.Pct(faultPct) {
			op.Err = syscall.EIO
			l.note(errFault)
			if l.phase == "exit" || l.first != nil && l.first != errFault {
				hit[map[string]string{"getfl": "flags", "setfl": "flags", "tcgets": "termios", "tcsets": "termios", "write": "modes"}[op.Kind]] = true
			}
			if op.OFD != io.inOFD && op.Kind == "setfl" {
				hit["flags"] = true // a flush could not restore them
			}
			// an output flush needs the flags too
			if op.Kind != "write" && l.phase == "exit" {
				hit["modes"] = true
			}
		}
	}
	r.Descf("syscall faults %d%%, context failures %d%%", faultPct, l.failPct)

	nontrivial := faultPct > 0 || l.failPct > 0
	t := r.prog("program", 600e9, func() {
		sig := anansi.Notify(syscall.SIGTERM, syscall.SIGINT)
		term := anansi.NewTerm(simos.Stdin, simos.Stdout)
		if r.Pct(70) {
			term.AddMode(ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt, ansi.ModeMouseBtnEvent)
		}
		if r.Pct(40) {
			term.AddModePair(ansi.ShowCursor.Reset(), ansi.ShowCursor.Set())
		}
		if r.Pct(30) {
			term.AddMode(ansi.ModeBracketedPaste)
		}
		if r.Pct(30) {
			set, reset := string(term.Mode.Set), string(term.Mode.Reset)
			for k := 1 + r.Choose(3); k > 0; k-- {
				seqs := []ansi.Seq{ansi.SGRReset, ansi.ShowCursor.Set(), ansi.SoftReset, ansi.ModeMouseSgrExt.Reset()}[r.Choose(3):]
				seqs = seqs[:1+r.Choose(len(seqs))]
				term.AddModeSeq(seqs...)
				for _, seq := range seqs {
					s := string(seq.AppendTo(nil))
					set, reset = set+s, s+reset
				}
			}
			if got := string(term.Mode.Set); got != set {
				r.Fail("mode", "the mode set string is %q, want %q", got, set)
			}
			if got := string(term.Mode.Reset); got != reset {
				r.Fail("mode", "the mode reset string is %q, want %q", got, reset)
			}
		}
		raw, echo := r.Pct(60), r.Pct(30)
		if raw {
			term.SetRaw(true)
		}
		if echo {
			term.SetEcho(true)
		}
		checkRaw := func(when string) {
			const lflag = syscall.ICANON | syscall.ISIG | syscall.IEXTEN
			got, was := io.tty.Termios, io.termios
			want := was.Lflag & lflag
			if raw {
				want = 0
			}
			if got.Lflag&lflag != want {
				r.Fail("raw-not-set", "%s, raw mode %v, termios attributes are %+v, were %+v", when, raw, got, was)
			}
			if raw && (got.Iflag&(syscall.ICRNL|syscall.IXON|syscall.BRKINT|syscall.ISTRIP|syscall.INPCK) != 0 || got.Oflag&syscall.OPOST != 0 || got.Cc[syscall.VMIN] != 1 || got.Cc[syscall.VTIME] != 0 || got.Cflag&syscall.CSIZE != syscall.CS8) ||
				!raw && (got.Iflag != was.Iflag || got.Oflag != was.Oflag || got.Cflag != was.Cflag || got.Cc != was.Cc) {
				r.Fail("raw-not-set", "%s, raw mode %v, termios attributes are %+v, were %+v", when, raw, got, was)
			}
			if is := got.Lflag&syscall.ECHO != 0; is != echo && (raw || echo) {
				r.Fail("echo-not-set", "%s, raw mode %v, echo is %v, not %v", when, raw, is, echo)
			}
		}
		term.AddContext(&sig)
		n := 1 + r.Choose(4)
		var batch []anansi.Context
		for i := 0; i < n; i++ {
			c := tctx{l: l, i: i, name: fmt.Sprintf("ctx%d", i)}
			if r.Pct(60) {
				cc := &tctxC{c}
				l.all = append(l.all, &cc.tctx)
				l.closers++
				batch = append(batch, cc)
			} else {
				l.all = append(l.all, &c)
				batch = append(batch, &c)
			}
			if r.Pct(25) {
				term.AddContext(r.groupContexts(l, batch, 0)...)
				batch = nil
			}
		}
		term.AddContext(r.groupContexts(l, batch, 0)...)

		noAdd := func(where string) {
			ok := false
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, is := p.(string); !is {
							panic(p)
						}
						ok = true
					}
				}()
				term.AddContext(&tctx{l: l, name: "late"})
			}()
			if !ok {
				r.Fail("late-context", "AddContext did not panic %s", where)
			}
		}
		// a RunWith inside of RunWithout enters and leaves as any other
		inner := func(term *anansi.Term) {
			f0, c0, closed := faultPct, l.failPct, l.closed
			faultPct, l.failPct, l.closed = 0, 0, map[*tctx]int{}
			l.phase = "enter"
			want := error(nil)
			if r.Pct(30) {
				want = errors.New("inner error")
			}
			err := term.RunWith(func(*anansi.Term) error {
				l.phase = "within"
				if len(l.entered) != len(l.all) {
					r.Fail("not-entered", "%d of %d contexts are entered in a RunWith inside RunWithout", len(l.entered), len(l.all))
				}
				noAdd("in a RunWith inside RunWithout")
				l.phase = "exit"
				return want
			})
			if err != want {
				r.Fail("wrong-error", "RunWith inside RunWithout returned %v, want %v", err, want)
			}
			total := 0
			for _, n := range l.closed {
				total += n
			}
			if len(l.entered) > 0 || total != l.closers {
				r.Fail("not-closed", "after a RunWith inside RunWithout %d contexts are entered, %d of %d that have Close were closed", len(l.entered), total, l.closers)
			}
			if d := io.differs(true, true, true); d != "" {
				r.Fail("not-restored", "after a RunWith inside RunWithout %s", d)
			}
			faultPct, l.failPct, l.closed = f0, c0, closed
			l.phase = "without"
		}
		var within func(depth int) error
		ending := func() error {
			switch r.Pick(5, 2, 2, 1) {
			case 1:
				nontrivial = true
				return errStop
			case 2:
				nontrivial = true
				l.panics = true
				r.S.Fault("panic")
				panic(tpanic{42})
			case 3:
				r.K.Raise(r.K.Prog, syscall.SIGTERM)
				for {
					if err := sig.AsErr(); err != nil {
						nontrivial = true
						return err
					}
					r.S.Sleep(1e6)
				}
			}
			return nil
		}
		// state the terminal is expected to be in while entered
		var inTermios syscall.Termios
		var inModes string
		broken := false
		within = func(depth int) error {
			for k := r.Choose(4); k > 0; k-- {
				switch r.Pick(4, 2, 2, 2, 3, 1) {
				case 0:
					var b anansi.Buffer
					b.WriteString(r.outText(1+r.Choose(30), false))
					term.Output.Flush(&b)
				case 1:
					term.Input.ReadAny()
				case 2:
					what, on := &raw, r.Pct(50)
					set := term.SetRaw
					if r.Pct(50) {
						what, set = &echo, term.SetEcho
					}
					if l.phase == "within" {
						l.phase = "attr"
						attrFault = false
					}
					err := set(on)
					if l.phase == "attr" {
						l.phase = "within"
					}
					if (err != nil) != attrFault && !broken {
						r.Fail("attr-error", "SetRaw/SetEcho(%v) returned %v, its system call failed: %v", on, err, attrFault)
					}
					if err == nil {
						*what = on
					}
					if !broken {
						checkRaw("after SetRaw/SetEcho")
						if is := io.tty.Termios.Lflag&syscall.ECHO != 0; err == nil && what == &echo && is != on {
							r.Fail("echo-not-set", "after SetEcho(%v) echo is %v", on, is)
						}
					}
					inTermios = io.tty.Termios
				case 3:
					if depth > 3 {
						continue
					}
					nontrivial = true
					e0, x0 := l.enters, l.exits
					want := error(nil)
					if r.Pct(30) {
						want = errors.New("inner error")
					}
					ran := false
					err := term.RunWith(func(t2 *anansi.Term) error {
						ran = true
						if t2 != term {
							r.Fail("nested-term", "RunWith passed another terminal")
						}
						if r.Pct(40) {
							if err := within(depth + 1); err != nil {
								want = err
							}
						}
						if want == nil && l.exits-x0 != l.enters-e0 {
							r.Fail("nested-balance", "inside a nested RunWith there were %d enters and %d exits", l.enters-e0, l.exits-x0)
						}
						e0, x0 = l.enters, l.exits
						return want
					})
					if !ran {
						r.Fail("not-run", "RunWith inside RunWith did not run its function: %v", err)
					}
					if err != want {
						r.Fail("nested-error", "RunWith inside RunWith returned %v, want %v", err, want)
					}
					if l.enters != e0 || l.exits != x0 {
						r.Fail("nested-enter", "RunWith inside RunWith entered or exited contexts")
					}
					if err != nil && (broken || r.Pct(50)) {
						return err
					}
				case 4:
					if depth > 3 {
						continue
					}
					nontrivial = true
					l.phase = "exit"
					l.first = nil
					ran := false
					var werr error
					var pan bool
					err := func() (err error) {
						return term.RunWithout(func(t2 *anansi.Term) error {
							ran = true
							l.phase = "without"
							if len(l.entered) > 0 {
								r.Fail("without-entered", "context %s is entered inside RunWithout", l.entered[0].name)
							}
							if d := io.differs(!hit["flags"], !hit["termios"], !hit["modes"]); d != "" {
								r.Fail("without-state", "inside RunWithout %s", d)
							}
							if r.Pct(30) {
								x0, e0 := l.exits, l.enters
								if err := term.RunWithout(func(*anansi.Term) error { return nil }); err != nil {
									r.Fail("nested-without", "RunWithout inside RunWithout failed: %v", err)
								}
								if l.exits != x0 || l.enters != e0 {
									r.Fail("nested-without", "RunWithout inside RunWithout entered or exited contexts")
								}
							}
							if r.Pct(15) && len(hit) == 0 {
								inner(term)
							}
							noAdd("inside RunWithout")
							r.S.Sleep(int64(r.Choose(2000)) * 1000)
							switch r.Pick(6, 1, 1) {
							case 1:
								werr = errors.New("without fails")
								l.note(werr)
							case 2:
								pan = true
								l.panics = true
								r.S.Fault("panic")
								l.phase = "exit"
								panic(tpanic{42})
							}
							l.phase = "enter"
							if werr != nil {
								l.phase = "within"
							}
							return werr
						})
					}()
					_ = pan
					if l.first != nil {
						if err == nil || l.first != errFault && err != l.first {
							r.Fail("without-error", "RunWithout returned %v, the first error was %v", err, l.first)
						}
					} else if err != nil {
						r.Fail("without-error", "RunWithout failed with %v although nothing failed", err)
					}
					if err != nil {
						broken = true // the contexts are not entered again
						return err
					}
					if !ran {
						r.Fail("not-run", "RunWithout did not run its function")
					}
					if len(l.entered) != len(l.all) {
						r.Fail("not-reentered", "after RunWithout %d of %d contexts are entered", len(l.entered), len(l.all))
					}
					if io.tty.Termios != inTermios {
						r.Fail("reentered-termios", "after RunWithout termios attributes are %+v, were %+v", io.tty.Termios, inTermios)
					}
					if m := io.modeString(); m != inModes {
						r.Fail("reentered-modes", "after RunWithout modes are %q, were %q", m, inModes)
					}
					l.phase = "within"
				case 5:
					noAdd("under RunWith")
				}
			}
			return ending()
		}

		for round := 1 + r.Choose(2); round > 0; round-- {
			l.closed = map[*tctx]int{}
			l.first, l.panics, broken = nil, false, false
			l.phase = "enter"
			hit = map[string]bool{}
			var err, werr error
			ran, panicked := false, false
			func() {
				defer func() {
					if p := recover(); p != nil {
						if tp, is := p.(tpanic); !is || tp.n != 42 {
							panic(p)
						}
						panicked = true
					}
				}()
				err = term.RunWith(func(t2 *anansi.Term) error {
					ran = true
					l.phase = "within"
					if len(l.entered) != len(l.all) {
						r.Fail("not-entered", "%d of %d contexts are entered inside RunWith", len(l.entered), len(l.all))
					}
					inTermios, inModes = io.tty.Termios, io.modeString()
					checkRaw("in RunWith")
					l.first = nil
					done := false
					defer func() {
						l.phase = "exit"
						if !done { // panicking
							l.first = nil
						}
					}()
					werr = within(0)
					done = true
					l.first = werr
					return werr
				})
			}()
			r.S.Tracef("RunWith = %v (panicked %v)", err, panicked)
			l.phase = "ended"
			if l.panics != panicked {
				r.Fail("panic-lost", "the function panicked, but RunWith returned %v", err)
			}
			if !panicked {
				if l.first != nil {
					if err == nil || l.first != errFault && err != l.first {
						r.Fail("wrong-error", "RunWith returned %v, the first error was %v", err, l.first)
					}
				} else if err != nil {
					r.Fail("wrong-error", "RunWith failed with %v although nothing failed", err)
				}
			}
			if !ran && err == nil {
				r.Fail("not-run", "RunWith returned nil without running its function")
			}
			if len(l.entered) > 0 {
				r.Fail("not-exited", "after RunWith context %s is still entered", l.entered[0].name)
			}
			total := 0
			for _, c := range l.all {
				if l.closed[c] > 1 {
					r.Fail("closed-twice", "context %s was closed %d times", c.name, l.closed[c])
				}
				total += l.closed[c]
			}
			if total != l.closers {
				r.Fail("not-closed", "%d of %d contexts that have Close were closed", total, l.closers)
			}
			if d := io.differs(!hit["flags"], !hit["termios"], !hit["modes"]); d != "" {
				r.Fail("not-restored", "after RunWith %s", d)
			}
			if len(hit) > 0 {
				return // the terminal was left behind by a fault, as reported
			}
			if r.Pct(40) { // somebody else uses the terminal in between
				tt := &io.tty.Termios
				switch r.Choose(5) {
				case 0:
					tt.Lflag ^= syscall.ECHO
				case 1:
					tt.Iflag ^= syscall.IXON
				case 2:
					tt.Cc[syscall.VERASE] ^= 0x77
				case 3:
					tt.Oflag ^= syscall.OPOST
				case 4:
					io.inOFD.Flags ^= syscall.O_NONBLOCK
				}
				r.S.Tracef("terminal is changed in between")
				io.save()
			}
			if r.Pct(30) { // another mode from the next entry on
				before := io.tty.Termios
				var err error
				if r.Pct(50) {
					raw = !raw
					err = term.SetRaw(raw)
				} else {
					echo = !echo
					err = term.SetEcho(echo)
				}
				if err != nil || io.tty.Termios != before {
					r.Fail("attr-outside", "SetRaw/SetEcho outside of RunWith returned %v and left termios attributes %+v, were %+v", err, io.tty.Termios, before)
				}
			}
			if r.Pct(30) { // possible again
				c := &tctx{l: l, i: len(l.all), name: fmt.Sprintf("ctx%d", len(l.all))}
				l.all = append(l.all, c)
				term.AddContext(c)
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the program did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = !nontrivial
}

// ---- C09

func scenC09(r *R) {
	r.schedConfig()
	io := r.newTermIO(false)
	r.slowTTY(io.tty)
	killErr := []int{0, 15}[r.Pick(4, 1)]
	contMax := []int{0, 100, 20000}[r.Pick(2, 2, 1)]
	killed := 0
	r.K.OnOp = func(op *sim.Op) {
		if op.Kind == "kill" && op.Arg == int(syscall.SIGTSTP) && r.Pct(killErr) {
			op.Err = []syscall.Errno{syscall.EPERM, syscall.ESRCH}[r.Choose(2)]
			killed++
		}
	}
	stops, conts := 0, 0
	inSuspend, active := false, false
	// another process of the job, and one that is none of it
	peer, outsider := r.K.NewProc("peer"), r.K.NewProc("outsider")
	if r.Pct(50) {
		peer.Pgid = r.K.Prog.Pgid
	} else {
		r.K.Prog.Pgid = peer.Pgid
	}
	r.K.OnStop = func(p *sim.Proc) {
		if p != r.K.Prog {
			return
		}
		stops++
		if !inSuspend {
			r.Fail("late-stop", "the process is stopped although Suspend has returned")
		}
		if d := io.differs(true, true, true); d != "" {
			r.Fail("stop-state", "when the process stops %s", d)
		}
		d := int64(r.Choose(contMax+1)) * 1000
		r.S.After(d, func() {
			conts++
			r.K.Raise(p, syscall.SIGCONT)
			r.K.Raise(peer, syscall.SIGCONT)
		})
	}
	r.Descf("kill errors %d%%, continue within %dus", killErr, contMax)
	finished := false
	suspends := 0
	if r.Pct(30) {
		r.S.Spawn("user", nil, func() {
			for k := r.Choose(10); k >= 0; k-- {
				io.in.put([]byte{byte('a' + r.Choose(26))})
				r.S.Sleep(int64(r.Choose(2000)) * 1000)
			}
		})
	}
	t := r.S.StartProc(r.K.Prog, "program", func() {
		isig := &anansi.InputSignal{}
		halt := anansi.Notify(syscall.SIGTERM, syscall.SIGINT)
		term := anansi.NewTerm(simos.Stdin, simos.Stdout)
		l := &ctxLedger{r: r, closed: map[*tctx]int{}}
		c := &tctx{l: l, name: "ctx"}
		l.all = append(l.all, c)
		if r.Pct(50) {
			term.AddContext(&halt)
		}
		if r.Pct(50) {
			term.AddContext(isig)
		}
		term.AddContext(c)
		// the program itself may want to know that it has been continued
		own := anansi.Notify(syscall.SIGCONT)
		ownCtx := r.Pct(50)
		ownOpen := func() bool { return own.C != nil }
		if ownCtx {
			term.AddContext(&own)
		} else if r.Pct(50) {
			own.Open()
		}
		if r.Pct(70) {
			term.AddMode(ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt, ansi.ModeMouseBtnEvent)
		}
		if r.Pct(40) {
			term.AddModePair(ansi.ShowCursor.Reset(), ansi.ShowCursor.Set())
		}
		if r.Pct(70) {
			term.SetRaw(true)
		}
		suspend := func() error {
			s0, k0, sent0 := stops, killed, peer.Sent[syscall.SIGTSTP]
			x0, e0, c0 := l.exits, l.enters, l.closes
			inFlags, outFlags, termios, modes := io.inOFD.Flags, io.outOFD.Flags, io.tty.Termios, io.modeString()
			out0 := len(io.tty.Out)
			reg0 := r.K.Registered(r.K.Prog, syscall.SIGCONT)
			inSuspend = true
			if active {
				l.phase = "exit"
			}
			if active {
				// the contexts come back once the process is continued
				r.K.Observe = func(op *sim.Op) {
					if op.Kind == "kill" {
						l.phase = "enter"
					}
				}
			}
			err := term.Suspend()
			inSuspend = false
			l.phase = "within"
			suspends++
			r.S.Tracef("Suspend = %v", err)
			if n := r.K.Registered(r.K.Prog, syscall.SIGCONT); n != reg0 {
				r.Fail("trace", "%d channels get SIGCONT after Suspend, %d did before", n, reg0)
			}
			if outsider.Sent[syscall.SIGTSTP] > 0 {
				r.Fail("group", "Suspend stops a process of another group")
			}
			if killed > k0 {
				if err == nil {
					r.Fail("kill-error-lost", "stopping failed, but Suspend returned nil")
				}
				if stops > s0 {
					r.Fail("stopped", "stopping failed, but the process was stopped")
				}
				return err
			}
			if err != nil {
				r.Fail("suspend-error", "Suspend failed: %v", err)
			}
			if stops != s0+1 {
				r.Fail("not-stopped", "Suspend returned after the process was stopped %d times", stops-s0)
			}
			if n := peer.Sent[syscall.SIGTSTP] - sent0; n != 1 {
				r.Fail("group", "the other process of the process group was stopped %d times by Suspend", n)
			}
			if ownOpen() {
				r.S.Sleep(int64(1e6))
				if s, ok := recvSig(own.C); !ok || s != syscall.SIGCONT {
					r.Fail("continue-lost", "the program's own SIGCONT signal received %v, %v after Suspend", s, ok)
				}
			}
			if stops != conts || r.K.Prog.Stopped {
				r.Fail("not-continued", "Suspend returned before the process was continued")
			}
			if io.tty.Termios != termios || io.modeString() != modes {
				r.Fail("resumed-state", "after Suspend modes are %q, were %q; termios attributes are %+v, were %+v", io.modeString(), modes, io.tty.Termios, termios)
			}
			if active && (l.exits != x0+1 || l.enters != e0+1 || l.closes != c0) {
				r.Fail("contexts", "Suspend exited the contexts %d times, entered them %d times and closed them %d times", l.exits-x0, l.enters-e0, l.closes-c0)
			}
			if !active && (len(io.tty.Out) != out0 || io.inOFD.Flags != inFlags || io.outOFD.Flags != outFlags || l.exits != x0 || l.enters != e0) {
				r.Fail("touched", "Suspend outside of an active context touched the terminal")
			}
			return nil
		}
		for k := r.Choose(3); k > 0; k-- {
			suspend()
		}
		l.phase = "enter"
		var serr error
		err := term.RunWith(func(*anansi.Term) error {
			active = true
			l.phase = "within"
			defer func() {
				active = false
				l.phase = "exit"
			}()
			for k := 1 + r.Choose(5); k > 0; k-- {
				switch r.Pick(4, 2, 1, 1) {
				case 0:
					if serr = suspend(); serr != nil {
						return serr
					}
				case 1:
					var b anansi.Buffer
					b.WriteString(r.outText(1+r.Choose(30), false))
					term.Output.Flush(&b)
				case 2:
					term.Input.ReadAny()
				case 3:
					r.S.Sleep(int64(r.Choose(2000)) * 1000)
				}
			}
			return nil
		})
		if err != serr {
			r.Fail("runwith", "RunWith returned %v, want %v", err, serr)
		}
		l.phase = "ended"
		if d := io.differs(true, true, true); d != "" {
			r.Fail("not-restored", "after RunWith %s", d)
		}
		if r.Pct(20) {
			suspend()
		}
		finished = true
	})
	r.S.WaitUntil("program", 600e9, t.Done)
	if !finished {
		r.Fail("stuck", "the program did not finish although every stop was followed by a continue (%d stops, %d continues); tasks:\n%s", stops, conts, r.S.Dump())
	}
	r.Trivial = stops == 0
}

// ---- C10

func scenC10(r *R) {
	r.schedConfig()
	io := r.newTermIO(false)
	sigs := []syscall.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGINT}
	asked := map[syscall.Signal]bool{}
	var notify []os.Signal
	for _, s := range sigs {
		if r.Pct(50) {
			asked[s] = true
			notify = append(notify, s)
		}
	}
	stopUser := false
	gaps := []int{10, 1000, 100000}[r.Pick(1, 1, 1)]
	guarded := false
	user := r.S.Spawn("user", nil, func() {
		r.S.Block("guard", func() bool { return guarded })
		for k := r.Choose(20); k >= 0 && !stopUser; k-- {
			s := sigs[r.Choose(len(sigs))]
			r.S.Tracef("raise %v", s)
			r.K.Raise(r.K.Prog, s)
			r.S.Sleep(int64(r.Choose(gaps)) * 1000)
		}
	})
	nontrivial, finished := false, false
	t := r.S.StartProc(r.K.Prog, "program", func() {
		guard := make(chan os.Signal, 1)
		simsignal.Notify(guard) // so that nothing kills the program
		guarded = true
		sig := anansi.Notify(notify...)
		term := anansi.NewTerm(simos.Stdin, simos.Stdout, &sig)
		open := false
		var base map[syscall.Signal]int // deliveries when first open
		got := map[syscall.Signal]int{}
		synth, synthGot := 0, 0 // since Open
		nsynth := 0             // all that were sent
		pre := ""               // sent before Open
		snap := func() map[syscall.Signal]int {
			m := map[syscall.Signal]int{}
			for k, v := range r.K.Delivered {
				m[k] = v
			}
			return m
		}
		var since map[syscall.Signal]int // deliveries when the channel was last empty
		var lo map[syscall.Signal]int    // deliveries at some earlier instant
		var sent bool                    // something was sent since the channel was last empty
		var front string                 // what is first in the channel, if known
		pendingAsked := func(a, b map[syscall.Signal]int) int {
			n := 0
			for s := range asked {
				n += b[s] - a[s]
			}
			return n
		}
		check := func(s os.Signal) {
			_, real := s.(syscall.Signal)
			if front == "real" && !real || front != "" && front != "real" && s.String() != front {
				r.Fail("displaced", "received %v, but %s was pending before", s, front)
			}
			switch v := s.(type) {
			case syscall.Signal:
				nontrivial = true
				if !asked[v] {
					r.Fail("unasked", "received %v, which was not asked for", v)
				}
				got[v]++
				if n := r.K.Delivered[v] - base[v]; got[v] > n {
					r.Fail("too-many", "received %v %d times, but it was delivered %d times since Open", v, got[v], n)
				}
			default:
				synthGot++
				if synthGot > synth {
					r.Fail("too-many", "received %d synthetic signals, but %d were sent", synthGot, synth)
				}
				if !strings.HasPrefix(s.String(), "synth") {
					r.Fail("unasked", "received unknown signal %q", s)
				}
			}
		}
		opened := func(before map[syscall.Signal]int) {
			if !open {
				base, since, lo = before, snap(), before
				got = map[syscall.Signal]int{}
				sent, front = false, ""
				synth, synthGot = 0, 0
				if pre != "" {
					sent, front, synth = true, pre, 1
				}
			}
			open, pre = true, ""
		}
		// the channel was empty at an instant no later than now
		emptied := func() { since, sent, front = snap(), false, "" }
		steps := func(inTerm bool) {
			for k := 1 + r.Choose(12); k > 0; k-- {
				op := r.Pick(3, 3, 2, 2, 2, 2, 2, 1)
				if op < 2 {
					lo = snap()
				}
				switch op {
				case 0: // AsErr
					at := r.S.Now()
					pend := open && (pendingAsked(since, r.K.Delivered) > 0 || sent)
					err := sig.AsErr()
					if r.S.Now()-at > int64(1e9) {
						r.Fail("aserr-blocks", "AsErr took %d ns", r.S.Now()-at)
					}
					if !open && pre != "" {
						if se, ok := err.(anansi.SignalError); !ok || se.Sig.String() != pre {
							r.Fail("lost", "AsErr returned %v although %s was sent", err, pre)
						}
						pre = ""
						break
					}
					if err == nil {
						if pend {
							r.Fail("lost", "AsErr returned nil although a signal was pending")
						}
						if open {
							emptied()
						}
						break
					}
					se, ok := err.(anansi.SignalError)
					if !ok {
						r.Fail("aserr-type", "AsErr returned %T", err)
					}
					if !open {
						r.Fail("closed-signal", "AsErr returned %v while closed", err)
					}
					check(se.Sig)
					emptied()
					want := 1
					if n, ok := se.Sig.(syscall.Signal); ok {
						want = -int(n)
					}
					if se.ExitCode() != want {
						r.Fail("exit-code", "exit code of %v is %d", se, se.ExitCode())
					}
				case 1: // receive
					if !open {
						break
					}
					pend := pendingAsked(since, r.K.Delivered) > 0 || sent
					if s, ok := recvSig(sig.C); ok {
						check(s)
						emptied()
					} else if pend {
						r.Fail("lost", "nothing to receive although a signal was pending")
					} else {
						emptied()
					}
				case 2: // Send
					if !open {
						if r.Pct(50) {
							nsynth++
							name := fmt.Sprintf("synth%d", nsynth)
							sig.Send(name)
							if pre == "" {
								pre = name
							}
							if len(sig.C) == 0 {
								r.Fail("send-lost", "nothing can be received after Send")
							}
						}
						break
					}
					synth++
					nsynth++
					before := pendingAsked(since, r.K.Delivered) > 0
					sig.Send(fmt.Sprintf("synth%d", nsynth))
					if sent {
						// coalesced with what was sent before
					} else if before {
						front = "real"
					} else if pendingAsked(lo, r.K.Delivered) == 0 {
						front = fmt.Sprintf("synth%d", nsynth)
					}
					sent = true
					if len(sig.C) == 0 {
						r.Fail("send-lost", "nothing can be received after Send")
					}
				case 3: // Open or Enter again
					if inTerm && !open {
						break
					}
					before := snap()
					var err error
					if r.Pct(50) {
						err = sig.Open()
					} else {
						err = sig.Enter(term)
					}
					if err != nil {
						r.Fail("open", "Open failed: %v", err)
					}
					opened(before)
				case 4:
					if err := sig.Exit(term); err != nil {
						r.Fail("exit", "Exit failed: %v", err)
					}
				case 5:
					if inTerm {
						break
					}
					c := sig.C
					if err := sig.Close(); err != nil {
						r.Fail("close", "Close failed: %v", err)
					}
					open, pre = false, ""
					if c != nil {
						recvSig(c)
						r.S.Sleep(int64(r.Choose(2*gaps)) * 1000)
						if s, ok := recvSig(c); ok {
							r.Fail("after-close", "%v delivered after Close", s)
						}
					}
					if err := sig.Close(); err != nil {
						r.Fail("close", "repeated Close failed: %v", err)
					}
				case 6:
					r.S.Sleep(int64(r.Choose(2*gaps)) * 1000)
				case 7:
					if !inTerm {
						break
					}
					if err := term.RunWithout(func(*anansi.Term) error {
						r.S.Sleep(int64(r.Choose(gaps)) * 1000)
						return nil
					}); err != nil {
						r.Fail("runwithout", "RunWithout failed: %v", err)
					}
				}
			}
		}
		for k := 1 + r.Choose(3); k > 0; k-- {
			if r.Pct(40) {
				if err := term.RunWith(func(*anansi.Term) error {
					// opened by Enter at some instant before now
					opened(map[syscall.Signal]int{})
					steps(true)
					return nil
				}); err != nil {
					r.Fail("runwith", "RunWith failed: %v", err)
				}
				open = false
				if sig.C != nil {
					r.Fail("not-closed", "the signal is still open after RunWith")
				}
			} else {
				steps(false)
			}
		}
		// a blocking receive gets what is raised while open
		if len(asked) > 0 {
			before := snap()
			sig.Open()
			stopUser = true
			opened(before)
			r.S.WaitUntil("user", 100e9, user.Done)
			r.S.Sleep(int64(200e6))
			recvSig(sig.C)
			var s syscall.Signal
			for _, o := range sigs {
				if asked[o] {
					s = o
				}
			}
			r.S.After(int64(r.Choose(1000)), func() { r.K.Raise(r.K.Prog, s) })
			if v := sim.Recv((<-chan os.Signal)(sig.C)); v != s {
				r.Fail("wrong-signal", "received %v, want %v", v, s)
			}
			nontrivial = true
		}
		sig.Close()
		if n := r.K.Registrations(r.K.Prog); n != 1 {
			r.Fail("still-registered", "%d channels are still registered after Close", n-1)
		}
		finished = true
	})
	r.S.WaitUntil("program", 600e9, t.Done)
	if !finished {
		r.Fail("stuck", "the program did not finish; tasks:\n%s", r.S.Dump())
	}
	_ = io
	r.Trivial = !nontrivial
}
