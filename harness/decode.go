package main

import (
	"bytes"
	"fmt"
	"regexp"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	zzdecode "github.com/jcorbin/anansi/cmd/decode"
	simlog "github.com/jcorbin/anansi/zz/shim/log"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C25", Quick: 200000, Thorough: 10000000, MaxSteps: 4000000,
		Rule: "each run draws what is typed and when, in normal or raw mode, with or without modes, the terminal's speed, interrupt signals, resizes, suspends and when it's continued, " +
			"read and write faults, and what ends it; non-trivial if a signal, resize or suspend came in between, or a fault was met",
		Real: append([]string{"cmd/decode (its main function, interactively)", "anansi.MustRun, Term.Suspend, Signal"}, termReal...), Stub: kernelStub, Fn: scenC25,
	})
}

// modeSeq matches what sets and resets terminal modes.
var modeSeq = regexp.MustCompile("\x1b\\[\\?[0-9;]*[hl]")

// modePart matches what may be the start of such a one.
var modePart = regexp.MustCompile("\x1b(\\[(\\?[0-9;]*)?)?$")

// decodeView reads what decode shows on its terminal.
type decodeView struct {
	raw   []byte // all that was written
	text  []byte // without what sets modes
	at    int    // of it, this was understood
	want  []inEvent
	texts []string // due for them
	typed int      // events shown of those
	synth int      // interrupts shown
	ints  int      // interrupts raised
	prior rune
	sizes []string // reported
	ctrlC string   // for an interrupt
	quit  bool     // it has been asked to quit
}

// decodeText is what's due for an event, without hints.
func decodeText(ev inEvent) string {
	e := ansi.Escape(ev.id)
	s := fmt.Sprintf("%U %v", e, e)
	if ev.arg != "" {
		s += fmt.Sprintf(" %q", ev.arg)
	}
	if e == 0xEF80|'M' || e == 0xEF80|'m' {
		btn, pt, err := ansi.DecodeXtermExtendedMouse(e, []byte(ev.arg))
		if err != nil {
			s += fmt.Sprintf(" mouse-err:%v", err)
		} else {
			s += fmt.Sprintf(" mouse-%v@%v", btn, pt)
		}
	}
	return s
}

func (d *decodeView) expect(es ...inEvent) {
	for _, e := range es {
		t := decodeText(e)
		d.want = append(d.want, e)
		d.texts = append(d.texts, t)
	}
}

// line is what's due for an event of the given text now.
func (d *decodeView) line(id rune, s string) string {
	switch {
	case id == 0x03 && d.prior == id:
		return s // the last one
	case id == 0x03:
		s += " \x1b[91m<press Ctrl-C again to quit>\x1b[0m"
	case id == 0x0c && d.prior == id:
		s += "\x1b[2J\x1b[H"
	case id == 0x0c:
		s += " \x1b[93m<press Ctrl-L again to quit>\x1b[0m"
	case id == 0x1a && d.prior != id:
		s += " \x1b[92m<press Ctrl-Z again to suspend>\x1b[0m"
	}
	return s + "\r\n"
}

// parse goes on reading, and reports the first thing that isn't due.
func (d *decodeView) parse() string {
	d.text = modeSeq.ReplaceAll(modePart.ReplaceAll(d.raw, nil), nil)
	for d.at < len(d.text) {
		rest := d.text[d.at:]
		if rest[0] == '[' {
			i := bytes.Index(rest, []byte(" ]"))
			if i < 0 {
				return ""
			}
			d.sizes = append(d.sizes, string(rest[:i+2]))
			d.at += i + 2
			continue
		}
		if d.quit {
			return fmt.Sprintf("%q after it was asked to quit", clipBytes(rest))
		}
		partial := false
		try := func(e rune, text string) bool {
			s := d.line(e, text)
			if len(rest) < len(s) {
				partial = partial || bytes.HasPrefix([]byte(s), rest)
				return false
			}
			if !bytes.HasPrefix(rest, []byte(s)) {
				return false
			}
			d.at += len(s)
			d.quit = e == 0x03 && d.prior == e
			d.prior = e
			return true
		}
		if d.typed < len(d.want) && try(d.want[d.typed].id, d.texts[d.typed]) {
			d.typed++
			continue
		}
		if d.synth < d.ints && try(0x03, d.ctrlC) {
			d.synth++
			continue
		}
		if partial {
			return ""
		}
		due := "nothing"
		if d.typed < len(d.want) {
			due = fmt.Sprintf("%q", d.line(d.want[d.typed].id, d.texts[d.typed]))
		}
		return fmt.Sprintf("it shows %q where %s is due, after %d events", clipBytes(rest), due, d.typed)
	}
	return ""
}

func scenC25(r *R) {
	r.schedConfig()
	simlog.SetOutput(simos.Stderr)
	tio := r.newTermIO(false)
	tty := tio.tty
	tio.inOFD.Flags &^= syscall.O_NONBLOCK
	tio.outOFD.Flags &^= syscall.O_NONBLOCK
	if r.Pct(40) {
		r.slowTTY(tty)
		tty.PauseMax /= 50
	}
	errFile := r.K.MkFile("/err", nil)
	r.K.Install(2, r.K.NewOFD("/err", errFile, syscall.O_WRONLY|0x8000))
	tio.save()

	args := []string{"decode"}
	raw := r.Pct(60)
	if raw {
		args = append(args, "-raw")
	}
	modes := tio.modes
	switch r.Pick(4, 2, 2, 1) {
	case 1:
		args, modes = append(args, "-mouse"), "1002 1003 1006 7"
	case 2:
		args, modes = append(args, "-alt"), "1049 7"
	case 3:
		args, modes = append(args, "-mouse", "-alt"), "1002 1003 1006 1049 7"
	}

	// what is typed, in pieces
	ints := r.Pct(30) // interrupts are signals rather than typed
	var pieces [][]byte
	var stream []byte
	for n := 1 + r.Choose([]int{3, 10, 30}[r.Pick(3, 2, 1)]); n > 0; n-- {
		var b []byte
		if len(pieces) == 0 {
			b = append(b, 'a') // shown once it is ready
		}
		for k := 1 + r.Choose(6); k > 0; k-- {
			var t []byte
			switch r.Pick(10, 2, 1, 1, 1) {
			case 0:
				t = r.genToken()
			case 1:
				t = r.genMouse(80, 24)
			case 2:
				t = bytes.Repeat([]byte{0x0c}, 1+r.Choose(3))
			case 3:
				t = bytes.Repeat([]byte{0x1a}, 1+r.Pick(3, 3, 1, 1))
			case 4:
				if !ints {
					t = []byte{0x03, byte('a' + r.Choose(26))}
				}
			}
			if ints && bytes.IndexByte(t, 0x03) >= 0 {
				continue
			}
			if len(t) == 1 && t[0] == 0x03 {
				t = append(t, '.')
			}
			if len(t) == 0 || endsInEsc(t) || len(t) > 1 && bytes.IndexByte(t, '\n') >= 0 {
				continue
			}
			b = append(b, t...)
		}
		if !raw {
			b = append(b, '\n')
		}
		if len(b) == 0 {
			continue
		}
		pieces = append(pieces, b)
		stream = append(stream, b...)
	}
	ending := r.Pick(3, 3, 2, 2, 2) // quit, signal, end of input, read error, write error
	partial := false
	if last := pieces[len(pieces)-1]; ending == 2 && len(pieces) > 1 && r.Pct(30) {
		// the last piece is cut
		n := r.Choose(len(last))
		pieces[len(pieces)-1] = last[:n]
		stream = stream[:len(stream)-len(last)+n]
		partial = true
	}
	want, bad := r.filterEvents(stream, true)
	if len(bad) > 0 {
		r.S.Trouble = fmt.Sprintf("generator left the grammar: %q", clipBytes(bad))
		r.Fail("trouble", "")
	}
	d := &decodeView{ctrlC: decodeText(inEvent{id: 0x03})}
	d.expect(want...)
	tty.Sink = func(b []byte) {
		tio.vt.Write(b)
		d.raw = append(d.raw, b...)
	}
	look := func() {
		if s := d.parse(); s != "" {
			r.Fail("wrong-output", "%s; all of it is %q", s, tail(d.text, 300))
		}
	}

	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGHUP}[r.Choose(2)]
	early := r.Pct(30) // the signal or error comes while events are being handled
	resizes := []int{0, 4}[r.Pick(1, 1)]
	gap := []int64{0, 1e6, 200e6}[r.Choose(3)]
	fault := syscall.EIO
	after := r.Choose(4) // writes that succeed still
	disturbed, resized := false, false
	faults, readErr, writeErr := 0, false, false
	taken := -1
	arm := false
	r.K.OnOp = func(op *sim.Op) {
		if !arm {
			return
		}
		if ending == 3 && op.Kind == "read" && op.OFD == tio.inOFD || ending == 4 && op.Kind == "write" && op.OFD == tio.outOFD {
			if faults++; op.Kind == "read" || faults > after {
				op.Err = fault
			}
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Res == 0 || op.Res == syscall.EAGAIN {
			return
		}
		if op.Kind == "read" && op.OFD == tio.inOFD {
			readErr = true
			if taken < 0 {
				// what is cut may be shown as it is
				taken = tty.Taken()
				es, _ := r.filterEvents(stream[:taken], true)
				cut := &decodeView{}
				cut.expect(es...)
				d.want, d.texts = cut.want, cut.texts
			}
		} else if op.Kind == "write" && op.OFD == tio.outOFD {
			writeErr = true
		}
	}
	stops := 0
	r.K.OnStop = func(p *sim.Proc) {
		stops++
		if s := tio.differs(true, true, true); s != "" && !writeErr {
			r.Fail("stop-state", "when it is suspended %s", s)
		}
		r.S.After(int64(r.Choose(3000))*1000, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	r.Descf("args %q, %d bytes in %d pieces, interrupts %v, ending %d %v early %v, %d resizes", args, len(stream), len(pieces), ints, ending, sig, early, resizes)
	p := r.K.Prog
	over := func() bool { return p.Exited || p.Dead }
	await := func(what string, cond func() bool) bool {
		if !r.S.WaitUntil(what, 400e9, func() bool { return over() || cond() }) {
			look()
			r.Fail("stuck", "waiting for %s; %d of %d events are shown; output ends %q; tasks:\n%s", what, d.typed, len(want), tail(d.raw, 100), r.S.Dump())
		}
		return !over()
	}
	shown := func(n int) func() bool {
		return func() bool { look(); return d.typed >= n }
	}
	size := func() string { return fmt.Sprintf("[ resize size:(%d,%d) ]", tty.Cols, tty.Rows) }
	r.S.Spawn("user", nil, func() {
		sent := 0
		cut := r.Choose(len(pieces))
		settle := func() bool {
			es, _ := r.filterEvents(stream[:sent], false)
			if !await("what was typed", shown(len(es))) {
				return false
			}
			const cooked = syscall.ICANON | syscall.ISIG | syscall.ECHO
			lflag := tio.termios.Lflag
			if raw {
				lflag &^= cooked
			}
			if got := tty.Termios.Lflag & cooked; got != lflag&cooked || tio.modeString() != modes {
				r.Fail("modes", "terminal modes are %q, want %q, of %q; its local flags are %#x, want %#x", tio.modeString(), modes, args, got, lflag&cooked)
			}
			return true
		}
		typeMore := func(s string) {
			for _, c := range s {
				d.expect(inEvent{id: c})
			}
			stream = append(stream, s...)
			if !raw && s[len(s)-1] != '\n' {
				s += "\n"
			}
			tty.Type([]byte(s))
		}
		interrupt := func() bool {
			d.ints++
			r.S.Tracef("interrupt")
			r.K.Raise(p, syscall.SIGINT)
			return true
		}
		interrupted := func() bool {
			return await("the interrupt", func() bool { look(); return d.synth == d.ints })
		}
		early = early && ending != 0 && ending != 2
		for i, b := range pieces {
			tty.Type(b)
			sent += len(b)
			if gap > 0 {
				r.S.Sleep(int64(r.Choose(int(gap))))
			}
			if i == 0 && !settle() {
				return
			}
			if early && i == cut {
				if !interrupted() {
					return
				}
				if arm = true; ending == 1 {
					r.K.Raise(p, sig)
				}
				disturbed = true
			}
			if arm {
				continue // signals might be met after the program has ended
			}
			if ints && r.Pct(30) && !(partial && i == len(pieces)-1) {
				if !interrupted() || !settle() {
					return
				}
				if d.prior != 0x03 {
					disturbed = true
					interrupt()
				}
			}
			if resizes > 0 && r.Pct(40) {
				resizes--
				w, h := 1+r.Choose(200), 1+r.Choose(100)
				if w == tty.Cols && h == tty.Rows {
					w++
				}
				disturbed, resized = true, true
				tio.vt.resize(w, h)
				tty.Resize(w, h)
			}
		}
		if !early {
			if !interrupted() || !partial && !settle() || resized && !await("the new size", func() bool { look(); return len(d.sizes) > 0 && d.sizes[len(d.sizes)-1] == size() }) {
				return
			}
		}
		arm = true
		switch ending {
		case 0:
			if !ints {
				typeMore("\x03\x03")
			} else if d.prior == 0x03 || interrupt() && interrupted() {
				interrupt()
			}
		case 1:
			if !early {
				r.K.Raise(p, sig)
			}
		case 2:
			tty.EndInput()
		default:
			typeMore("x\n")
		}
	})
	simos.Args = args
	returned := false
	r.prog("decode", 4000e9, func() {
		zzdecode.SimMain()
		returned = true
	})
	look()
	if !p.Exited {
		r.Fail("stuck", "it does not exit; returned %v, killed by %q; %d of %d events are shown; output ends %q; tasks:\n%s", returned, p.KilledBy, d.typed, len(d.want), tail(d.raw, 100), r.S.Dump())
	}
	code, mess := 1, ""
	switch ending {
	case 0:
		mess = "goodbye"
	case 1:
		code, mess = -int(sig), anansi.SigErr(sig).Error()
	case 2:
		mess = "EOF"
	case 3, 4:
		mess = fault.Error()
	}
	if p.ExitCode != code || !bytes.Contains(errFile.Data, []byte(mess)) {
		r.Fail("exit", "it exits with %d, want %d due to %q; the log ends %q", p.ExitCode, code, mess, tail(errFile.Data, 200))
	}
	if s := tio.differs(true, true, !writeErr); s != "" {
		r.Fail("restore", "at the end %s", s)
	}
	if !writeErr && d.at != len(d.text) {
		r.Fail("wrong-output", "output ends within %q", d.text[d.at:])
	}
	sure := 0
	switch ending {
	case 0:
		sure = len(d.want)
		if !d.quit {
			r.Fail("exit", "it exits without having been asked to; %d of %d events are shown", d.typed, sure)
		}
	case 2:
		sure = len(d.want)
	case 3:
		if taken < 0 {
			r.Fail("exit", "it exits without a read error")
		}
		es, _ := r.filterEvents(stream[:taken], false)
		sure = len(es)
	}
	if d.typed < sure {
		r.Fail("lost", "it ends after %d of %d events; output ends %q", d.typed, sure, tail(d.text, 100))
	}
	if ints && d.synth == 0 && ending == 0 {
		r.Fail("lost", "interrupts were not shown")
	}
	if len(d.sizes) > 0 && !resized {
		r.Fail("wrong-output", "it reports %s without a resize", d.sizes[0])
	}
	r.Trivial = !disturbed && stops == 0 && !readErr && !writeErr
}
