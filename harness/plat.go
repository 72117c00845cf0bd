package main

import (
	"errors"
	"fmt"
	"image"
	"io"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

var platReal = []string{"platform.Platform run loop, Events, Ticker, HUD, LogSink (x/platform)", "anansi.Term, Input, Output, Attr, Mode, Signal, TermScreen, ScreenDiffer", "ansi decoding and encoding"}

func init() {
	register(&Scenario{
		ID: "C12", Quick: 400000, Thorough: 6000000, MaxSteps: 16000000,
		Rule: "each run draws a terminal (size, speed, flags), typed input (runes, sequences, mouse, Ctrl-K/L) in pieces with gaps relative to the frame ticks, window resizes, suspends, drawing by the client, HUD use, late ticks, " +
			"and how the run ends (client error, SIGTERM/SIGINT/SIGHUP, read or write error, end of input); non-trivial if events were presented in two or more frames",
		Real: platReal, Stub: append([]string{"profilers"}, kernelStub...), Fn: scenC12,
	})
}

// frameChecker follows the events that a client is given.
type frameChecker struct {
	r       *R
	pending []byte
	marks   []int // offsets into pending at which the input was drained
	struck  string
	eof     bool
	events  int
}

// took adds bytes that were read.
func (c *frameChecker) took(b []byte) { c.pending = append(c.pending, b...) }

// mark notes that everything read so far gets decoded.
func (c *frameChecker) mark() { c.marks = append(c.marks, len(c.pending)) }

func (c *frameChecker) consume(n int) {
	c.pending = c.pending[n:]
	ms := c.marks[:0]
	for _, m := range c.marks {
		if m > n {
			ms = append(ms, m-n)
		}
	}
	c.marks = ms
}

func (c *frameChecker) isSilent(step inStep) bool {
	return step.ev == silent || step.ev.arg == "" && step.ev.id > 0 && strings.ContainsRune(c.struck, step.ev.id)
}

// got checks the next event.
func (c *frameChecker) got(ev inEvent) {
	bounds := append(append([]int(nil), c.marks...), len(c.pending))
	var want []inEvent
	for bi, bound := range bounds {
		p, off := c.pending[:bound], 0
		eof := c.eof && bi == len(bounds)-1
		for {
			st, step, alt := inParse(p[off:], eof)
			if st == stBad {
				c.r.S.Trouble = fmt.Sprintf("generator left the grammar: %q", c.pending)
				c.r.Fail("trouble", "")
			}
			if st == stDone && c.isSilent(step) {
				off += step.n
				continue
			}
			if st == stDone || st == stMaybe {
				if ev == step.ev {
					c.consume(off + step.n)
					c.events++
					return
				}
				if alt.n > 0 && ev == alt.ev {
					c.consume(off + alt.n)
					c.events++
					return
				}
				want = append(want, step.ev)
			}
			break
		}
	}
	if len(want) == 0 {
		c.r.Fail("invented", "event %v was presented, but the input read so far has no other event; unread or incomplete input %q", ev, clipBytes(c.pending))
	}
	c.r.Fail("wrong-event", "event %v was presented, want %v from %q", ev, want[len(want)-1], clipBytes(c.pending))
}

// drained checks that no complete event is left at the end of a frame.
func (c *frameChecker) drained() {
	p := c.pending
	for {
		st, step, _ := inParse(p, c.eof)
		if st == stDone && c.isSilent(step) {
			p = p[step.n:]
			continue
		}
		if st == stDone {
			c.r.Fail("lost-event", "event %v was read but not presented in its frame; input left %q", step.ev, clipBytes(p))
		}
		break
	}
	c.consume(len(c.pending) - len(p))
}

// decodeBytes has bytes decoded that weren't read from anywhere, one or two
// times into the same events.
func (r *R) decodeBytes() {
	var es platform.Events
	id := 0
	for n := 1 + r.Choose(2); n > 0; n-- {
		b := r.genStream(1 + r.Choose(8))
		if r.Pct(20) {
			b = b[:r.Choose(len(b)+1)] // cut off
		}
		p := b
		es.DecodeBytes(append([]byte(nil), b...))
		for {
			st, step, alt := inParse(p, true)
			if st == stEmpty {
				break
			}
			if st == stBad {
				return // cut off where the grammar doesn't go on
			}
			if step.ev == silent {
				p = p[step.n:]
				continue
			}
			if id >= len(es.Type) {
				r.Fail("decode-bytes", "DecodeBytes(%q) stopped before %v, after %d events", b, step.ev, id)
			}
			if es.Type[id] != platform.EventNone {
				esc := es.Escape(id)
				ev := inEvent{rune(esc.ID), string(esc.Arg)}
				if ev != step.ev {
					if alt.n == 0 || ev != alt.ev {
						r.Fail("decode-bytes", "DecodeBytes(%q) made event %d %v, want %v", b, id, ev, step.ev)
					}
					step = alt
				}
			}
			p = p[step.n:]
			id++
		}
		if id < len(es.Type) {
			r.Fail("decode-bytes", "DecodeBytes(%q) made %d events, the first %d are right", b, len(es.Type), id)
		}
	}
}

// mouseOf decodes an extended mouse report.
func mouseOf(ev inEvent) (m platform.Mouse, ok bool) {
	if ev.id != 0xEF80|'M' && ev.id != 0xEF80|'m' || !strings.HasPrefix(ev.arg, "<") {
		return m, false
	}
	ps := strings.Split(ev.arg[1:], ";")
	if len(ps) != 3 {
		return m, false
	}
	var ns [3]int
	for i, p := range ps {
		n, err := strconv.Atoi(p)
		if err != nil || len(p) > 4 {
			return m, false
		}
		ns[i] = n
	}
	if ns[0] > 255 || ns[0] < 0 || ns[1] <= 0 || ns[2] <= 0 {
		return m, false
	}
	m.State = ansi.MouseState(ns[0])
	if ev.id == 0xEF80|'m' {
		m.State |= 128
	}
	m.Point = ansi.Pt(ns[1], ns[2])
	return m, true
}

// eventModel is a reference for the methods of platform.Events.
type eventModel struct {
	kinds []platform.EventType
	evs   []inEvent
	mouse []platform.Mouse
}

func (em *eventModel) press(i int) (button int, ok bool) {
	if em.kinds[i] != platform.EventMouse {
		return 0, false
	}
	st := int(em.mouse[i].State)
	return em.button(i), st&(128|32) == 0
}

func (em *eventModel) button(i int) int {
	st := int(em.mouse[i].State)
	b := (st&3 + 1) % 4
	if st&64 != 0 {
		b += 3
	}
	return b
}

func (em *eventModel) in(i int, box ansi.Rectangle) bool {
	p := em.mouse[i].Point
	return p.X >= box.Min.X && p.X < box.Max.X && p.Y >= box.Min.Y && p.Y < box.Max.Y
}

// use calls some method of the events, and compares it with the model.
func (em *eventModel) use(r *R, es *platform.Events, w, h int) {
	x, y := 1+r.Choose(w), 1+r.Choose(h)
	box := ansi.Rect(x, y, x+1+r.Choose(w), y+1+r.Choose(h))
	what := ""
	var got, want interface{}
	switch r.Choose(8) {
	case 0:
		ru := rune("zqa \r\x1b\x7f"[r.Choose(7)])
		if len(em.evs) > 0 && r.Pct(70) {
			ru = em.evs[r.Choose(len(em.evs))].id
		}
		what = fmt.Sprintf("HasTerminal(%q)", ru)
		got = es.HasTerminal(ru)
		found := false
		for i := range em.kinds {
			found = found || em.kinds[i] == platform.EventRune && em.evs[i].id == ru
			if found {
				em.kinds[i] = platform.EventNone
			}
		}
		want = found
	case 1:
		rs := []rune{'z', 'q'}
		if len(em.evs) > 0 {
			if ru := em.evs[r.Choose(len(em.evs))].id; ru != 'z' && ru != 'q' {
				rs = append(rs, ru)
			}
		}
		what = fmt.Sprintf("CountRune(%q)", rs)
		got = es.CountRune(rs...)
		n := 0
		for i := range em.kinds {
			for _, ru := range rs {
				if em.kinds[i] == platform.EventRune && em.evs[i].id == ru {
					em.kinds[i] = platform.EventNone
					n++
				}
			}
		}
		want = n
	case 2:
		b := 1 + r.Choose(3)
		what = fmt.Sprintf("CountPressesIn(%v, %d)", box, b)
		got = es.CountPressesIn(box, uint8(b))
		n := 0
		for i := range em.kinds {
			if pb, ok := em.press(i); ok && pb == b && em.in(i, box) {
				em.kinds[i] = platform.EventNone
				n++
			}
		}
		want = n
	case 3:
		what = fmt.Sprintf("AnyPressesOutside(%v)", box)
		got = es.AnyPressesOutside(box)
		any := false
		for i := range em.kinds {
			if _, ok := em.press(i); ok && !em.in(i, box) {
				any = true
			}
		}
		want = any
	case 4:
		what = fmt.Sprintf("TotalScrollIn(%v)", box)
		got = es.TotalScrollIn(box)
		n := 0
		for i := range em.kinds {
			if em.kinds[i] == platform.EventMouse && em.in(i, box) {
				switch em.button(i) {
				case 4:
					n--
					em.kinds[i] = platform.EventNone
				case 5:
					n++
					em.kinds[i] = platform.EventNone
				}
			}
		}
		want = n
	case 5:
		dx, dy := 0, 0
		kinds := append([]platform.EventType(nil), em.kinds...)
		for i := range em.kinds {
			if em.kinds[i] != platform.EventEscape || em.evs[i].id < 0xEF80|'A' || em.evs[i].id > 0xEF80|'D' {
				continue
			}
			k := 1
			if a := em.evs[i].arg; a != "" {
				v, err := strconv.Atoi(a)
				if err != nil || len(a) > 4 || v < 0 || a[0] == '+' {
					return // not judged
				}
				k = v
			}
			switch em.evs[i].id - 0xEF80 {
			case 'A':
				dy -= k
			case 'B':
				dy += k
			case 'C':
				dx += k
			case 'D':
				dx -= k
			}
			kinds[i] = platform.EventNone
		}
		what = "TotalCursorMovement()"
		mv := es.TotalCursorMovement()
		got, want = [2]int{mv.X, mv.Y}, [2]int{dx, dy}
		em.kinds = kinds
	case 6:
		consume := r.Pct(50)
		what = fmt.Sprintf("LastMouse(%v)", consume)
		m, have := es.LastMouse(consume)
		var wm platform.Mouse
		whave := false
		for i := range em.kinds {
			if em.kinds[i] == platform.EventMouse {
				wm, whave = em.mouse[i], true
				if consume {
					em.kinds[i] = platform.EventNone
				}
			}
		}
		got, want = fmt.Sprintf("%v %d %v", m.Point, m.State, have), fmt.Sprintf("%v %d %v", wm.Point, wm.State, whave)
	case 7:
		what = "Empty()"
		got = es.Empty()
		empty := true
		for i := range em.kinds {
			empty = empty && em.kinds[i] == platform.EventNone
		}
		want = empty
	}
	r.S.Tracef("%s = %v", what, got)
	if got != want {
		r.Fail("method", "%s returned %v, want %v, of events %v %v", what, got, want, em.evs, em.mouse)
	}
	for i := range em.kinds {
		if es.Type[i] != em.kinds[i] {
			r.Fail("struck", "after %s event %d (%v, %v) has type %v, want %v", what, i, em.evs[i], em.mouse[i], es.Type[i], em.kinds[i])
		}
	}
}

// genKeys draws typed input for a platform.
func (r *R) genKeys(n int, hud bool, w, h int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		switch {
		case r.Pct(25):
			if len(b) > 0 && endsInEsc(b) {
				b = append(b, 'z')
			}
			b = append(b, r.genMouse(w, h)...)
		case r.Pct(10):
			if len(b) > 0 && endsInEsc(b) {
				b = append(b, 'z')
			}
			b = append(b, fmt.Sprintf("\x1b[%s%c", []string{"", "3", "12", "0"}[r.Choose(4)], "ABCD"[r.Choose(4)])...)
		case hud && r.Pct(25):
			if len(b) > 0 && endsInEsc(b) {
				b = append(b, 'z')
			}
			b = append(b, "\x0b\x0c\x0b\x0b"[r.Choose(4)])
		default:
			k := len(b)
			b = append(b, r.genStream(1)...)
			if k > 0 && endsInEsc(b[:k]) {
				b = append(append(b[:k:k], 'z'), b[k:]...)
			}
		}
	}
	return b
}

// genMouse draws a mouse report.
func (r *R) genMouse(w, h int) []byte {
	st := []int{0, 0, 32, 64, 65, 2, 35, 4, 1, 16}[r.Choose(10)]
	if r.Pct(15) {
		st |= []int{4, 8, 16, 12, 20, 24, 28}[r.Choose(7)] // held keys
	}
	return []byte(fmt.Sprintf("\x1b[<%d;%d;%d%c", st, 1+r.Choose(w+1), 1+r.Choose(h+1), "MMm"[r.Choose(3)]))
}

var errAgain = errors.New("run again")

func scenC12(r *R) {
	r.schedConfig()
	tio := r.newTermIO(false)
	tty := tio.tty
	big := r.Pct(2)
	w, h := 1+r.Choose(24), 1+r.Choose(6)
	if big {
		w, h = 30+r.Choose(30), 6+r.Choose(10)
	}
	resize := func(nw, nh int) {
		w, h = nw, nh
		tio.vt.resize(max(1, w), max(1, h)) // the size may be said to be nothing
		tty.Resize(w, h)
	}
	resize(w, h)
	slow := r.Pct(40)
	if slow {
		r.slowTTY(tty)
	}
	tty.WakeupSIG = []int{0, 20}[r.Pick(2, 1)]
	tio.save()
	if r.Pct(30) {
		r.S.LatePct, r.S.LateMax = 20, int64([]int{1e6, 60e6}[r.Choose(2)])
	}

	fps := []int{60, 10, 30}[r.Pick(3, 1, 1)]
	frame := int64(1e9) / int64(fps)
	hud := r.Pct(25)
	tio.in.setMaxRead([]int{0, 1, 3, 17}[r.Pick(3, 1, 2, 1)])
	stream := append(r.genKeys(1+r.Choose([]int{5, 20, 60}[r.Pick(2, 2, 1)]), hud, w, h), "zz"...)
	maxPiece := []int{1000, 1, 3, 20}[r.Pick(1, 2, 3, 3)]
	maxGap := []int64{0, 100, 20000, 100000}[r.Pick(1, 2, 3, 1)] // us
	budget := int64(3e6)
	if big {
		budget = 300e3
	}
	for int64(len(stream)/((maxPiece+1)/2)+1)*maxGap/2 > budget {
		maxGap /= 2
	}
	ending := r.Pick(5, 2, 1, 1, 1) // client error, signal, read error, write error, end of input
	suspendPct := []int{0, 10}[r.Pick(3, 1)]
	resizes := []int{0, 4}[r.Pick(1, 1)]
	if r.Pct(2) {
		resize(0, 0) // as a terminal may be at first
		r.S.Fault("resize.zero")
	}
	r.Descf("%dx%d, %d fps, input %q in pieces of up to %d, gaps up to %dus, ending %d, suspends %d%%, resizes up to %d", w, h, fps, stream, maxPiece, maxGap, ending, suspendPct, resizes)

	var (
		started, typed, busy   bool
		asked                  int64 // when the end was asked for
		frames, askedFrame     int
		resizeFrame            int
		resizeAt               int64
		entered                bool
		faultRead, faultWrite  bool
		lastRunes              []rune
		lastAttrs              []ansi.SGRAttr
		lastResize, snapResize int
		sig                    syscall.Signal
		nonEmpty               int
	)
	ck := &frameChecker{r: r, struck: "\x0b\x0c\x12"}
	taken := 0
	restartPct := []int{0, 5}[r.Pick(4, 1)]
	healthy := r.S.LatePct == 0 && r.S.Slow <= 1000 && !slow && !big && !hud && suspendPct == 0 && restartPct == 0
	var (
		firstAt, lastAt int64 // when the first and last frames ran
		suspends        int
		lastTime        time.Time // the time of the frame before
		hudUsed         bool
		lastSize        image.Point
		wantModes       = []int{1049, 1002, 1003, 1006}
		garbled         bool // something else wrote to the terminal
	)
	r.K.OnOp = func(op *sim.Op) {
		switch {
		case op.Kind == "read" && op.OFD == tio.inOFD && faultRead:
			op.Err = syscall.EIO
			faultRead = false
			if asked == 0 {
				asked, askedFrame = r.S.Elapsed(), frames
			}
		case op.Kind == "write" && op.OFD == tio.outOFD && faultWrite && entered:
			op.Err = syscall.EIO
			faultWrite = false
			if asked == 0 {
				asked, askedFrame = r.S.Elapsed(), frames
			}
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "read" && op.OFD == tio.inOFD {
			if n := tty.Taken(); n > taken {
				ck.took(tty.Arrived[taken:n])
				taken = n
			}
			if op.Res != 0 || op.N == 0 {
				ck.mark()
			}
			if op.Res == 0 && op.N == 0 {
				ck.eof = true
			}
		}
	}
	r.K.OnStop = func(p *sim.Proc) {
		r.S.After(int64(1+r.Choose(500))*1e6, func() { r.K.Raise(p, syscall.SIGCONT) })
	}
	r.S.Spawn("user", nil, func() {
		at := 0
		if r.Pct(15) { // ahead
			at = min(len(stream), 1+r.Choose(5))
			tty.Type(stream[:at])
		}
		r.S.WaitUntil("first frame", 100e9, func() bool { return started })
		endAt := -1
		if ending != 0 && r.Pct(60) {
			endAt = r.Choose(len(stream))
		}
		end := func() {
			switch ending {
			case 1:
				sig = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[r.Choose(3)]
				asked, askedFrame = r.S.Elapsed(), frames
				r.K.Raise(r.K.Prog, sig)
			case 2:
				faultRead = true
				tty.Type([]byte{'!'})
				stream = nil
			case 3:
				faultWrite = true
				lastResize++
				resize(w%20+1, max(1, h)) // gives a frame something to write
				resizeFrame, resizeAt = frames, r.S.Elapsed()
			case 4:
				asked, askedFrame = r.S.Elapsed(), frames
				tty.EndInput()
			}
		}
		idle := func() { r.S.WaitUntil("not suspended", 1000e9, func() bool { return !busy }) }
		for at < len(stream) {
			if maxGap > 0 {
				r.S.Sleep(int64(r.Choose(int(maxGap))) * 1000)
			}
			if resizes > 0 && r.Pct(20) {
				resizes--
				nw, nh := r.newSize(w, h, 1, 24, 1, 6)
				if big {
					nw, nh = r.newSize(w, h, 30, 59, 6, 15)
				} else if r.Pct(8) {
					switch r.S.Fault("resize.zero"); r.Choose(3) {
					case 0:
						nw, nh = 0, 0
					case 1:
						nw = 0
					case 2:
						nh = 0
					}
				}
				lastResize++
				resize(nw, nh)
				resizeFrame, resizeAt = frames, r.S.Elapsed()
				r.S.Fault("resize")
			}
			if r.Pct(80) {
				idle() // or it's typed while suspended
			}
			n := min(len(stream)-at, 1+r.Choose(maxPiece))
			tty.Type(stream[at : at+n])
			at += n
			if endAt >= 0 && at > endAt {
				idle()
				end()
				return
			}
		}
		r.S.Sleep(250e6 + r.S.LateMax + r.K.MaxSigDelay)
		idle()
		f0 := frames
		r.S.WaitUntil("frames after the input", 1000e9, func() bool { return frames > f0+3 })
		if n := tty.Taken(); n < len(tty.Arrived) {
			r.Fail("unread", "%q was typed long ago, but never read", tty.Arrived[n:])
		}
		idle()
		if suspendPct == 0 && r.Pct(15) { // another program's output, and then Ctrl-L
			r.S.Fault("screen.garbled")
			garbled = true
			if r.Pct(30) { // nobody tells about a new size either
				r.S.Fault("resize.quiet")
				w, h = r.newSize(w, h, 1, 24, 1, 6)
				tio.vt.resize(max(1, w), max(1, h))
				tty.Cols, tty.Rows = w, h
				lastResize++
			}
			for k := 1 + r.Choose(3); k > 0; k-- {
				tio.vt.cells[r.Choose(len(tio.vt.cells))] = vtCell{'%', vtAttr{fg: 2}}
			}
			r.S.Sleep(int64(r.Choose(int(2 * frame))))
			f0 := frames
			tty.Type([]byte{'\x0c'})
			r.S.Sleep(r.S.LateMax + r.K.MaxSigDelay)
			r.S.WaitUntil("frames after Ctrl-L", 100e9, func() bool { return frames > f0+5 })
			garbled = false
			r.S.WaitUntil("more frames", 100e9, func() bool { return frames > f0+8 })
		}
		typed = true
		if ending == 0 {
			tty.Type([]byte{'Q'})
		} else {
			end()
		}
	})

	cf := func(ctx *platform.Context) error {
		frames++
		started = true
		if asked != 0 && frames > askedFrame+6 && r.S.Elapsed() > asked+r.K.MaxSigDelay+6*frame {
			r.Fail("no-end", "still running %d frames and %d ns after the end was asked for", frames-askedFrame, r.S.Elapsed()-asked)
		}
		// pace and time
		now := r.S.Elapsed()
		if frames == 1 {
			firstAt = now
		} else if gap := now - lastAt; healthy && (gap > 4*frame || frames > 12 && now-firstAt > 3*frame*int64(frames)/2) {
			r.Fail("pace", "frame %d came %d ns after the one before it, at %d frames per second", frames, gap, fps)
		}
		if n := int64(frames - 3 - suspends); n > 0 && now-firstAt < n*frame {
			r.Fail("pace", "%d frames within %d ns, at %d frames per second", frames, now-firstAt, fps)
		}
		lastAt = now
		hudUsed = hudUsed || ctx.HUD.Visible
		if r.Pct(3) {
			r.decodeBytes()
		}
		switch {
		case ctx.Paused && !ctx.Time.Equal(ctx.LastTime):
			r.Fail("time", "frame %d has the time %v while paused since %v", frames, ctx.Time, ctx.LastTime)
		case !ctx.Paused && !ctx.Time.Equal(ctx.Platform.Time):
			r.Fail("time", "frame %d has the time %v, the platform's is %v", frames, ctx.Time, ctx.Platform.Time)
		case frames > 1 && ctx.Time.Before(lastTime):
			r.Fail("time", "frame %d has the time %v, the one before it %v", frames, ctx.Time, lastTime)
		case !hudUsed && frames > 1 && !ctx.LastTime.Equal(lastTime):
			r.Fail("time", "frame %d has the last time %v, the frame before it %v", frames, ctx.LastTime, lastTime)
		}
		if d := ctx.Platform.Time.UnixNano() - r.S.Now(); d > 0 || healthy && d < -4*frame {
			r.Fail("time", "frame %d has platform time %v, it is %v", frames, ctx.Platform.Time, time.Unix(0, r.S.Now()).UTC())
		}
		lastTime = ctx.Time
		if r.Pct(3) {
			ctx.Paused = !ctx.Paused
		}
		for _, m := range wantModes {
			if frames > 1 && !tio.vt.modes[m] {
				r.Fail("mode", "terminal mode %d is not set in frame %d", m, frames)
			}
		}
		// what the frame before drew
		size := ctx.Output.Bounds().Size()
		redraw := frames == 1 || size != lastSize
		defer func() { lastSize = ctx.Output.Bounds().Size() }()
		for id := range ctx.Input.Type {
			redraw = redraw || ctx.Input.Escape(id).ID == '\x0c'
		}
		if size == image.ZP {
			// with no cells at all, redrawing is no different from not doing so
			redraw = ctx.Redraw
		}
		if ctx.Redraw != redraw && (redraw || lastResize == 0) {
			r.Fail("redraw", "frame %d of %v has Redraw %v, want %v; the frame before was %v, events %q", frames, size, ctx.Redraw, redraw, lastSize, *ctx.Input)
		}
		if lastRunes != nil && !garbled && snapResize == lastResize {
			if d := tio.vt.showsGrid(w, h, lastRunes, lastAttrs); d != "" {
				r.Fail("screen", "after a completed frame: %s\nterminal:\n%v", d, tio.vt)
			}
		}
		lastRunes = nil
		if typed && !slow && frames > resizeFrame+4 && (size.X != w || size.Y != h) && (w*h > 0 || size.X*size.Y > 0) && suspendPct == 0 {
			r.Fail("size", "the output is %v, 250 ms after the last resize, to %dx%d", size, w, h)
		}
		// events
		before := ck.events
		quit := false
		for id, kind := range ctx.Input.Type {
			if kind == platform.EventNone {
				continue
			}
			e := ctx.Input.Escape(id)
			ev := inEvent{rune(e.ID), string(e.Arg)}
			r.S.Tracef("frame %d: event %v", frames, ev)
			if typed && ending == 0 && ev.id == 'Q' {
				quit = true
			}
			ck.got(ev)
			mouse, isMouse := mouseOf(ev)
			switch kind {
			case platform.EventRune:
				if ctx.Input.Rune(id) != ev.id || e.ID.IsEscape() {
					r.Fail("kind", "event %v is presented as the rune %q", ev, ctx.Input.Rune(id))
				}
			case platform.EventEscape:
				if !e.ID.IsEscape() || isMouse {
					r.Fail("kind", "event %v is presented as an escape sequence", ev)
				}
			case platform.EventMouse:
				if m := ctx.Input.Mouse(id); ev.id != 0xEF80|'M' && ev.id != 0xEF80|'m' || isMouse && m != mouse {
					r.Fail("mouse", "event %v is presented as mouse %v (state %d)", ev, m, m.State)
				}
			default:
				r.Fail("kind", "event of unknown kind %v", kind)
			}
		}
		ck.drained()
		if ck.events > before {
			nonEmpty++
		}
		if quit {
			return errClient
		}
		if restartPct > 0 && !typed && ending == 0 && r.Pct(restartPct) {
			return errAgain
		}
		if ck.events > before && r.Pct(50) {
			var em eventModel
			for id, kind := range ctx.Input.Type {
				e := ctx.Input.Escape(id)
				em.kinds = append(em.kinds, kind)
				em.evs = append(em.evs, inEvent{rune(e.ID), string(e.Arg)})
				em.mouse = append(em.mouse, ctx.Input.Mouse(id))
			}
			for k := 1 + r.Choose(4); k > 0; k-- {
				em.use(r, ctx.Input, w, h)
			}
		}
		// drawing
		if r.Pct(80) {
			ctx.Output.Clear()
		}
		for k := r.Choose(3); k > 0; k-- {
			p := ansi.Pt(1+r.Choose(max(size.X, 1)), 1+r.Choose(max(size.Y, 1)))
			if j, ok := ctx.Output.CellOffset(p); ok {
				ctx.Output.Grid.Rune[j], ctx.Output.Grid.Attr[j] = r.genRune(), r.genAttr()
			}
		}
		if r.Pct(20) {
			ctx.Output.To(ansi.Pt(1, 1))
			fmt.Fprintf(ctx.Output, "%d", frames)
		}
		if suspendPct > 0 && r.Pct(suspendPct) && !typed {
			busy = true
			suspends++
			err := ctx.Suspend()
			busy = false
			snapResize = -1
			if err != nil {
				r.S.Tracef("suspend: %v", err)
				return err
			}
			return nil
		}
		if !garbled && !ctx.HUD.Visible && size.X == w && size.Y == h && w*h > 0 && (lastResize == 0 || frames > resizeFrame+4 && r.S.Elapsed() > resizeAt+r.K.MaxSigDelay+60e6) {
			lastRunes = append([]rune(nil), ctx.Output.Grid.Rune...)
			lastAttrs = append([]ansi.SGRAttr(nil), ctx.Output.Grid.Attr...)
			snapResize = lastResize
		}
		return nil
	}

	t := r.prog("app", 5000e9, func() {
		opts := []platform.Option{platform.FrameRate(fps), platform.Config{}}
		if fps == 60 && r.Pct(50) { // the default
			opts = opts[1:]
		}
		p, err := platform.New(simos.Stdin, simos.Stdout, opts...)
		if err != nil {
			r.Fail("new", "New failed: %v", err)
		}
		var runErr error
		err = p.RunWith(func(p *platform.Platform) error {
			entered = true
			for {
				if restartPct > 0 {
					r.S.Sleep(int64(r.Choose(200)) * 1e6)
				}
				if runErr = p.Run(platform.ClientFunc(cf)); runErr != errAgain {
					break
				}
				r.S.Probe("run again")
				suspends++
				lastRunes = nil
			}
			entered = false
			return runErr
		})
		r.S.Tracef("Run: %v; RunWith: %v", runErr, err)
		if err != runErr {
			r.Fail("run-error", "RunWith returned %v, Run %v", err, runErr)
		}
		bad := func() { r.Fail("wrong-error", "Run ended with %v (ending %d, %v)", err, ending, sig) }
		switch ending {
		case 0:
			if err != errClient {
				bad()
			}
		case 1:
			if err != anansi.SigErr(sig) {
				bad()
			}
		case 2, 3:
			if errnoOf(err) != syscall.EIO {
				bad()
			}
		case 4:
			if err != io.EOF {
				bad()
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the session did not finish; %d of %d bytes of input were read; tasks:\n%s", taken, len(tty.Arrived), r.S.Dump())
	}
	if d := tio.differs(true, true, true); d != "" {
		r.Fail("restore", "after Run: %s", d)
	}
	r.Trivial = nonEmpty < 2
}
