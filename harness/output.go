package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

var outputReal = []string{"anansi.Output, Buffer, VirtualCursor, VirtualScreen, ScreenDiffer, Cursor, Screen, Grid (output.go, buffer.go, cursor.go, screen.go, render.go, state.go, grid.go)", "ansi encoding and decoding"}
var termStub = append([]string{"terminal: independent VT emulator fed with the bytes the tty accepted"}, kernelStub...)

func init() {
	register(&Scenario{
		ID: "C04", Quick: 1200000, Thorough: 20000000, MaxSteps: 400000,
		Rule: "each run draws output (buffer, cursor, screen, chunked writer), terminal speed and capacity, pauses, non-blocking flags and write/fcntl faults; " +
			"non-trivial if a flush met would-block, a short write or a fault",
		Real: outputReal, Stub: kernelStub, Fn: scenC04,
	})
	register(&Scenario{
		ID: "C05", Quick: 1200000, Thorough: 20000000, MaxSteps: 400000,
		Rule: "each run draws a history of drawing, clearing, resizing, invalidating and flushing a ScreenDiffer on a terminal with random size, speed and background-colour-erase, with stalls and failed writes; " +
			"non-trivial if at least two flushes were compared",
		Real: outputReal, Stub: termStub, Fn: scenC05,
	})
	register(&Scenario{
		ID: "C06", Quick: 1200000, Thorough: 20000000, MaxSteps: 400000,
		Rule: "each run draws a history of VirtualCursor operations and flushes with stalls and failed writes, mirrored on an ideal terminal; " +
			"non-trivial if at least two flushes were compared",
		Real: outputReal, Stub: termStub, Fn: scenC06,
	})
	register(&Scenario{
		ID: "C07", Quick: 1200000, Thorough: 20000000, MaxSteps: 400000,
		Rule: "each run draws a byte stream and two ways of splitting it into writes, applies them to two VirtualScreens, VirtualCursors and Buffers, with flushes to a stalling terminal in between; " +
			"non-trivial if a split cut a rune or sequence",
		Real: outputReal, Stub: kernelStub, Fn: scenC07,
	})
}

// slowTTY draws how fast the terminal takes output.
func (r *R) slowTTY(t *sim.TTY) {
	if r.Choose(3) == 0 {
		return // fast
	}
	t.Cap = []int{4096, 1, 2, 7, 33, 256}[r.Pick(1, 2, 2, 3, 3, 2)]
	t.DrainBytes = 1 + r.Choose(t.Cap)
	t.DrainEvery = int64(1+r.Choose(2000)) * 1000
	if r.Pct(20) {
		t.PausePct, t.PauseMax = 10, 2e9
	}
}

// writeFaults makes writes to the given descriptor fail now and then.
type writeFaults struct {
	r       *R
	ofd     *sim.OFD
	pct     int
	fcntl   int
	short   int
	armed   bool
	hits    int // injected errors since the last reset
	fhits   int
	again   int
	shorts  int
	written int // bytes accepted since the last reset
	errno   syscall.Errno
	again0  int64 // time of the first would-block since the last reset
	restore int64 // time of the last successful F_SETFL
	getfl   int64
	blocked int64
}

func (wf *writeFaults) reset() {
	wf.hits, wf.fhits, wf.again, wf.shorts, wf.written, wf.errno = 0, 0, 0, 0, 0, 0
	wf.again0, wf.restore, wf.getfl, wf.blocked = 0, 0, 0, 0
}

func (r *R) newWriteFaults(ofd *sim.OFD) *writeFaults {
	wf := &writeFaults{r: r, ofd: ofd, armed: true}
	var pending syscall.Errno
	r.K.OnOp = func(op *sim.Op) {
		if op.OFD != ofd {
			return
		}
		switch op.Kind {
		case "write":
			if pending != 0 {
				op.Err, pending = pending, 0
				wf.errno = op.Err
				wf.hits++
				return
			}
			if !wf.armed {
				return
			}
			if r.Pct(wf.pct) {
				e := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EPERM}[r.Choose(3)]
				if n := r.Choose(op.Len + 1); n > 0 && n < op.Len && r.Pct(70) {
					op.Limit = n // the error shows on the next write
					pending = e
				} else {
					op.Err = e
					wf.errno = e
					wf.hits++
				}
			} else if op.Len > 1 && r.Pct(wf.short) {
				op.Limit = 1 + r.Choose(op.Len-1)
				wf.shorts++
			}
		case "getfl", "setfl":
			if wf.armed && r.Pct(wf.fcntl) {
				op.Err = []syscall.Errno{syscall.EIO, syscall.EPERM}[r.Choose(2)]
				wf.fhits++
			}
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.OFD != ofd {
			return
		}
		switch op.Kind {
		case "write":
			wf.written += op.N
			if op.Res == syscall.EAGAIN {
				wf.again++
				if wf.again0 == 0 {
					wf.again0 = r.S.Now()
				}
			}
			wf.blocked += op.Block
		case "getfl":
			if wf.getfl == 0 {
				wf.getfl = op.Start
			}
		case "setfl":
			if op.Res == 0 {
				wf.restore = r.S.Now()
			}
		}
	}
	return wf
}

// chunkWriter is a resumable io.WriterTo that writes in odd pieces.
type chunkWriter struct {
	r     *R
	b     []byte
	chunk int
}

func (cw *chunkWriter) WriteTo(w io.Writer) (n int64, err error) {
	for len(cw.b) > 0 {
		m := min(len(cw.b), 1+cw.r.Choose(cw.chunk))
		k, err := w.Write(cw.b[:m])
		n += int64(k)
		cw.b = cw.b[k:]
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

var genRunes = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789#@.*+-=/é±ßλЖ│─█▒⠿€𝄞")

func (r *R) genRune() rune { return genRunes[r.Choose(len(genRunes))] }

func (r *R) genColor() ansi.SGRColor {
	switch r.Pick(4, 2, 2, 2) {
	case 1:
		return ansi.SGRColor(8 + r.Choose(8))
	case 2:
		return ansi.SGRColor(16 + r.Choose(240))
	case 3:
		return ansi.RGB(uint8(r.Choose(256)), uint8(r.Choose(3)), uint8(r.Choose(256)))
	}
	return ansi.SGRColor(r.Choose(8))
}

func (r *R) genAttr() (a ansi.SGRAttr) {
	if r.Pct(30) {
		return 0
	}
	if r.Pct(50) {
		a |= r.genColor().FG()
	}
	if r.Pct(35) {
		a |= r.genColor().BG()
	}
	if r.Pct(30) {
		fl := []ansi.SGRAttr{ansi.SGRAttrBold, ansi.SGRAttrDim, ansi.SGRAttrItalic, ansi.SGRAttrUnderscore, ansi.SGRAttrNegative, ansi.SGRAttrConceal}
		for k := r.Choose(3); k >= 0; k-- {
			a |= fl[r.Choose(len(fl))]
		}
	}
	return a
}

// genText makes text with escapes that VirtualScreen and VirtualCursor
// document to support.
func (r *R) outText(n int, moves bool) string {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		k := r.Pick(12, 2, 2, 1, 1)
		if !moves && k > 1 {
			k = 1
		}
		switch k {
		case 0:
			b.WriteRune(r.genRune())
		case 1:
			a := r.genAttr() &^ ansi.SGRAttrConceal
			if r.Pct(30) {
				a |= ansi.SGRAttrClear
			}
			b.WriteString(a.ControlString())
		case 2:
			b.WriteString("\r\n")
		case 3:
			fmt.Fprintf(&b, "\x1b[%d;%dH", 1+r.Choose(8), 1+r.Choose(14))
		case 4:
			fmt.Fprintf(&b, "\x1b[%d%c", 1+r.Choose(4), "ABCD"[r.Choose(4)])
		}
	}
	return b.String()
}

// ---- C04

func scenC04(r *R) {
	r.schedConfig()
	tty, ofd := r.stdTTY(40, 10)
	r.slowTTY(tty)
	if r.Pct(70) {
		ofd.Flags |= syscall.O_NONBLOCK
	}
	wf := r.newWriteFaults(ofd)
	wf.pct = []int{0, 3, 15}[r.Pick(3, 2, 1)]
	wf.fcntl = []int{0, 3, 20}[r.Pick(4, 1, 1)]
	wf.short = []int{0, 10, 60}[r.Pick(2, 1, 1)]
	kind := r.Pick(1, 1, 1, 1)
	flushes := 1 + r.Choose(8)
	track := []int{0, 1, 3, 20}[r.Pick(1, 1, 1, 1)]
	r.Descf("kind %d, %d flushes, tty cap %d, flags %#x, stall buffer %d, faults: write %d%% fcntl %d%% short %d%%", kind, flushes, tty.Cap, ofd.Flags, track, wf.pct, wf.fcntl, wf.short)
	interesting := false

	t := r.prog("writer", 3600e9, func() {
		out := &anansi.Output{File: simos.Stdout}
		if track > 0 {
			out.TrackStalls(track)
		}
		var (
			buf     anansi.Buffer
			vc      anansi.VirtualCursor
			sc, tw  anansi.ScreenDiffer
			twOut   bytes.Buffer
			want    []byte     // everything the terminal should get, as far as flushed
			spans   [][2]int64 // bounds of the stalls that should be recorded
			curSize = image.Pt(2+r.Choose(12), 1+r.Choose(5))
		)
		sc.Resize(curSize)
		tw.Resize(curSize)
		for i := 0; i < flushes; i++ {
			var wer io.WriterTo
			switch kind {
			case 0:
				for k := r.Choose(5); k >= 0; k-- {
					s := r.outText(r.Choose(40), true)
					buf.WriteString(s)
					want = append(want, s...)
				}
				wer = &buf
			case 1:
				for k := r.Choose(5); k >= 0; k-- {
					s := r.outText(r.Choose(40), true)
					vc.WriteString(s)
					want = append(want, s...)
				}
				wer = &vc
			case 2:
				for k := r.Choose(20); k > 0; k-- {
					pt := ansi.Pt(1+r.Choose(curSize.X), 1+r.Choose(curSize.Y))
					c, a := r.genRune(), r.genAttr()
					for _, s := range []*anansi.ScreenDiffer{&sc, &tw} {
						j, _ := s.CellOffset(pt)
						s.Grid.Rune[j], s.Grid.Attr[j] = c, a
					}
				}
				if r.Pct(20) {
					sc.Invalidate()
					tw.Invalidate()
				}
				if _, err := tw.WriteTo(&twOut); err != nil {
					r.Fail("twin", "WriteTo a buffer failed: %v", err)
				}
				want = append(want[:0], twOut.Bytes()...)
				wer = &sc
			case 3:
				s := []byte(r.outText(r.Choose(200), true))
				want = append(want, s...)
				wer = &chunkWriter{r: r, b: s, chunk: 1 + r.Choose(50)}
			}

			if r.Pct(10) {
				ofd.Flags ^= syscall.O_APPEND // some other flag
			}
			flags0, sent0 := ofd.Flags, len(tty.Out)
			wf.reset()
			if r.Pct(10) {
				track = []int{0, 1, 3, 20}[r.Choose(4)]
				out.TrackStalls(track)
				spans = nil
			}
			err := out.Flush(wer)
			end := r.S.Now()
			r.S.Tracef("flush: %d bytes, err %v", out.Flushed, err)
			interesting = interesting || wf.again > 0 || wf.hits > 0 || wf.fhits > 0 || wf.shorts > 0
			if out.Flushed != len(tty.Out)-sent0 {
				r.Fail("flushed", "Flushed is %d, but %d bytes reached the terminal", out.Flushed, len(tty.Out)-sent0)
			}
			if ofd.Flags != flags0 && wf.fhits == 0 {
				r.Fail("flags", "descriptor flags are %#x after the flush, %#x before (err %v)", ofd.Flags, flags0, err)
			}
			if err == nil && wf.fhits > 0 {
				r.Fail("fault-hidden", "Flush returned nil although fcntl failed")
			}
			if err == nil && wf.hits > 0 {
				r.Fail("fault-hidden", "Flush returned nil although a write failed")
			}
			if err != nil && wf.hits == 0 && wf.fhits == 0 {
				r.Fail("error", "Flush returned %v without a fault", err)
			}
			if err != nil && errnoOf(err) == syscall.EAGAIN {
				r.Fail("would-block", "Flush returned %v", err)
			}
			if !bytes.HasPrefix(want, tty.Out) {
				r.Fail("bytes", "terminal got %q, which is no prefix of %q", clipBytes(tty.Out), clipBytes(want))
			}
			if err == nil && len(tty.Out) != len(want) {
				r.Fail("lost", "Flush returned nil after %d of %d bytes", len(tty.Out), len(want))
			}
			if wf.again > 0 && len(spans) < track {
				lo := int64(0)
				if wf.restore > wf.getfl && wf.fhits == 0 {
					lo = wf.restore - wf.getfl
				}
				spans = append(spans, [2]int64{lo, end - wf.again0})
			}
			if r.Pct(50) {
				consume := r.Pct(30)
				ds := out.Stalls(consume)
				if (ds != nil) != (track > 0) || len(ds) != len(spans) {
					r.Fail("stalls", "%d stalls recorded, want %d, with a buffer for %d", len(ds), len(spans), track)
				}
				for k, s := range spans {
					if d := int64(ds[k]); d < s[0] || d > s[1] {
						r.Fail("stall-time", "stall %d of %v recorded, the blocking retry took between %v and %v", k, time.Duration(d), time.Duration(s[0]), time.Duration(s[1]))
					}
				}
				if consume || len(spans) == track {
					spans = nil // handed over
				}
			}
			if err != nil {
				break // what follows a failed flush is C05's and C06's business
			}
			if r.Pct(30) {
				r.S.Sleep(int64(r.Choose(3000)) * 1000)
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the writer did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = !interesting
}

// ---- C05

func scenC05(r *R) {
	if r.Pct(15) {
		scenC05Plain(r)
		return
	}
	r.schedConfig()
	w, h := 1+r.Choose(12), 1+r.Choose(6)
	tty, ofd := r.stdTTY(w, h)
	r.slowTTY(tty)
	if r.Pct(60) {
		ofd.Flags |= syscall.O_NONBLOCK
	}
	v := newVT(w, h)
	v.bce = r.Pct(50)
	tty.Sink = func(b []byte) { v.Write(b) }
	wf := r.newWriteFaults(ofd)
	wf.pct = []int{0, 5, 25}[r.Pick(3, 2, 1)]
	wf.short = []int{0, 20}[r.Pick(2, 1)]
	ops := 2 + r.Choose([]int{8, 30, 80}[r.Pick(2, 2, 1)])
	r.Descf("%dx%d, bce %v, %d operations, tty cap %d, flags %#x, write faults %d%%", w, h, v.bce, ops, tty.Cap, ofd.Flags, wf.pct)
	checks := 0

	t := r.prog("writer", 3600e9, func() {
		out := &anansi.Output{File: simos.Stdout}
		term := anansi.NewTerm(simos.Stdin, simos.Stdout)
		if err := term.Attr.Enter(term); err != nil { // for its size
			r.Fail("error", "Attr.Enter failed: %v", err)
		}
		tsc := &anansi.TermScreen{}
		sc := &tsc.ScreenDiffer
		sc.Resize(image.Pt(w, h))
		pending := false
		pt := func() ansi.Point { return ansi.Pt(1+r.Choose(w), 1+r.Choose(h)) }
		set := func() {
			p := pt()
			j, ok := sc.CellOffset(p)
			if !ok {
				r.Fail("grid", "no cell at %v in a %dx%d grid", p, w, h)
			}
			switch r.Pick(6, 1, 1) {
			case 0:
				sc.Grid.Rune[j], sc.Grid.Attr[j] = r.genRune(), r.genAttr()
			case 1:
				sc.Grid.Rune[j], sc.Grid.Attr[j] = 0, r.genAttr()
			case 2:
				sc.Grid.Rune[j], sc.Grid.Attr[j] = ' ', 0
			}
		}
		flush := func() {
			wf.reset()
			was := pending
			var err error
			how := r.Pick(3, 3, 1)
			switch how {
			case 0:
				err = out.Flush(sc)
			case 1:
				_, err = sc.WriteTo(simos.Stdout)
			case 2:
				// through the caller's buffer
				var b anansi.Buffer
				_, err = sc.WriteTo(&b)
				v.Write(b.Bytes())
				ofd := len(b.Bytes())
				r.S.Tracef("buffered flush of %d bytes: %q", ofd, clipBytes(b.Bytes()))
			}
			r.S.Tracef("flush(%d): %v", how, err)
			switch {
			case err == nil:
				if wf.hits > 0 {
					r.Fail("fault-hidden", "flush returned nil although a write failed")
				}
				pending = false
				if was {
					return
				}
				checks++
				if d := v.showsGrid(w, h, sc.Grid.Rune, sc.Grid.Attr); d != "" {
					r.Fail("screen", "after a successful flush: %s\nterminal:\n%v", d, v)
				}
				if uc := sc.UserCursor; uc.Visible && uc.Point.Valid() {
					if !v.visible() || v.x+1 != uc.X || v.y+1 != uc.Y {
						r.Fail("cursor", "terminal cursor @%d,%d visible=%v, want visible @%d,%d", v.x+1, v.y+1, v.visible(), uc.X, uc.Y)
					}
				} else if v.visible() {
					r.Fail("cursor", "terminal cursor visible @%d,%d, want it hidden", v.x+1, v.y+1)
				}
			case errnoOf(err) == syscall.EAGAIN && how == 1:
				pending = true
				r.S.Probe("stalled")
			default:
				if wf.hits == 0 {
					r.Fail("error", "flush returned %v without a fault", err)
				}
				pending = false
			}
		}
		for i := 0; i < ops; i++ {
			switch r.Pick(10, 3, 4, 2, 2, 4, 2, 1, 1, 10, 1, 1) {
			case 0:
				for k := r.Choose(4); k >= 0; k-- {
					set()
				}
			case 1:
				sc.Clear()
				for k := r.Choose(8); k > 0; k-- {
					set()
				}
			case 2:
				sc.To(pt())
				s := r.outText(r.Choose(20), true)
				r.S.Tracef("write %q", s)
				sc.WriteString(s)
			case 3:
				sc.WriteSGR(r.genAttr())
			case 4:
				sc.WriteString([]string{"\x1b[0J", "\x1b[1J", "\x1b[2J", "\x1b[0K", "\x1b[1K", "\x1b[2K"}[r.Choose(6)])
			case 5:
				sc.UserCursor = anansi.Cursor{Point: pt(), Visible: r.Pct(70)}
				if r.Pct(30) {
					sc.UserCursor.Attr = r.genAttr()
				}
				if r.Pct(10) {
					sc.UserCursor.Point = ansi.ZP
				}
			case 6:
				w, h = r.newSize(w, h, 1, 12, 1, 6)
				v.resize(w, h)
				sc.Resize(image.Pt(w, h))
				if uc := &sc.UserCursor; uc.X > w || uc.Y > h {
					uc.Point = pt()
				}
				r.S.Tracef("resize %dx%d", w, h)
			case 7:
				sc.Invalidate()
			case 8:
				sc.Reset()
			case 9:
				flush()
			case 10:
				// a partial rune or sequence left over in the virtual screen
				s := []string{"\x1b[", "\x1b[3", "\xe2\x94", "\x1b"}[r.Choose(4)]
				sc.WriteString(s)
				r.S.Tracef("write %q", s)
			case 11:
				// leave the terminal to others, who draw on it, and come back
				wf.reset()
				err := tsc.Exit(term)
				r.S.Tracef("exit, pending %v: %v", pending, err)
				if (err != nil) != (wf.hits > 0) {
					r.Fail("exit-error", "TermScreen.Exit returned %v, %d writes failed", err, wf.hits)
				}
				if err == nil && (v.a != (vtAttr{}) || !v.visible() || v.state != vtGround) {
					r.Fail("exit-state", "after TermScreen.Exit (output was pending: %v) the terminal writes with %v, cursor visible %v\nterminal:\n%v", pending, v.a, v.visible(), v)
				}
				pending = false
				if r.Pct(50) {
					v.Write([]byte("others\x1b[0m"))
					if r.Pct(50) {
						w, h = r.newSize(w, h, 1, 12, 1, 6)
						v.resize(w, h)
					}
				}
				tty.Cols, tty.Rows = w, h
				if err := tsc.Enter(term); err != nil {
					r.Fail("enter-error", "TermScreen.Enter failed: %v", err)
				}
				if sz := sc.Bounds().Size(); sz != image.Pt(w, h) {
					r.Fail("enter-size", "the size is %v after TermScreen.Enter, the terminal is %dx%d", sz, w, h)
				}
			}
			if r.Pct(10) {
				r.S.Sleep(int64(r.Choose(3000)) * 1000)
			}
		}
		wf.armed = false
		for k := 0; k < 3; k++ {
			for pending {
				flush()
				r.S.Sleep(1e6)
			}
			flush()
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the writer did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = checks < 2
}

// scenC05Plain keeps the prior state itself, and updates the terminal from a
// Screen, a Grid or a Cursor by Screen.Update, WriteGrid and Cursor.ApplyTo,
// rather than with a ScreenDiffer.
func scenC05Plain(r *R) {
	r.schedConfig()
	w, h := 1+r.Choose(12), 1+r.Choose(6)
	tty, ofd := r.stdTTY(w, h)
	r.slowTTY(tty)
	v := newVT(w, h)
	v.bce = r.Pct(50)
	got := 0
	tty.Sink = func(b []byte) { got += len(b); v.Write(b) }
	wf := r.newWriteFaults(ofd)
	wf.pct = []int{0, 5, 25}[r.Pick(3, 2, 1)]
	wf.short = []int{0, 20}[r.Pick(2, 1)]
	ops := 2 + r.Choose([]int{8, 30, 80}[r.Pick(2, 2, 1)])
	r.Descf("%dx%d, bce %v, %d plain updates, tty cap %d, write faults %d%%", w, h, v.bce, ops, tty.Cap, wf.pct)
	checks := 0

	t := r.prog("writer", 3600e9, func() {
		var sc, prior anansi.Screen
		sc.Resize(image.Pt(w, h))
		pt := func() ansi.Point { return ansi.Pt(1+r.Choose(w), 1+r.Choose(h)) }
		for i := 0; i < ops; i++ {
			switch r.Pick(10, 2, 4, 1, 1) {
			case 0:
				for k := r.Choose(6); k >= 0; k-- {
					j, _ := sc.CellOffset(pt())
					sc.Grid.Rune[j], sc.Grid.Attr[j] = 0, 0
					if r.Pct(80) {
						sc.Grid.Rune[j] = r.genRune()
					}
					if r.Pct(80) {
						sc.Grid.Attr[j] = r.genAttr()
					}
				}
			case 1:
				sc.Clear()
			case 2:
				sc.Cursor = anansi.Cursor{Point: pt(), Visible: r.Pct(70), Attr: r.genAttr()}
				if r.Pct(10) {
					sc.Cursor.Point = ansi.ZP
				}
			case 3:
				w, h = r.newSize(w, h, 1, 12, 1, 6)
				v.resize(w, h)
				sc.Resize(image.Pt(w, h))
				if c := &sc.Cursor; c.X > w || c.Y > h {
					c.Point = pt()
				}
				if prior.Bounds().Size() == image.Pt(w, h) || r.Pct(50) {
					cur := prior.Cursor
					prior = anansi.Screen{}
					prior.Cursor = cur
				} // else it differs in size, and that is enough
				prior.Cursor.Point = ansi.ZP // the terminal may have moved it
			case 4:
				cur := prior.Cursor
				prior = anansi.Screen{} // redraw in full
				prior.Cursor = cur
			}

			wf.reset()
			var b anansi.Buffer
			var to io.Writer = simos.Stdout
			buffered := r.Pct(30)
			if buffered {
				to = &b
			}
			got = 0
			var n int
			var err error
			how := r.Pick(4, 2, 2)
			switch how {
			case 0:
				n, prior, err = sc.Update(to, prior)
			case 1: // only the cells
				n, prior, err = anansi.WriteGrid(to, sc.Grid, prior)
			case 2: // only the cursor
				n, prior.Cursor, err = sc.Cursor.ApplyTo(to, prior.Cursor)
			}
			if buffered {
				v.Write(b.Bytes())
				got = b.Len()
			}
			r.S.Tracef("plain update %d (buffered %v): %d, %v", how, buffered, n, err)
			if err != nil {
				if wf.hits == 0 {
					r.Fail("error", "an update returned %v without a fault", err)
				}
				// start over, from a known state
				prior = anansi.Screen{}
				v.Write([]byte("\x18\x1b[0m"))
				continue
			}
			if wf.hits > 0 {
				r.Fail("fault-hidden", "an update returned no error although a write failed")
			}
			if n != got {
				r.Fail("count", "an update reported %d bytes written, it wrote %d", n, got)
			}
			if how != 2 {
				checks++
				if d := v.showsGrid(w, h, sc.Grid.Rune, sc.Grid.Attr); d != "" {
					r.Fail("screen", "after a plain update (%d): %s\nterminal:\n%v", how, d, v)
				}
			}
			if how == 1 {
				// WriteGrid leaves it to the caller to remember the cells
				prior.Resize(sc.Bounds().Size())
				copy(prior.Rune, sc.Rune)
				copy(prior.Attr, sc.Attr)
			} else if c := sc.Cursor; c.Visible && c.Point.Valid() {
				if !v.visible() || v.x+1 != c.X || v.y+1 != c.Y {
					r.Fail("cursor", "terminal cursor @%d,%d visible=%v, want visible @%d,%d", v.x+1, v.y+1, v.visible(), c.X, c.Y)
				}
			} else if v.visible() {
				r.Fail("cursor", "terminal cursor visible @%d,%d, want it hidden", v.x+1, v.y+1)
			}
		}
		wf.armed = false
	})
	if !t.Done() {
		r.Fail("stuck", "the writer did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = checks < 2
}

// ---- C06

func scenC06(r *R) {
	r.schedConfig()
	const w, h = 70, 50
	tty, ofd := r.stdTTY(w, h)
	r.slowTTY(tty)
	if r.Pct(60) {
		ofd.Flags |= syscall.O_NONBLOCK
	}
	v := newVT(w, h)
	tty.Sink = func(b []byte) { v.Write(b) }
	wf := r.newWriteFaults(ofd)
	wf.pct = []int{0, 5, 25}[r.Pick(3, 2, 1)]
	wf.short = []int{0, 20}[r.Pick(2, 1)]
	ops := 2 + r.Choose([]int{8, 30, 80}[r.Pick(2, 2, 1)])
	r.Descf("%d operations, tty cap %d, flags %#x, write faults %d%%", ops, tty.Cap, ofd.Flags, wf.pct)
	checks := 0

	t := r.prog("writer", 3600e9, func() {
		out := &anansi.Output{File: simos.Stdout}
		vc := &anansi.VirtualCursor{}
		ideal := newVT(w, h)
		flushed := ideal.clone() // ideal terminal as of the last flush
		pending, torn := false, false
		// what the cursor state says may be compared once it is established
		attrKnown, visKnown := true, false
		fAttr, fVis := true, false
		to := func(x, y int) {
			vc.To(ansi.Pt(x, y))
			ideal.abort()
			ideal.move(x-1, y-1)
			r.S.Tracef("To(%d,%d)", x, y)
		}
		vis := func(on bool) {
			if on {
				vc.Show()
			} else {
				vc.Hide()
			}
			ideal.abort()
			ideal.modes[25] = on
			visKnown = true
			r.S.Tracef("visible %v", on)
		}
		sgr := func() {
			n := 1 + r.Choose(2)
			as := make([]ansi.SGRAttr, n)
			ideal.abort()
			for i := range as {
				as[i] = r.genAttr()
				if r.Pct(10) {
					as[i] |= ansi.SGRAttrClear
				}
				ideal.a = attrOf(as[i])
			}
			vc.WriteSGR(as...)
			attrKnown = true
			r.S.Tracef("WriteSGR(%v)", as)
		}
		resync := func() {
			// the terminal got what it got
			ideal = v.clone()
			attrKnown, visKnown = false, false
			torn = v.state != vtGround || len(v.partial) > 0
			pending = false
		}
		for i := 0; i < ops; i++ {
			op := r.Pick(12, 6, 6, 3, 2, 3, 1, 10)
			if torn && op != 7 {
				// what follows a torn sequence has to start one
				op = 1 + r.Choose(3)
				if op == 1 && vc.Point.Valid() {
					op = 2
				}
				if op == 2 && attrKnown {
					vc.Reset()
					op = 2
				}
				torn = false
			} else if ideal.x > w-40 || ideal.y > h-20 {
				op = 1
			}
			switch op {
			case 0:
				s := r.outText(1+r.Choose(12), false)
				if r.Pct(5) {
					s += []string{"\x7f", "\a", "\x00", "\x7fx"}[r.Choose(4)] // takes no room
				}
				if r.Pct(30) {
					s += []string{"\r\n", "\r", "\n", "\x1b[H", "\x1b[2;3H", "\x1b[A", "\x1b[2B", "\x1b[3C", "\x1b[2D", "\x1b[?25l", "\x1b[?25h", "\x1b[0m", "\x1b[2J", "\x1b[K", "\x1b[0C"}[r.Choose(15)]
				}
				r.S.Tracef("write %q", s)
				ideal.Write([]byte(s))
				n := 0
				switch r.Pick(4, 4, 1, 1) {
				case 0:
					n, _ = vc.WriteString(s)
				case 1:
					n, _ = vc.Write([]byte(s))
				case 2:
					for _, c := range s {
						k, _ := vc.WriteRune(c)
						n += k
					}
				case 3:
					for ; n < len(s); n++ {
						vc.WriteByte(s[n])
					}
				}
				if n != len(s) {
					r.Fail("count", "writing %q reported %d bytes, not %d", s, n, len(s))
				}
				if bytes.Contains([]byte(s), []byte("\x1b[?25")) {
					visKnown = true
				}
				if strings.Contains(s, "\x1b[0m") || strings.Contains(s, "\x1b[0;") {
					attrKnown = true
				}
			case 1:
				if !torn && vc.Point.Valid() && r.Pct(10) {
					// a sequence left incomplete is cut off by the next one
					s := []string{"\x1b[", "\x1b[3", "\x1b", "\x1b[1;"}[r.Choose(4)]
					r.S.Tracef("write %q", s)
					vc.WriteString(s)
					ideal.Write([]byte(s))
					to(2+(vc.X+r.Choose(20))%30, 1+r.Choose(30))
				} else if r.Pct(50) {
					to(1+r.Choose(30), 1+r.Choose(30))
				} else {
					// near the current position
					to(max(1, ideal.x+1+r.Choose(3)-1), max(1, ideal.y+1+r.Choose(3)-1))
				}
			case 2:
				sgr()
			case 3:
				vis(r.Pct(50))
			case 4:
				cs := anansi.Cursor{Point: ansi.Pt(1+r.Choose(30), 1+r.Choose(30)), Attr: r.genAttr(), Visible: r.Pct(70)}
				vc.Apply(cs)
				r.S.Tracef("Apply(%v)", cs)
				ideal.abort()
				if cs.Visible {
					ideal.move(cs.X-1, cs.Y-1)
					ideal.a = attrOf(cs.Attr)
					ideal.modes[25] = true
					attrKnown = true
				} else {
					ideal.modes[25] = false
				}
				visKnown = true
			case 5:
				c := ansi.CUP
				switch r.Choose(3) {
				case 0:
					x, y := 1+r.Choose(20), 1+r.Choose(20)
					vc.WriteSeq(c.WithInts(y, x))
					ideal.abort()
					ideal.move(x-1, y-1)
				case 1:
					d := r.Choose(4)
					n := 1 + r.Choose(3)
					vc.WriteSeq([]ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB}[d].WithInts(n))
					ideal.abort()
					ideal.move(ideal.x+[]int{0, 0, n, -n}[d], ideal.y+[]int{-n, n, 0, 0}[d])
				case 2:
					d := r.Choose(4)
					vc.WriteESC([]ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB}[d])
					ideal.abort()
					ideal.move(ideal.x+[]int{0, 0, 1, -1}[d], ideal.y+[]int{-1, 1, 0, 0}[d])
				}
				r.S.Tracef("move: ideal @%d,%d", ideal.x+1, ideal.y+1)
			case 6:
				r.S.Tracef("Reset")
				vc.Reset()
				if pending {
					resync()
					flushed = ideal.clone()
					fAttr, fVis = false, false
				} else {
					ideal = flushed.clone()
					attrKnown, visKnown = fAttr, fVis
				}
				if vc.Cursor != vc.Real {
					r.Fail("reset", "cursor is %v after Reset, last flushed state is %v", vc.Cursor, vc.Real)
				}
			case 7:
				wf.reset()
				var err error
				how := r.Choose(2)
				if how == 0 {
					err = out.Flush(vc)
				} else {
					_, err = vc.WriteTo(simos.Stdout)
				}
				r.S.Tracef("flush(%d): %v", how, err)
				switch {
				case err == nil:
					if wf.hits > 0 {
						r.Fail("fault-hidden", "flush returned nil although a write failed")
					}
					pending, torn = false, false
					flushed = ideal.clone()
					fAttr, fVis = attrKnown, visKnown
					checks++
					if d := v.diff(ideal); d != "" {
						r.Fail("screen", "after a successful flush: %s\nterminal:\n%v\nideal:\n%v", d, v, ideal)
					}
					if v.x != ideal.x || v.y != ideal.y || v.a != ideal.a || v.visible() != ideal.visible() {
						r.Fail("state", "terminal cursor @%d,%d %v visible=%v, want @%d,%d %v visible=%v", v.x+1, v.y+1, v.a, v.visible(), ideal.x+1, ideal.y+1, ideal.a, ideal.visible())
					}
					if vc.Real != vc.Cursor {
						r.Fail("real", "Real is %v after a successful flush, Cursor %v", vc.Real, vc.Cursor)
					}
					if vc.Point.Valid() && (vc.X != v.x+1 || vc.Y != v.y+1) {
						r.Fail("tracked-point", "tracked cursor %v, terminal cursor @%d,%d", vc.Cursor, v.x+1, v.y+1)
					}
					if attrKnown && attrOf(vc.Attr) != v.a {
						r.Fail("tracked-attr", "tracked cursor %v, terminal attributes %v", vc.Cursor, v.a)
					}
					if visKnown && vc.Visible != v.visible() {
						r.Fail("tracked-visible", "tracked cursor %v, terminal cursor visible %v", vc.Cursor, v.visible())
					}
				case errnoOf(err) == syscall.EAGAIN && how == 1:
					pending = true
				default:
					if wf.hits == 0 {
						r.Fail("error", "flush returned %v without a fault", err)
					}
					if vc.Cursor != (anansi.Cursor{}) || vc.Real != (anansi.Cursor{}) {
						r.Fail("not-forgotten", "after a failed flush the tracked state is %v, real %v", vc.Cursor, vc.Real)
					}
					resync()
					flushed = ideal.clone()
					fAttr, fVis = false, false
				}
			}
			if r.Pct(10) {
				r.S.Sleep(int64(r.Choose(3000)) * 1000)
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the writer did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = checks < 2
}

// ---- C07

// evLog records what a Buffer processes.
type evLog struct{ evs []inEvent }

func (l *evLog) ProcessANSI(e ansi.Escape, a []byte) {
	l.evs = append(l.evs, inEvent{rune(e), string(a)})
}

func (r *R) genOutStream(n int) []byte {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		switch r.Pick(10, 4, 4, 2, 1) {
		case 0:
			b.WriteRune(r.genRune())
		case 1:
			b.WriteString(r.outText(2, true))
		case 2:
			b.Write(r.genToken())
		case 3:
			b.WriteString([]string{"\x1b[2J", "\x1b[K", "\x1b[0;31m", "\u009b2J", "\r\n", "\x1b(B", "\x1b7", "\x1b[?25l"}[r.Choose(8)])
		case 4:
			b.Write([]byte{"\xff\xc3\xe2\x94\x1b\x18\x7f\n"[r.Choose(8)]})
		}
	}
	return b.Bytes()
}

func scenC07(r *R) {
	r.schedConfig()
	tty, ofd := r.stdTTY(40, 10)
	r.slowTTY(tty)
	if r.Pct(70) {
		ofd.Flags |= syscall.O_NONBLOCK
	}
	wf := r.newWriteFaults(ofd)
	wf.short = []int{0, 20}[r.Pick(2, 1)]
	stream := r.genOutStream(1 + r.Choose([]int{5, 20, 60}[r.Pick(2, 2, 1)]))
	maxPiece := []int{1, 2, 3, 8, 40}[r.Pick(2, 2, 2, 2, 1)]
	size := image.Pt(1+r.Choose(14), 1+r.Choose(6))
	kind := r.Pick(1, 1, 1)
	r.Descf("kind %d, stream %q, pieces up to %d", kind, stream, maxPiece)
	left := "" // from before it was cleared
	if r.Pct(30) {
		left = []string{"\x1b[", "\x1b[3", "\xe2\x94", "\x1b", "\x1b]x", "\xc2", "\x1b[1;31mx\x1b[0", "\u009b2", "\x1b("}[r.Choose(9)]
	}
	cuts := 0

	type writer interface {
		io.Writer
		WriteString(s string) (int, error)
		WriteByte(c byte) error
	}
	pieces := func(w writer, after func()) {
		for b := stream; len(b) > 0; {
			n := min(len(b), 1+r.Choose(maxPiece))
			switch {
			case n == 1 && r.Pct(50):
				w.WriteByte(b[0])
			case r.Pct(50):
				w.WriteString(string(b[:n]))
			default:
				w.Write(append([]byte(nil), b[:n]...))
			}
			b = b[n:]
			if len(b) > 0 {
				cuts++
			}
			after()
		}
	}
	t := r.prog("writer", 3600e9, func() {
		switch kind {
		case 0:
			var a, b anansi.ScreenDiffer
			a.Resize(size)
			b.Resize(size)
			a.Write(append([]byte(nil), stream...))
			if left != "" {
				b.WriteString(left)
				b.Clear()
				cuts++
			}
			pieces(&b.VirtualScreen, func() {})
			if a.Cursor != b.Cursor {
				r.Fail("cursor", "writing %q in pieces leaves the cursor %v, in one write %v", clipBytes(stream), b.Cursor, a.Cursor)
			}
			for i := range a.Grid.Rune {
				if a.Grid.Rune[i] != b.Grid.Rune[i] || a.Grid.Attr[i] != b.Grid.Attr[i] {
					r.Fail("screen", "writing %q in pieces: cell %d is %q %v, in one write %q %v", clipBytes(stream), i, b.Grid.Rune[i], b.Grid.Attr[i], a.Grid.Rune[i], a.Grid.Attr[i])
				}
			}
		case 1:
			var a, b anansi.VirtualCursor
			a.Write(append([]byte(nil), stream...))
			if left != "" {
				b.WriteString(left)
				b.Reset()
				cuts++
			}
			flush := r.Pct(50)
			pieces(&b, func() {
				if flush && r.Pct(20) {
					if _, err := b.WriteTo(simos.Stdout); err != nil && errnoOf(err) != syscall.EAGAIN {
						r.Fail("error", "WriteTo failed: %v", err)
					}
				}
			})
			if a.Cursor != b.Cursor {
				r.Fail("cursor", "writing %q in pieces leaves the cursor %v, in one write %v", clipBytes(stream), b.Cursor, a.Cursor)
			}
			finish(r, &b, tty, stream)
		case 2:
			var a, b anansi.Buffer
			var la, lb evLog
			a.Write(append([]byte(nil), stream...))
			a.Process(&la)
			if left != "" {
				b.WriteString(left)
				b.Process(&evLog{})
				b.Reset()
				cuts++
			}
			flush := r.Pct(60)
			mid := func(force bool) {
				if force || r.Pct(70) {
					b.Process(&lb)
				}
				if flush && r.Pct(20) {
					b.Process(&lb)
					if _, err := b.WriteTo(simos.Stdout); err != nil && errnoOf(err) != syscall.EAGAIN {
						r.Fail("error", "WriteTo failed: %v", err)
					}
				}
			}
			pieces(&b, func() { mid(false) })
			mid(true)
			for i := 0; i < len(la.evs) || i < len(lb.evs); i++ {
				if i >= len(la.evs) || i >= len(lb.evs) || la.evs[i] != lb.evs[i] {
					r.Fail("events", "writing %q in pieces: event %d differs: %v, in one write %v", clipBytes(stream), i, lb.evs[min(i, len(lb.evs)):], la.evs[min(i, len(la.evs)):])
				}
			}
			if flush {
				finish(r, &b, tty, stream)
			}
			if got := a.Bytes(); !bytes.Equal(got, stream) {
				r.Fail("altered", "processing turned the buffered bytes %q into %q", clipBytes(stream), clipBytes(got))
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the writer did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = cuts == 0
}

// finish flushes what is left and compares what the terminal got.
func finish(r *R, wer io.WriterTo, tty *sim.TTY, want []byte) {
	out := &anansi.Output{File: simos.Stdout}
	if err := out.Flush(wer); err != nil {
		r.Fail("error", "Flush failed: %v", err)
	}
	if !bytes.Equal(tty.Out, want) {
		r.Fail("bytes", "the terminal got %q, written was %q", clipBytes(tty.Out), clipBytes(want))
	}
}
