package main

import (
	"fmt"
	"image"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	simos "github.com/jcorbin/anansi/zz/shim/os"
)

func init() {
	register(&Scenario{
		ID: "C29", Quick: 1200000, Thorough: 20000000, MaxSteps: 6000000,
		Rule: "each run draws a stream of text and control sequences, how it is cut into writes, and flushes (stalling, failing) in between, and gives it both to a virtual screen and to a reference terminal; " +
			"non-trivial if at least five states were compared",
		Real: outputReal, Stub: termStub, Fn: scenC29,
	})
}

// emuToken draws text or a control sequence that does not run off the end of
// the screen, with the cursor where ref has it.
func (r *R) emuToken(ref *vt) string {
	last, corner := ref.y == ref.h-1, ref.y == ref.h-1 && ref.x == ref.w-1
	num := func(lim int) string {
		switch r.Pick(2, 6, 1, 1) {
		case 0:
			return ""
		case 2:
			return "0"
		case 3:
			return fmt.Sprint(lim + r.Choose(200))
		}
		return fmt.Sprint(1 + r.Choose(lim))
	}
	csi := "\x1b["
	if r.Pct(5) {
		csi = "\u009b"
	}
	k := r.Pick(14, 3, 3, 3, 2, 2, 3, 2, 1, 1)
	switch {
	case k == 0 && !corner:
		return string(r.genRune())
	case k == 1 && !last:
		return []string{"\n", "\r\n"}[r.Choose(2)]
	case k == 2:
		a := r.genAttr() &^ ansi.SGRAttrConceal
		if r.Pct(30) {
			a |= ansi.SGRAttrClear
		}
		return a.ControlString()
	case k == 4:
		return csi + []string{"", "0", "1", "2", "2", "3"}[r.Choose(6)] + "J"
	case k == 5:
		return csi + []string{"", "0", "1", "2", "3"}[r.Choose(5)] + "K"
	case k == 6:
		d := r.Choose(4)
		return csi + num([]int{ref.h, ref.h, ref.w, ref.w}[d]) + string("ABCD"[d])
	case k == 7:
		return csi + []string{"?25l", "?25h", "?1;25h", "?25;1l"}[r.Choose(4)]
	case k == 8:
		// shows nothing
		return []string{"\a", "\x7f", "\x00", "\x1b(B", "\x1b=", "\x1b]0;title\x1b\\", csi + "?1000h"}[r.Choose(7)]
	case k == 9:
		return "\r"
	}
	if r.Pct(10) {
		return csi + "H"
	}
	y, x := 1+r.Choose(ref.h), 1+r.Choose(ref.w)
	switch r.Pick(8, 1, 1) {
	case 1:
		y, x = y*r.Choose(2), x*r.Choose(2)
	case 2:
		y, x = y+r.Choose(100), x+r.Choose(100)
	}
	return fmt.Sprintf("%s%d;%dH", csi, y, x)
}

func scenC29(r *R) {
	r.schedConfig()
	newDims := func() (int, int) {
		if r.Pct(1) {
			return 60 + r.Choose(40), 20 + r.Choose(20)
		}
		return 1 + r.Choose(14), 1 + r.Choose(6)
	}
	w, h := newDims()
	tty, ofd := r.stdTTY(w, h)
	r.slowTTY(tty)
	if r.Pct(60) {
		ofd.Flags |= syscall.O_NONBLOCK
	}
	real := newVT(w, h)
	real.bce = r.Pct(50)
	tty.Sink = func(b []byte) { real.Write(b) }
	wf := r.newWriteFaults(ofd)
	wf.pct = []int{0, 5, 25}[r.Pick(3, 2, 1)]
	wf.short = []int{0, 20}[r.Pick(2, 1)]
	ops := 2 + r.Choose([]int{10, 40, 120}[r.Pick(2, 2, 1)])
	maxPiece := []int{1, 2, 4, 40}[r.Pick(1, 1, 1, 2)]
	r.Descf("%dx%d, bce %v, %d operations, pieces up to %d, tty cap %d, flags %#x, write faults %d%%", w, h, real.bce, ops, maxPiece, tty.Cap, ofd.Flags, wf.pct)
	checks := 0

	t := r.prog("writer", 3600e9, func() {
		out := &anansi.Output{File: simos.Stdout}
		sc := &anansi.ScreenDiffer{}
		var ref *vt
		var said []byte
		fresh := func() {
			ref = newVT(w, h)
			ref.eager = true
			ref.modes[25] = false
			said = said[:0]
		}
		sc.Resize(image.Pt(w, h))
		fresh()
		pending := false
		// resync takes the cursor over from the screen
		resync := func() {
			ref.move(max(1, sc.Cursor.X)-1, max(1, sc.Cursor.Y)-1)
			ref.a = attrOf(sc.Cursor.Attr)
			ref.modes[25] = sc.Cursor.Visible
		}
		give := func(s string) {
			for b := []byte(s); len(b) > 0; {
				n := min(len(b), 1+r.Choose(maxPiece))
				p := b[:n]
				b = b[n:]
				said = append(said, p...)
				ref.Write(p)
				switch {
				case n == 1 && r.Pct(50):
					sc.WriteByte(p[0])
				case r.Pct(50):
					if k, err := sc.WriteString(string(p)); k != n || err != nil {
						r.Fail("count", "WriteString(%q) returned %d, %v", p, k, err)
					}
				default:
					if k, err := sc.Write(append([]byte(nil), p...)); k != n || err != nil {
						r.Fail("count", "Write(%q) returned %d, %v", p, k, err)
					}
				}
			}
		}
		check := func() {
			if ref.scrolls > 0 {
				return
			}
			checks++
			if d := ref.showsGrid(w, h, sc.Grid.Rune, sc.Grid.Attr); d != "" {
				r.Fail("screen", "after %q: the terminal's (left: %s, in the virtual screen)\nterminal:\n%v", tail(said, 300), d, ref)
			}
			c := sc.Cursor
			if c.Point != ansi.ZP && (c.X != ref.x+1 || c.Y != ref.y+1) {
				r.Fail("cursor", "after %q the virtual cursor is %v, a terminal's @%d,%d", tail(said, 300), c, ref.x+1, ref.y+1)
			}
			if attrOf(c.Attr) != ref.a {
				r.Fail("attr", "after %q the virtual cursor is %v, a terminal writes with %v", tail(said, 300), c, ref.a)
			}
			if c.Visible != ref.visible() {
				r.Fail("visible", "after %q the virtual cursor is %v, a terminal's visible %v", tail(said, 300), c, ref.visible())
			}
		}
		flush := func() {
			wf.reset()
			was := pending
			var err error
			how := r.Pick(2, 2)
			if how == 0 {
				err = out.Flush(sc)
			} else {
				_, err = sc.WriteTo(simos.Stdout)
			}
			r.S.Tracef("flush(%d): %v", how, err)
			switch {
			case err == nil:
				pending = false
				if !was && ref.scrolls == 0 {
					checks++
					if d := real.diff(ref); d != "" {
						r.Fail("flushed", "after %q and a flush, the screen is not as if that was written to it: %s\nterminal:\n%v\nas if:\n%v", tail(said, 300), d, real, ref)
					}
				}
				resync()
			case errnoOf(err) == syscall.EAGAIN && how == 1:
				pending = true
				resync()
			default:
				if wf.hits == 0 {
					r.Fail("error", "flush returned %v without a fault", err)
				}
				pending = false
				sc.Clear()
				fresh()
			}
		}
		for i := 0; i < ops && ref.scrolls == 0; i++ {
			switch r.Pick(24, 2, 1, 1, 1, 1, 3) {
			case 0:
				s := r.emuToken(ref)
				r.S.Tracef("write %q", s)
				if len(s) > 1 && r.Pct(5) && ref.state == vtGround {
					// flushed halfway
					k := 1 + r.Choose(len(s)-1)
					give(s[:k])
					flush()
					if len(ref.cells) > 0 && (ref.state != vtGround || len(ref.partial) > 0) {
						give(s[k:])
					}
				} else if rs := []rune(s); len(rs) == 1 && r.Pct(30) {
					ref.Write([]byte(s))
					said = append(said, s...)
					if k, err := sc.WriteRune(rs[0]); k != len(s) || err != nil {
						r.Fail("count", "WriteRune(%q) returned %d, %v", rs[0], k, err)
					}
				} else {
					give(s)
				}
			case 1:
				x, y := 1+r.Choose(w), 1+r.Choose(h)
				if r.Pct(10) {
					x += r.Choose(100)
					y += r.Choose(100)
				}
				r.S.Tracef("To(%d,%d)", x, y)
				sc.To(ansi.Pt(x, y))
				ref.move(x-1, y-1)
				said = append(said, fmt.Sprintf("{To %d,%d}", x, y)...)
			case 2:
				a := r.genAttr() &^ ansi.SGRAttrConceal
				r.S.Tracef("WriteSGR(%v)", a)
				sc.WriteSGR(a)
				ref.a = attrOf(a)
				said = append(said, fmt.Sprintf("{SGR %v}", a)...)
			case 3:
				x, y := 1+r.Choose(w), 1+r.Choose(h)
				seqs := []ansi.Seq{ansi.CUP.WithInts(y, x)}
				if r.Pct(50) {
					seqs = append(seqs, []ansi.Seq{ansi.ED.With('0'), ansi.EL.With('1'), ansi.ShowCursor.Set(), ansi.ShowCursor.Reset()}[r.Choose(4)])
				}
				var b []byte
				for _, s := range seqs {
					b = s.AppendTo(b)
				}
				r.S.Tracef("WriteSeq %q", b)
				sc.WriteSeq(seqs...)
				ref.Write(b)
				said = append(said, b...)
			case 4:
				es := []ansi.Escape{[]ansi.Escape{ansi.CUU, ansi.CUD, ansi.CUF, ansi.CUB, ansi.CUP}[r.Choose(5)], []ansi.Escape{ansi.CUU, ansi.CUD, ansi.ED, ansi.EL}[r.Choose(4)]}
				var b []byte
				for _, e := range es {
					b = e.AppendTo(b)
				}
				r.S.Tracef("WriteESC %q", b)
				sc.WriteESC(es...)
				ref.Write(b)
				said = append(said, b...)
			case 5:
				if r.Pct(50) {
					// what is cut off is not completed
					give([]string{"\x1b[", "\x1b[3", "\xe2\x94", "\x1b", "\x1b]x"}[r.Choose(5)])
				}
				sc.Clear()
				r.S.Tracef("clear")
				if r.Pct(30) {
					w, h = newDims()
					sc.Resize(image.Pt(w, h))
					real.resize(w, h)
				}
				fresh()
			case 6:
				sc.UserCursor = anansi.Cursor{Point: ansi.Pt(1+r.Choose(w), 1+r.Choose(h)), Visible: r.Pct(50), Attr: r.genAttr()}
				flush()
			}
			check()
			if r.Pct(5) {
				r.S.Sleep(int64(r.Choose(3000)) * 1000)
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the writer did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = checks < 5
}
