package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
)

// vtAttr is a terminal's graphic rendition; colours are 0 for the default,
// 1+n for palette entry n, 1<<24|rgb for direct colours.
type vtAttr struct {
	fg, bg uint32
	flags  uint16
}

const (
	vtBold = 1 << iota
	vtDim
	vtItalic
	vtUnder
	vtBlink
	vtNegative
	vtConceal
	vtStrike
)

func (a vtAttr) String() string {
	var p []string
	for i, n := range []string{"bold", "dim", "italic", "under", "blink", "neg", "conceal", "strike"} {
		if a.flags&(1<<i) != 0 {
			p = append(p, n)
		}
	}
	col := func(w string, c uint32) {
		if c&(1<<24) != 0 {
			p = append(p, fmt.Sprintf("%s#%06x", w, c&0xffffff))
		} else if c != 0 {
			p = append(p, fmt.Sprintf("%s%d", w, c-1))
		}
	}
	col("fg", a.fg)
	col("bg", a.bg)
	return "[" + strings.Join(p, " ") + "]"
}

// attrOf is what an SGRAttr means to a terminal.
func attrOf(a ansi.SGRAttr) (v vtAttr) {
	for i, s := range []ansi.SGRAttr{ansi.SGRAttrBold, ansi.SGRAttrDim, ansi.SGRAttrItalic, ansi.SGRAttrUnderscore} {
		if a&s != 0 {
			v.flags |= 1 << i
		}
	}
	if a&ansi.SGRAttrNegative != 0 {
		v.flags |= vtNegative
	}
	if a&ansi.SGRAttrConceal != 0 {
		v.flags |= vtConceal
	}
	col := func(c ansi.SGRColor) uint32 {
		if uint32(c)&(1<<24) != 0 {
			r, g, b := uint32(c)&0xff, uint32(c)>>8&0xff, uint32(c)>>16&0xff
			return 1<<24 | r<<16 | g<<8 | b
		}
		return 1 + uint32(c)&0xff
	}
	if c, ok := a.FG(); ok {
		v.fg = col(c)
	}
	if c, ok := a.BG(); ok {
		v.bg = col(c)
	}
	return v
}

type vtCell struct {
	r rune
	a vtAttr
}

type vtSaved struct {
	x, y int
	a    vtAttr
}

// vt is a small independent model of a VT-style terminal.
type vt struct {
	w, h  int
	cells []vtCell
	x, y  int // 0-based
	wrap  bool
	a     vtAttr
	modes map[int]bool
	saved vtSaved
	alt   []vtCell // the main screen while the alternate is shown
	bce   bool

	state   vtState
	args    []byte
	inter   []byte
	private byte
	partial []byte

	titles  []string
	unknown []string
	bells   int
	scrolls int
	eager   bool // wraps as soon as the last column is written
	fffd    int
}

type vtState int

const (
	vtGround vtState = iota
	vtEsc
	vtEscInter
	vtCSI
	vtString
	vtStringEsc
)

func newVT(w, h int) *vt {
	return &vt{w: w, h: h, cells: make([]vtCell, w*h), modes: map[int]bool{25: true, 7: true}}
}

func (v *vt) clone() *vt {
	c := *v
	c.cells = append([]vtCell(nil), v.cells...)
	c.alt = append([]vtCell(nil), v.alt...)
	c.args = append([]byte(nil), v.args...)
	c.inter = append([]byte(nil), v.inter...)
	c.partial = append([]byte(nil), v.partial...)
	c.unknown = append([]string(nil), v.unknown...)
	c.modes = make(map[int]bool)
	for k, b := range v.modes {
		c.modes[k] = b
	}
	return &c
}

func (v *vt) visible() bool { return v.modes[25] }

func (v *vt) at(x, y int) vtCell { return v.cells[y*v.w+x] }

// resize keeps the top left part.
func (v *vt) resize(w, h int) {
	re := func(cells []vtCell) []vtCell {
		n := make([]vtCell, w*h)
		for y := 0; y < min(h, v.h); y++ {
			copy(n[y*w:y*w+min(w, v.w)], cells[y*v.w:y*v.w+min(w, v.w)])
		}
		return n
	}
	v.cells = re(v.cells)
	if v.alt != nil {
		v.alt = re(v.alt)
	}
	v.w, v.h = w, h
	v.x, v.y, v.wrap = min(v.x, w-1), min(v.y, h-1), false
}

func (v *vt) blank() vtCell {
	if v.bce {
		return vtCell{0, vtAttr{bg: v.a.bg}}
	}
	return vtCell{}
}

func (v *vt) erase(i, j int) {
	for ; i < j; i++ {
		v.cells[i] = v.blank()
	}
}

func (v *vt) lf() {
	v.wrap = false
	if v.y < v.h-1 {
		v.y++
		return
	}
	v.scrolls++
	copy(v.cells, v.cells[v.w:])
	v.erase((v.h-1)*v.w, v.h*v.w)
}

func (v *vt) move(x, y int) {
	v.x, v.y, v.wrap = max(0, min(x, v.w-1)), max(0, min(y, v.h-1)), false
}

func (v *vt) put(r rune) {
	if r == utf8.RuneError {
		v.fffd++
	}
	if v.wrap && v.modes[7] {
		v.x = 0
		v.lf()
	}
	v.wrap = false
	v.cells[v.y*v.w+v.x] = vtCell{r, v.a}
	if v.x < v.w-1 {
		v.x++
	} else if v.eager {
		v.x = 0
		v.lf()
	} else {
		v.wrap = true
	}
}

// Write feeds bytes to the terminal.
func (v *vt) Write(b []byte) (int, error) {
	for _, c := range b {
		v.feed(c)
	}
	return len(b), nil
}

func (v *vt) feed(c byte) {
	if len(v.partial) > 0 {
		if c&0xC0 == 0x80 {
			v.partial = append(v.partial, c)
			if r, _ := utf8.DecodeRune(v.partial); r != utf8.RuneError {
				v.partial = v.partial[:0]
				v.char(r)
			} else if utf8.FullRune(v.partial) {
				v.partial = v.partial[:0]
				v.char(utf8.RuneError)
			}
			return
		}
		v.partial = v.partial[:0]
		v.char(utf8.RuneError)
	}
	if c >= 0x80 {
		v.partial = append(v.partial[:0], c)
		if utf8.FullRune(v.partial) {
			v.partial = v.partial[:0]
			v.char(utf8.RuneError)
		}
		return
	}
	v.char(rune(c))
}

func (v *vt) start(s vtState) {
	v.state, v.args, v.inter, v.private = s, v.args[:0], v.inter[:0], 0
}

func (v *vt) c1(r rune) {
	v.state = vtGround
	switch r {
	case 0x84:
		v.lf()
	case 0x85:
		v.x = 0
		v.lf()
	case 0x8D:
		v.wrap = false
		if v.y > 0 {
			v.y--
		} else {
			copy(v.cells[v.w:], v.cells[:v.w*(v.h-1)])
			v.erase(0, v.w)
		}
	case 0x9B:
		v.start(vtCSI)
	case 0x90, 0x9D, 0x9E, 0x9F, 0x98:
		v.start(vtString)
		v.private = byte(r)
	case 0x9C:
	default:
		v.note("C1 %x", r)
	}
}

func (v *vt) note(f string, args ...interface{}) {
	if len(v.unknown) < 50 {
		v.unknown = append(v.unknown, fmt.Sprintf(f, args...))
	}
}

func (v *vt) c0(r rune) {
	switch r {
	case '\n', 0x0B, 0x0C:
		v.lf()
	case '\r':
		v.x, v.wrap = 0, false
	case '\b':
		v.wrap = false
		if v.x > 0 {
			v.x--
		}
	case '\t':
		v.wrap = false
		v.x = min(v.w-1, (v.x/8+1)*8)
	case 7:
		v.bells++
	}
}

func (v *vt) char(r rune) {
	if v.state == vtString || v.state == vtStringEsc {
		switch {
		case v.state == vtStringEsc:
			if r == '\\' {
				v.endString()
			} else {
				// a new sequence cuts the string off
				v.start(vtEsc)
				v.char(r)
			}
		case r == 0x9C, r == 7 && v.private == 0x9D:
			v.endString()
		case r == 0x1B:
			v.state = vtStringEsc
		case r == 0x18 || r == 0x1A:
			v.state = vtGround
		default:
			if len(v.args) < 4096 {
				v.args = utf8.AppendRune(v.args, r)
			}
		}
		return
	}
	switch {
	case r == 0x1B:
		v.start(vtEsc)
		return
	case r == 0x18 || r == 0x1A:
		v.state = vtGround
		return
	case r < 0x20:
		v.c0(r)
		return
	case r == 0x7F:
		return
	case 0x80 <= r && r <= 0x9F:
		v.c1(r)
		return
	}
	switch v.state {
	case vtGround:
		v.put(r)
	case vtEsc, vtEscInter:
		switch {
		case r >= 0x80:
			v.state = vtGround
			v.put(r)
		case r < 0x30:
			v.inter = append(v.inter, byte(r))
			v.state = vtEscInter
		case v.state == vtEsc && 0x40 <= r && r <= 0x5F:
			v.c1(0x80 | r&0x1F)
		default:
			v.state = vtGround
			v.esc(byte(r))
		}
	case vtCSI:
		switch {
		case r >= 0x80:
			v.state = vtGround
			v.put(r)
		case r < 0x30:
			v.inter = append(v.inter, byte(r))
		case r < 0x40:
			if len(v.args) == 0 && r >= '<' {
				v.private = byte(r)
			} else {
				v.args = append(v.args, byte(r))
			}
		default:
			v.state = vtGround
			v.csi(byte(r))
		}
	}
}

func (v *vt) endString() {
	v.state = vtGround
	if v.private == 0x9D {
		v.titles = append(v.titles, string(v.args))
	}
}

func (v *vt) esc(c byte) {
	switch {
	case len(v.inter) > 0: // character sets
	case c == '7':
		v.saved = vtSaved{v.x, v.y, v.a}
	case c == '8':
		v.move(v.saved.x, v.saved.y)
		v.a = v.saved.a
	case c == '=' || c == '>':
		v.modes[-66] = c == '='
	default:
		v.note("ESC %c", c)
	}
}

func (v *vt) nums() []int {
	var ns []int
	for _, p := range strings.Split(string(v.args), ";") {
		n := 0
		for _, c := range p {
			if c < '0' || c > '9' {
				v.note("CSI arg %q", v.args)
				return nil
			}
			if n = n*10 + int(c-'0'); n > 99999 {
				n = 99999
			}
		}
		ns = append(ns, n)
	}
	return ns
}

func (v *vt) csi(c byte) {
	ns := v.nums()
	num := func(i, def int) int {
		if i < len(ns) && ns[i] != 0 {
			return ns[i]
		}
		return def
	}
	if len(v.inter) > 0 || (v.private != 0 && !(v.private == '?' && (c == 'h' || c == 'l'))) {
		v.note("CSI %c %s %s%c", v.private, v.args, v.inter, c)
		return
	}
	switch c {
	case 'A':
		v.move(v.x, v.y-num(0, 1))
	case 'B', 'e':
		v.move(v.x, v.y+num(0, 1))
	case 'C', 'a':
		v.move(v.x+num(0, 1), v.y)
	case 'D':
		v.move(v.x-num(0, 1), v.y)
	case 'E':
		v.move(0, v.y+num(0, 1))
	case 'F':
		v.move(0, v.y-num(0, 1))
	case 'G', '`':
		v.move(num(0, 1)-1, v.y)
	case 'd':
		v.move(v.x, num(0, 1)-1)
	case 'H', 'f':
		v.move(num(1, 1)-1, num(0, 1)-1)
	case 'J':
		switch num(0, 0) {
		case 0:
			v.erase(v.y*v.w+v.x, v.w*v.h)
		case 1:
			v.erase(0, v.y*v.w+v.x+1)
		case 2:
			v.erase(0, v.w*v.h)
		}
	case 'K':
		switch num(0, 0) {
		case 0:
			v.erase(v.y*v.w+v.x, (v.y+1)*v.w)
		case 1:
			v.erase(v.y*v.w, v.y*v.w+v.x+1)
		case 2:
			v.erase(v.y*v.w, (v.y+1)*v.w)
		}
	case 'm':
		v.sgr(ns)
	case 'h', 'l':
		for _, n := range ns {
			if v.private == 0 {
				n = -n
			}
			v.setMode(n, c == 'h')
		}
	default:
		v.note("CSI %s%c", v.args, c)
	}
}

func (v *vt) setMode(n int, on bool) {
	if n == 1049 && on != v.modes[n] {
		if on {
			v.saved = vtSaved{v.x, v.y, v.a}
			v.alt = v.cells
			v.cells = make([]vtCell, v.w*v.h)
			v.erase(0, v.w*v.h)
		} else {
			v.cells, v.alt = v.alt, nil
			v.move(v.saved.x, v.saved.y)
			v.a = v.saved.a
		}
	}
	if n == 25 || n == 7 {
		v.modes[n] = on
	} else if on {
		v.modes[n] = true
	} else {
		delete(v.modes, n)
	}
}

func (v *vt) sgr(ns []int) {
	col := func(i int) (uint32, int) {
		if i+1 < len(ns) && ns[i+1] == 5 && i+2 < len(ns) {
			return 1 + uint32(ns[i+2])&0xff, i + 2
		}
		if i+4 < len(ns) && ns[i+1] == 2 {
			return 1<<24 | uint32(ns[i+2])&0xff<<16 | uint32(ns[i+3])&0xff<<8 | uint32(ns[i+4])&0xff, i + 4
		}
		v.note("SGR %v", ns)
		return 0, len(ns)
	}
	for i := 0; i < len(ns); i++ {
		n := ns[i]
		switch {
		case n == 0:
			v.a = vtAttr{}
		case 1 <= n && n <= 4:
			v.a.flags |= 1 << (n - 1)
		case n == 5 || n == 6:
			v.a.flags |= vtBlink
		case n == 7:
			v.a.flags |= vtNegative
		case n == 8:
			v.a.flags |= vtConceal
		case n == 9:
			v.a.flags |= vtStrike
		case n == 22:
			v.a.flags &^= vtBold | vtDim
		case n == 23:
			v.a.flags &^= vtItalic
		case n == 24:
			v.a.flags &^= vtUnder
		case n == 25:
			v.a.flags &^= vtBlink
		case n == 27:
			v.a.flags &^= vtNegative
		case n == 28:
			v.a.flags &^= vtConceal
		case n == 29:
			v.a.flags &^= vtStrike
		case 30 <= n && n <= 37:
			v.a.fg = uint32(n - 30 + 1)
		case n == 38:
			v.a.fg, i = col(i)
		case n == 39:
			v.a.fg = 0
		case 40 <= n && n <= 47:
			v.a.bg = uint32(n - 40 + 1)
		case n == 48:
			v.a.bg, i = col(i)
		case n == 49:
			v.a.bg = 0
		case 90 <= n && n <= 97:
			v.a.fg = uint32(n - 90 + 9)
		case 100 <= n && n <= 107:
			v.a.bg = uint32(n - 100 + 9)
		default:
			v.note("SGR %d", n)
		}
	}
}

func (v *vt) line(y int) string {
	var b strings.Builder
	for x := 0; x < v.w; x++ {
		r := v.at(x, y).r
		if r == 0 {
			r = ' '
		}
		b.WriteRune(r)
	}
	return strings.TrimRight(b.String(), " ")
}

func (v *vt) String() string {
	var b strings.Builder
	for y := 0; y < v.h; y++ {
		if l := v.line(y); l != "" {
			fmt.Fprintf(&b, "%3d |%s\n", y+1, l)
		}
	}
	fmt.Fprintf(&b, "cursor @%d,%d wrap=%v %v visible=%v", v.x+1, v.y+1, v.wrap, v.a, v.visible())
	return b.String()
}

// same compares screens, returning what differs.
func (v *vt) diff(o *vt) string {
	if v.w != o.w || v.h != o.h {
		return fmt.Sprintf("size %dx%d, want %dx%d", v.w, v.h, o.w, o.h)
	}
	for i := range v.cells {
		a, b := v.cells[i], o.cells[i]
		if a.r == 0 {
			a.r = ' '
		}
		if b.r == 0 {
			b.r = ' '
		}
		if a != b {
			return fmt.Sprintf("cell @%d,%d shows %q %v, want %q %v", i%v.w+1, i/v.w+1, a.r, a.a, b.r, b.a)
		}
	}
	return ""
}

// showsGrid compares the screen with a grid, returning what differs.
func (v *vt) showsGrid(w, h int, rs []rune, as []ansi.SGRAttr) string {
	return v.showsGridBut(w, h, rs, as, -1)
}

// showsGridBut compares all but one cell.
func (v *vt) showsGridBut(w, h int, rs []rune, as []ansi.SGRAttr, but int) string {
	if v.w != w || v.h != h {
		return fmt.Sprintf("terminal size %dx%d, grid %dx%d", v.w, v.h, w, h)
	}
	for i := range v.cells {
		c := v.cells[i]
		if c.r == 0 {
			c.r = ' '
		}
		r := rs[i]
		if r == 0 {
			r = ' '
		}
		if want := attrOf(as[i]); i != but && (c.r != r || c.a != want) {
			return fmt.Sprintf("cell @%d,%d shows %q %v, want %q %v", i%w+1, i/w+1, c.r, c.a, r, want)
		}
	}
	return ""
}

// abort ends a torn rune or sequence, as the escape that starts the next
// sequence does.
func (v *vt) abort() {
	if len(v.partial) > 0 {
		v.partial = v.partial[:0]
		v.char(utf8.RuneError)
	}
	v.state = vtGround
}
