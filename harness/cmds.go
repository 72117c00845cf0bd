package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/jcorbin/anansi/ansi"
	zzdecode "github.com/jcorbin/anansi/cmd/decode"
	zzto24bit "github.com/jcorbin/anansi/cmd/to24bit"
	"github.com/jcorbin/anansi/terminfo"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C17", Quick: 250000, Thorough: 20000000, MaxSteps: 3000000,
		Rule: "each run draws an input stream, how it arrives (file or pipe, in pieces, short reads, delays), read and write faults and short writes; non-trivial if a read boundary fell inside a rune or sequence, or a fault was met",
		Real: []string{"cmd/to24bit (its main function)", "ansi.DecodeEscape, DecodeSGR, SGRColor.To24Bit, Escape.AppendWith"}, Stub: kernelStub, Fn: scenC17,
	})
	register(&Scenario{
		ID: "C18", Quick: 250000, Thorough: 20000000, MaxSteps: 3000000,
		Rule: "each run draws an input stream, how it arrives (file or pipe, in pieces, short reads, delays), whether sequences are stripped, read and write faults and short writes; non-trivial if a read boundary fell inside a rune or sequence, or a fault was met",
		Real: []string{"cmd/decode (its main function, non-interactively)", "anansi.MustRun", "ansi.DecodeEscape"}, Stub: kernelStub, Fn: scenC18,
	})
	register(&Scenario{
		ID: "C19", Quick: 120000, Thorough: 20000000, MaxSteps: 200000,
		Rule: "each run draws a search path, database files (good, truncated, damaged), how reads are split, read and open faults, and a history of loads and file changes; non-trivial if a file was read under a fault or after one",
		Real: []string{"terminfo.Load, SearchPath, Terminfo.ReadFrom, GetBuiltin"}, Stub: kernelStub, Fn: scenC19,
	})
}

var longRE = regexp.MustCompile(`\x1b[]PX^_][a-z]{300,}`)

// filter runs a command that copies its standard input to its standard output.
type filter struct {
	r        *R
	stream   []byte
	out      func() []byte
	readErr  bool // a read failed
	writeErr bool // a write failed
	readN    int  // bytes read
	cut      bool // a read ended inside of a rune or sequence
	eof      bool // end of input was read
	failed   bool // the command failed
}

// splits tells which offsets are inside of a rune or sequence of b.
func splits(b []byte) []bool {
	in := make([]bool, len(b)+1)
	for i := 0; i < len(b); {
		st, step, _ := inParse(b[i:], true)
		if st != stDone || step.n <= 0 {
			break
		}
		for k := 1; k < step.n; k++ {
			in[i+k] = true
		}
		i += step.n
	}
	return in
}

func (r *R) runFilter(main func(), stream []byte, args ...string) *filter {
	f := &filter{r: r, stream: stream}
	readPct := []int{0, 10}[r.Pick(5, 1)]
	writePct := []int{0, 30}[r.Pick(5, 1)]
	shortPct := []int{0, 40}[r.Pick(3, 1)]
	feedDelay := int64(0)
	var inPipe, outPipe *sim.Pipe
	if r.Pct(40) {
		in := r.K.MkFile("/in", stream)
		if r.Pct(70) {
			in.MaxRead = []int{1, 3, 20, 4000}[r.Choose(4)]
		}
		o := r.K.NewOFD("/in", in, syscall.O_RDONLY)
		r.K.Install(0, o)
	} else {
		p, rd, _ := r.K.NewPipe("in")
		inPipe = p
		r.K.Install(0, rd)
		if r.Pct(30) {
			p.MaxRead = []int{1, 3, 20}[r.Choose(3)]
		}
		feedDelay = []int64{0, 1e6, 300e6}[r.Choose(3)]
	}
	if r.Pct(60) {
		o := r.K.MkFile("/out", nil)
		r.K.Install(1, r.K.NewOFD("/out", o, syscall.O_WRONLY))
		f.out = func() []byte { return o.Data }
		if r.Pct(10) {
			r.K.Space = int64(r.Choose(len(stream) + 50))
		}
	} else {
		p, _, wr := r.K.NewPipe("out")
		outPipe = p
		p.Cap = []int{65536, 100, 5000}[r.Choose(3)]
		r.K.Install(1, wr)
		f.out = func() []byte { return p.Total }
	}
	r.K.Install(2, r.K.NewOFD("null", sim.Null{}, syscall.O_WRONLY))
	in, out := r.K.Lookup(0), r.K.Lookup(1)
	inside := splits(stream)
	// long sequences are decoded anew after each read
	long := 0
	for _, m := range longRE.FindAll(stream, -1) {
		long = max(long, len(m))
	}
	if least := long / 20; inPipe != nil && inPipe.MaxRead > 0 {
		inPipe.MaxRead = max(inPipe.MaxRead, least)
	} else if in := in.InodeOf(); in != nil && in.MaxRead > 0 {
		in.MaxRead = max(in.MaxRead, least)
	}
	r.K.OnOp = func(op *sim.Op) {
		switch {
		case op.OFD == in && op.Kind == "read" && readPct > 0 && r.Pct(readPct):
			op.Err = []syscall.Errno{syscall.EIO, syscall.EISDIR, syscall.ENXIO}[r.Choose(3)]
		case op.OFD == out && op.Kind == "write" && writePct > 0 && r.Pct(writePct):
			op.Err = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EPIPE}[r.Choose(3)]
			if op.Len > 1 && r.Pct(50) {
				op.Limit = 1 + r.Choose(op.Len-1)
			}
		case op.OFD == out && op.Kind == "write" && shortPct > 0 && op.Len > 1 && r.Pct(shortPct):
			op.Limit = 1 + r.Choose(op.Len-1)
		}
	}
	r.K.Observe = func(op *sim.Op) {
		switch {
		case op.OFD == in && op.Kind == "read":
			if op.Res != 0 {
				f.readErr = true
			} else if f.readN += op.N; op.N == 0 {
				f.eof = true
			} else if inside[f.readN] {
				f.cut = true
				r.S.Probe("cut-inside")
			}
		case op.OFD == out && op.Kind == "write":
			if op.Res != 0 {
				f.writeErr = true
			}
		}
	}
	r.Descf("%d bytes, args %q, read faults %d%%, write faults %d%%, short writes %d%%", len(stream), args, readPct, writePct, shortPct)
	if inPipe != nil {
		r.S.Spawn("producer", nil, func() {
			for b := stream; len(b) > 0; {
				n := len(b)
				if r.Pct(70) {
					n = 1 + r.Choose(len(b))
					if long >= 1000 {
						n = max(n, min(len(b), long/10))
					}
				} else if n > 7 && long < 1000 && r.Pct(50) {
					n = 1 + r.Choose(7)
				}
				inPipe.Put(r.K, b[:n])
				b = b[n:]
				if feedDelay > 0 {
					r.S.Sleep(int64(r.Choose(int(feedDelay))))
				} else {
					sim.Point()
				}
			}
			inPipe.CloseWrite()
		})
	}
	if outPipe != nil {
		r.S.Spawn("consumer", nil, func() {
			for {
				r.S.WaitUntil("output", 1000e9, func() bool { return len(outPipe.Buffered()) > 0 })
				outPipe.Take(1 + r.Choose(2000))
				if r.Pct(10) {
					r.S.Sleep(1e6)
				}
			}
		})
	}
	simos.Args = append([]string{"filter"}, args...)
	returned := false
	t := r.prog("filter", 3000e9, func() {
		main()
		returned = true
	})
	if !t.Done() {
		r.Fail("stuck", "the command did not end; it read %d of %d bytes; tasks:\n%s", f.readN, len(stream), r.S.Dump())
	}
	p := r.K.Prog
	if p.KilledBy != "" && !(p.KilledBy == "SIGPIPE" && f.writeErr) {
		r.Fail("crash", "the command was killed by %s", p.KilledBy)
	}
	f.failed = p.Exited && p.ExitCode != 0 || p.KilledBy != ""
	if !returned && !p.Exited && p.KilledBy == "" {
		r.Fail("crash", "the command ended without an exit status")
	}
	if (f.readErr || f.writeErr) && !f.failed {
		r.Fail("silent-success", "the command succeeded although a read (%v) or write (%v) failed", f.readErr, f.writeErr)
	}
	if f.failed && !f.readErr && !f.writeErr {
		r.Fail("false-failure", "the command failed with status %d although nothing failed", p.ExitCode)
	}
	if !f.failed && f.readN != len(stream) {
		r.Fail("unread", "the command succeeded having read %d of %d bytes", f.readN, len(stream))
	}
	r.Trivial = !f.cut && !f.readErr && !f.writeErr
	return f
}

// genFiltered draws an input stream for a filter.
func (r *R) genFiltered() []byte {
	var b []byte
	n := []int{3, 12, 60, 300}[r.Pick(30, 40, 20, 2)]
	n = 1 + r.Choose(n)
	lone := false
	for i := 0; i < n; i++ {
		var t []byte
		switch r.Pick(100, 80, 2, 1) {
		case 0:
			t = r.genToken()
		case 1:
			t = r.genSGR()
		case 2:
			t = bytes.Repeat([]byte{byte('a' + r.Choose(26))}, 1+r.Choose([]int{100, 5000}[r.Pick(3, 1)]))
		case 3:
			t = append([]byte{0x1b, "]PX^_"[r.Choose(5)]}, bytes.Repeat([]byte{byte('a' + r.Choose(26))}, 1+r.Choose([]int{2000, 9000}[r.Pick(3, 1)]))...)
			t = append(t, "\x1b\\"...)
		}
		if lone {
			// only what stays a sequence of its own may follow a lone ESC
			st, step, _ := inParse(t, true)
			if t[0] != 0x1b || st != stDone || step.ev.id < 0xEF00 {
				b = append(b, "\x1b[m"...)
			}
		}
		b = append(b, t...)
		lone = endsInEsc(b)
	}
	if r.Pct(20) {
		c := b[:r.Choose(len(b))+1]
		_, rest := r.filterEvents(c, false)
		if n := len(c) - len(rest); n == 0 || c[n-1] != 0x1b {
			b = c
		}
	}
	return b
}

// genSGR draws an attribute sequence.
func (r *R) genSGR() []byte {
	a := r.genAttr() &^ ansi.SGRAttrConceal
	if r.Pct(25) {
		a |= ansi.SGRAttrClear
	}
	b := ansi.SGR.AppendWith(nil)
	if a != 0 {
		b = a.AppendTo(nil)
	}
	if r.Pct(20) && bytes.HasPrefix(b, []byte("\x1b[")) {
		b = append([]byte("\u009b"), b[2:]...)
	}
	if r.Pct(10) {
		b = []byte("\x1b[" + []string{"38;5;300", "99", "38;2;1", "1;x"}[r.Choose(4)] + "m")
	}
	return b
}

// events parses all of b.
func (r *R) filterEvents(b []byte, eof bool) (es []inEvent, rest []byte) {
	for len(b) > 0 {
		st, step, _ := inParse(b, eof)
		if st == stBad {
			return es, b
		}
		if st != stDone {
			break
		}
		if step.ev != silent {
			es = append(es, step.ev)
		}
		b = b[step.n:]
	}
	return es, b
}

const evSGR = 0xEF80 | 'm'

// converted reports whether out is the 24-bit form of the sequence in.
func converted(in, out inEvent) (bool, string) {
	if in.id != evSGR {
		return in == out, in.String()
	}
	attr, _, err := ansi.DecodeSGR([]byte(in.arg))
	if err != nil {
		return in == out, in.String()
	}
	want := attr
	if c, has := attr.FG(); has {
		want = want.SansFG() | c.To24Bit().FG()
	}
	if c, has := attr.BG(); has {
		want = want.SansBG() | c.To24Bit().BG()
	}
	if want == attr {
		return in == out, in.String()
	}
	if out.id != evSGR {
		return false, want.String()
	}
	got, _, err := ansi.DecodeSGR([]byte(out.arg))
	return err == nil && got == want, want.String()
}

func scenC17(r *R) {
	r.schedConfig()
	stream := r.genFiltered()
	want, bad := r.filterEvents(stream, true)
	if len(bad) > 0 {
		r.S.Trouble = fmt.Sprintf("generator left the grammar: %q", clipBytes(bad))
		r.Fail("trouble", "")
	}
	f := r.runFilter(zzto24bit.SimMain, stream)
	out := f.out()
	got, rest := r.filterEvents(out, !f.failed)
	for i, e := range got {
		if i >= len(want) {
			r.Fail("invented", "output has %v after everything, %q", e, tail(out, 100))
		}
		if ok, w := converted(want[i], e); !ok {
			r.Fail("wrong-output", "output %d is %v, want %v, of input %v; output ends %q", i, e, w, want[i], tail(out, 100))
		}
	}
	if st, _, _ := inParse(rest, true); st == stBad {
		r.Fail("wrong-output", "output after %d has the malformed %q", len(got), clipBytes(rest))
	}
	if f.failed && !f.writeErr {
		// what was read before an error was met comes out still
		sure, _ := r.filterEvents(stream[:f.readN], false)
		if got, _ := r.filterEvents(out, true); len(got) < len(sure) {
			r.Fail("lost", "output after a read error ends before %v, number %d of the %d read: %q", want[len(got)], len(got), len(sure), tail(out, 100))
		}
	}
	if !f.failed && len(got) < len(want) {
		r.Fail("lost", "output ends before %v, number %d of %d: %q", want[len(got)], len(got), len(want), tail(out, 100))
	}
}

func scenC18(r *R) {
	r.schedConfig()
	stream := r.genFiltered()
	var args []string
	strip := r.Pct(40)
	if strip {
		args = []string{"-strip"}
	}
	// the decoding of the whole, as documented
	var want []byte
	var at []int   // for each byte of want, where the input it's due to ends
	var opt []byte // may follow: an ESC, or part of a rune, at the very end
	for b := stream; len(b) > 0; {
		st, step, _ := inParse(b, false)
		if st == stBad {
			r.S.Trouble = fmt.Sprintf("generator left the grammar: %q", clipBytes(b))
			r.Fail("trouble", "")
		}
		if st == stWait || st == stMaybe {
			if !utf8.FullRune(b) {
				opt = bytes.Repeat([]byte("\ufffd"), len(b))
			} else if st == stMaybe {
				opt = b
			}
			break
		}
		switch e := step.ev; {
		case e == silent:
		case e.id >= 0xEF00 && e.id <= 0xEFFF || e.id >= 0x80 && e.id <= 0x9f && bytes.IndexRune([]byte("\u0090\u009d\u009e\u009f"), e.id) >= 0:
			if strip {
				break
			}
			switch {
			case e.id == evSGR:
				if attr, _, err := ansi.DecodeSGR([]byte(e.arg)); err != nil {
					want = append(want, fmt.Sprintf("[ansi:SGR ERR:%v %q]", err, e.arg)...)
				} else {
					want = append(want, fmt.Sprintf("[ansi:SGR %v]", attr)...)
				}
			case e.arg != "":
				want = append(want, fmt.Sprintf("[ansi:%v %q]", ansi.Escape(e.id), e.arg)...)
			default:
				want = append(want, fmt.Sprintf("[ansi:%v]", ansi.Escape(e.id))...)
			}
		default:
			want = append(want, string(e.id)...)
		}
		b = b[step.n:]
		for len(at) < len(want) {
			at = append(at, len(stream)-len(b))
		}
	}
	f := r.runFilter(zzdecode.SimMain, stream, args...)
	out := f.out()
	n := 0
	for n < len(out) && n < len(want) && out[n] == want[n] {
		n++
	}
	if n < len(want) && n < len(out) || n == len(want) && !bytes.HasPrefix(opt, out[n:]) {
		r.Fail("wrong-output", "output at %d is %q, want %q", n, clipBytes(out[n:]), clipBytes(want[n:]))
	}
	_, held := r.filterEvents(stream[:f.readN], false) // may be held back
	if f.failed && !f.writeErr && n < len(want) && at[n] <= f.readN-len(held) {
		r.Fail("lost", "output after a read error, with %d bytes read, ends before %q", f.readN, clipBytes(want[n:]))
	}
	if !f.failed && n < len(want) {
		r.Fail("lost", "output ends before %q", clipBytes(want[n:]))
	}
}

// ---- C19

// tiFile is a terminfo database file.
type tiFile struct {
	keys  map[int]string // string capabilities by their number
	data  []byte
	valid bool
}

// numbers of the string capabilities, from terminfo(5)
var tiKeyNums = map[terminfo.KeyCode]int{
	terminfo.KeyF1: 66, terminfo.KeyF2: 68, terminfo.KeyF3: 69, terminfo.KeyF4: 70, terminfo.KeyF5: 71, terminfo.KeyF6: 72,
	terminfo.KeyF7: 73, terminfo.KeyF8: 74, terminfo.KeyF9: 75, terminfo.KeyF10: 67, terminfo.KeyF11: 216, terminfo.KeyF12: 217,
	terminfo.KeyInsert: 77, terminfo.KeyDelete: 59, terminfo.KeyHome: 76, terminfo.KeyEnd: 164, terminfo.KeyPageUp: 82, terminfo.KeyPageDown: 81,
	terminfo.KeyUp: 87, terminfo.KeyDown: 61, terminfo.KeyLeft: 79, terminfo.KeyRight: 83,
}

var tiFuncNums = map[terminfo.FuncCode]int{
	terminfo.FuncEnterCA: 28, terminfo.FuncExitCA: 40, terminfo.FuncShowCursor: 16, terminfo.FuncHideCursor: 13, terminfo.FuncClearScreen: 5,
	terminfo.FuncSGR0: 39, terminfo.FuncUnderline: 36, terminfo.FuncBold: 27, terminfo.FuncBlink: 26, terminfo.FuncReverse: 34,
	terminfo.FuncEnterKeypad: 89, terminfo.FuncExitKeypad: 88,
}

func le16(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8)) }

// genTI draws a database file.
func (r *R) genTI() *tiFile {
	f := &tiFile{keys: make(map[int]string), valid: true}
	names := "xterm|a terminal"[:1+r.Choose(15)] + "\x00"
	bools := r.Choose(44)
	nums := r.Choose(40)
	ns := []int{0, 1 + r.Choose(216), 217, 218, 400}[r.Pick(1, 2, 1, 3, 2)]
	table := []byte{}
	var offs []int
	for i := 0; i < ns; i++ {
		switch {
		case r.Pct(40):
			offs = append(offs, []int{-1, -2}[r.Choose(2)])
		case len(f.keys) > 0 && r.Pct(5): // shares a string
			o := 0
			if len(offs) > 0 {
				o = offs[r.Choose(len(offs))]
			}
			if o < 0 {
				o = 0
			}
			s := table[o:]
			f.keys[i] = string(s[:bytes.IndexByte(s, 0)])
			offs = append(offs, o)
		default:
			s := fmt.Sprintf("\x1b[%d~", i)
			if r.Pct(10) {
				s = ""
			} else if r.Pct(20) {
				s += strings.Repeat("x", r.Choose(20))
			}
			f.keys[i] = s
			offs = append(offs, len(table))
			table = append(append(table, s...), 0)
		}
	}
	needed := func(i int) bool {
		for _, n := range tiKeyNums {
			if n == i {
				return true
			}
		}
		for _, n := range tiFuncNums {
			if n == i {
				return true
			}
		}
		return false
	}
	bad := r.Pick(6, 1, 1, 1, 1)
	if bad == 1 && ns > 0 { // an offset out of the table
		if i := r.Choose(ns); needed(i) {
			offs[i] = len(table) + r.Choose(50)
			f.valid = false
		}
	}
	magic, size := 0432, len(table)
	if bad == 2 {
		magic = []int{0, 0433, 01036, 0x1a01}[r.Choose(4)]
		f.valid = false
	}
	if bad == 4 && len(table) > 0 && r.Pct(50) { // a string without an end
		last := -1
		for i, o := range offs {
			if o >= 0 && o+len(f.keys[i])+1 == len(table) && needed(i) {
				last = i
			}
		}
		if last >= 0 {
			size--
			f.valid = false
		}
	}
	var b []byte
	b = le16(b, magic)
	hdr := []int{len(names), bools, nums, ns, size}
	if bad == 3 && r.Pct(40) {
		hdr[r.Choose(5)] = -1 - r.Choose(100)
		f.valid = false
		bad = 0
	}
	for _, v := range hdr {
		b = le16(b, v)
	}
	b = append(b, names...)
	for i := 0; i < bools; i++ {
		b = append(b, byte(r.Choose(2)))
	}
	if (len(names)+bools)%2 != 0 {
		b = append(b, 0)
	}
	for i := 0; i < nums; i++ {
		b = le16(b, r.Choose(300)-1)
	}
	for _, o := range offs {
		b = le16(b, o)
	}
	b = append(b, table[:size]...)
	if bad == 3 { // truncated
		if n := r.Choose(len(b)); n < 12 || f.lastByte(offs, len(b)-size, len(table), needed) >= n {
			b = b[:n]
			f.valid = false
		}
	} else if r.Pct(20) { // extended capabilities follow
		b = append(b, bytes.Repeat([]byte{1, 2, 0}, r.Choose(30))...)
	}
	f.data = b
	return f
}

// lastByte returns the offset of the last byte of the file that matters.
func (f *tiFile) lastByte(offs []int, tab, tlen int, needed func(int) bool) int {
	last := 11
	for i, o := range offs {
		if needed(i) {
			if n := tab - 2*len(offs) + 2*i + 1; n > last {
				last = n
			}
			if o >= 0 && o < tlen {
				if n := tab + o + len(f.keys[i]); n > last {
					last = n
				}
			}
		}
	}
	return last
}

func (f *tiFile) check(r *R, ti *terminfo.Terminfo) {
	for k, i := range tiKeyNums {
		if got := ti.Keys[k]; got != f.keys[i] {
			r.Fail("wrong-key", "key %d (capability %d) is %q, want %q", k, i, got, f.keys[i])
		}
	}
	for k, i := range tiFuncNums {
		if got := ti.Funcs[k]; got != f.keys[i] {
			r.Fail("wrong-func", "function %d (capability %d) is %q, want %q", k, i, got, f.keys[i])
		}
	}
}

// tiMapNames are what FuncMap and KeyMap call things.
var tiFuncNames = map[string]terminfo.FuncCode{
	"EnterCA": terminfo.FuncEnterCA, "ExitCA": terminfo.FuncExitCA, "ShowCursor": terminfo.FuncShowCursor, "HideCursor": terminfo.FuncHideCursor,
	"ClearScreen": terminfo.FuncClearScreen, "SGR0": terminfo.FuncSGR0, "Underline": terminfo.FuncUnderline, "Bold": terminfo.FuncBold,
	"Blink": terminfo.FuncBlink, "Reverse": terminfo.FuncReverse, "EnterKeypad": terminfo.FuncEnterKeypad, "ExitKeypad": terminfo.FuncExitKeypad,
	"EnterMouse": terminfo.FuncEnterMouse, "ExitMouse": terminfo.FuncExitMouse,
}

var tiKeyNames = map[string]terminfo.KeyCode{
	"F1": terminfo.KeyF1, "F2": terminfo.KeyF2, "F3": terminfo.KeyF3, "F4": terminfo.KeyF4, "F5": terminfo.KeyF5, "F6": terminfo.KeyF6,
	"F7": terminfo.KeyF7, "F8": terminfo.KeyF8, "F9": terminfo.KeyF9, "F10": terminfo.KeyF10, "F11": terminfo.KeyF11, "F12": terminfo.KeyF12,
	"Insert": terminfo.KeyInsert, "Delete": terminfo.KeyDelete, "Home": terminfo.KeyHome, "End": terminfo.KeyEnd, "PageUp": terminfo.KeyPageUp,
	"PageDown": terminfo.KeyPageDown, "Up": terminfo.KeyUp, "Down": terminfo.KeyDown, "Left": terminfo.KeyLeft, "Right": terminfo.KeyRight,
}

// tiMaps checks the maps made of a terminfo.
func (r *R) tiMaps(ti *terminfo.Terminfo) {
	fm, km := ti.FuncMap(), ti.KeyMap()
	for n, c := range tiFuncNames {
		if got, ok := fm[n]; !ok || got != ti.Funcs[c] {
			r.Fail("map", "FuncMap has %q (%v) for %s, the function is %q", got, ok, n, ti.Funcs[c])
		}
	}
	for n, c := range tiKeyNames {
		if got, ok := km[n]; !ok || got != ti.Keys[c] {
			r.Fail("map", "KeyMap has %q (%v) for %s, the key is %q", got, ok, n, ti.Keys[c])
		}
	}
}

func scenC19(r *R) {
	r.schedConfig()
	home := "/home/u"
	r.K.Env["HOME"] = home
	var dirs []string
	switch r.Pick(3, 1, 2) {
	case 0:
		dirs = []string{home + "/.terminfo", "/usr/share/terminfo"}
	case 1:
		r.K.Env["TERMINFO"] = "/my/ti"
		dirs = []string{"/my/ti"}
		if r.Pct(50) {
			r.K.Env["TERMINFO_DIRS"] = "/not/searched:/dir9"
		}
	case 2:
		var ds []string
		dirs = []string{home + "/.terminfo"}
		def := false
		for i := r.Choose(3); i >= 0; i-- {
			if !def && r.Pct(30) {
				ds = append(ds, "")
				dirs = append(dirs, "/usr/share/terminfo")
				def = true
			} else {
				d := fmt.Sprintf("/dir%d", i)
				ds = append(ds, d)
				dirs = append(dirs, d)
			}
		}
		if len(ds) == 1 && ds[0] == "" { // TERMINFO_DIRS is as if unset
			dirs, def = dirs[:1], false
		}
		if !def {
			dirs = append(dirs, "/usr/share/terminfo")
		}
		r.K.Env["TERMINFO_DIRS"] = strings.Join(ds, ":")
	}
	if r.Pct(10) && dirs[0] == home+"/.terminfo" {
		r.K.Env["SIM_NO_USER"] = "1"
		dirs = dirs[1:]
	}
	names := []string{"xterm", "foo-term", "linux", "xterm-new", "q", "screen.x"}
	files := map[string]*tiFile{}
	paths := func(name string) (ps []string) {
		for _, d := range dirs {
			ps = append(ps, filepath.Join(d, name[:1], name), filepath.Join(d, hex.EncodeToString([]byte(name[:1])), name))
		}
		return ps
	}
	faultPct := []int{0, 5, 40}[r.Pick(2, 2, 1)]
	faults, opens, reads := 0, 0, 0
	faulted := map[string]bool{} // files whose reading or opening failed in this load
	r.K.OnOp = func(op *sim.Op) {
		switch op.Kind {
		case "open":
			opens++
		case "read":
			reads++
		default:
			return
		}
		if r.Pct(faultPct) {
			switch op.Kind {
			case "open":
				op.Err = []syscall.Errno{syscall.EMFILE, syscall.EACCES, syscall.EIO}[r.Choose(3)]
			case "read":
				op.Err = []syscall.Errno{syscall.EIO, syscall.EISDIR}[r.Choose(2)]
			}
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Injected() && op.Res != 0 {
			p := op.Path
			if op.OFD != nil {
				p = op.OFD.InodeOf().Path
			}
			faulted[p] = true
			faults++
		}
	}
	mk := func() {
		n := names[r.Choose(len(names))]
		ps := paths(n)
		p := ps[r.Choose(len(ps))]
		if r.Pct(20) { // where it must not be looked for
			d := []string{"/not/searched", home + "/.terminfo", "/usr/share/terminfo", "/dir9", home}[r.Choose(5)]
			p = filepath.Join(d, n[:1], n)
		}
		if files[p] != nil && r.Pct(40) {
			delete(files, p)
			delete(r.K.Disk, p)
			return
		}
		f := r.genTI()
		files[p] = f
		in := r.K.MkFile(p, f.data)
		in.MaxRead = []int{0, 1, 3, 17}[r.Choose(4)]
	}
	for i := 1 + r.Choose(5); i > 0; i-- {
		mk()
	}
	cached := map[string]*terminfo.Terminfo{}
	from := map[string]*tiFile{}
	damaged := 0
	n := 2 + r.Choose(12)
	r.Descf("search path %q, faults %d%%, %d steps", dirs, faultPct, n)
	t := r.prog("loader", 1000e9, func() {
		for ; n > 0; n-- {
			if r.Pct(25) {
				mk()
				continue
			}
			name := names[r.Choose(len(names))]
			if r.Pct(3) {
				name = ""
			}
			opens, reads = 0, 0
			faulted = map[string]bool{}
			ti, err := terminfo.Load(name)
			r.S.Tracef("Load(%q) = %p, %v", name, ti, err)
			if name == "" {
				if err == nil {
					r.Fail("empty", "Load of no name succeeded")
				}
				continue
			}
			if c := cached[name]; c != nil {
				if ti != c || err != nil {
					r.Fail("not-cached", "Load(%q) returned %p, %v, but %p before", name, ti, err, c)
				}
				if opens+reads > 0 {
					r.Fail("reread", "Load(%q) touched the database again", name)
				}
				from[name].check(r, ti)
				continue
			}
			var want *tiFile
			met, unread := false, false
			for _, p := range paths(name) {
				f := files[p]
				if f == nil && !faulted[p] {
					continue
				}
				if f != nil && f.valid && !faulted[p] {
					want = f
					break
				}
				met = met || f != nil
				unread = unread || f != nil && !f.valid && !faulted[p]
			}
			if met {
				damaged++
			}
			if want != nil {
				if err != nil || ti == nil {
					r.Fail("load-failed", "Load(%q) failed with %v although there is a readable file", name, err)
				}
				want.check(r, ti)
				r.tiMaps(ti)
				cached[name], from[name] = ti, want
				continue
			}
			bi, berr := terminfo.GetBuiltin(name)
			if berr != nil {
				if err == nil {
					r.Fail("no-error", "Load(%q) returned %v although nothing could be read", name, ti)
				}
				if unread && err.Error() == berr.Error() {
					r.Fail("wrong-error", "Load(%q) failed with %q although a file for it is damaged", name, err)
				}
				continue
			}
			if err != nil || ti != bi {
				r.Fail("not-builtin", "Load(%q) returned %p, %v although there is a builtin", name, ti, err)
			}
			r.tiMaps(ti)
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the program did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = damaged == 0 && faults == 0
}
