package main

import (
	"bytes"
	"fmt"
	"unicode/utf8"
)

// The reference grammar of terminal input, written from the ECMA-48/VT
// structure of control sequences and the documentation of ansi.Escape, over
// raw bytes.

type inEvent struct {
	id  rune
	arg string
}

func (e inEvent) String() string {
	if e.arg != "" {
		return fmt.Sprintf("%#x(%q)", e.id, e.arg)
	}
	if e.id >= 0x20 && e.id < 0x7f {
		return fmt.Sprintf("%q", e.id)
	}
	return fmt.Sprintf("%#x", e.id)
}

func showEvents(es []inEvent) string {
	var b bytes.Buffer
	for i, e := range es {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(e.String())
	}
	return b.String()
}

// silent stands for input that is consumed without an event.
var silent = inEvent{-1, ""}

type inStep struct {
	ev inEvent
	n  int
}

const (
	stDone  = iota // one definite event
	stWait         // nothing may be handed out
	stMaybe        // the event may be handed out, or held back
	stEmpty
	stBad // outside of the grammar: nothing is claimed
)

// inParse says what decoding must do at the start of b.
func inParse(b []byte, eof bool) (st int, step inStep, alt inStep) {
	one := func(id rune, n int) (int, inStep, inStep) {
		return stDone, inStep{inEvent{id, ""}, n}, inStep{}
	}
	incomplete := func() (int, inStep, inStep) {
		// an unfinished sequence: at end of file its bytes are handed out
		if !eof {
			return stWait, inStep{}, inStep{}
		}
		if b[0] == 0x1b {
			// as ESC, or as the control that ESC and the next byte denote
			c := rune(0x80 | b[1]&0x1f)
			return stDone, inStep{inEvent{c, ""}, 2}, inStep{inEvent{0x1b, ""}, 1}
		}
		r, n := utf8.DecodeRune(b)
		return one(r, n)
	}
	if len(b) == 0 {
		return stEmpty, inStep{}, inStep{}
	}
	c1, m := rune(0), 0
	if b[0] == 0x1b {
		esc := func() (int, inStep, inStep) {
			if eof {
				return one(0x1b, 1)
			}
			return stMaybe, inStep{inEvent{0x1b, ""}, 1}, inStep{}
		}
		if len(b) == 1 {
			return esc()
		}
		switch c := b[1]; {
		case c == 0x1b:
			return one(0x1b, 1)
		case 0x40 <= c && c <= 0x5f:
			c1, m = rune(0x80|c&0x1f), 2
		case 0x20 <= c && c <= 0x2f:
			i := 1
			for i < len(b) && 0x20 <= b[i] && b[i] <= 0x2f {
				i++
			}
			if i == len(b) {
				return esc()
			}
			if b[i] == 0x18 { // CAN
				return stDone, inStep{silent, i + 1}, inStep{}
			}
			if b[i] < 0x30 || b[i] > 0x7e {
				return stBad, inStep{}, inStep{}
			}
			if i == 2 {
				return stDone, inStep{inEvent{0xEF00 | rune(b[1]), string(b[2:3])}, 3}, inStep{}
			}
			return stDone, inStep{inEvent{0xEF00 | rune(b[i]), string(b[1:i])}, i + 1}, inStep{}
		case c == 0x18: // CAN
			return stDone, inStep{silent, 2}, inStep{}
		case 0x30 <= c && c <= 0x7e:
			return one(0xEF00|rune(c), 2)
		default:
			return stBad, inStep{}, inStep{}
		}
	} else {
		if !utf8.FullRune(b) {
			if eof {
				return one(utf8.RuneError, 1)
			}
			return stWait, inStep{}, inStep{}
		}
		r, n := utf8.DecodeRune(b)
		if r < 0x80 || r > 0x9f {
			return one(r, n)
		}
		c1, m = r, n
	}
	switch c1 {
	case 0x9b: // CSI
		i := m
		for i < len(b) && 0x30 <= b[i] && b[i] <= 0x3f {
			i++
		}
		for i < len(b) && 0x20 <= b[i] && b[i] <= 0x2f {
			i++
		}
		if i == len(b) {
			return incomplete()
		}
		if b[i] < 0x40 || b[i] > 0x7e {
			return stBad, inStep{}, inStep{}
		}
		return stDone, inStep{inEvent{0xEF80 | rune(b[i]), string(b[m:i])}, i + 1}, inStep{}
	case 0x90, 0x9d, 0x9e, 0x9f: // DCS OSC PM APC
		for i := m; i < len(b); i++ {
			if b[i] == 0x1b && i+1 < len(b) && b[i+1] == '\\' {
				return stDone, inStep{inEvent{c1, string(b[m:i])}, i + 2}, inStep{}
			}
			if b[i] == 0xc2 && i+1 < len(b) && b[i+1] == 0x9c {
				return stDone, inStep{inEvent{c1, string(b[m:i])}, i + 2}, inStep{}
			}
		}
		return incomplete()
	}
	return one(c1, m)
}

// genText draws printable content for control strings.
func (r *R) genText(max int) []byte {
	n := r.Choose(max + 1)
	var b []byte
	for len(b) < n {
		b = append(b, r.genPrintable()...)
	}
	return b
}

var someRunes = []rune{'a', 'é', 'ß', '☺', '世', '€', 0x1F600, 0x10FFFF, 0x7ff, 0x800, 0xFFFD, 0xD7FF, 0xE000, 0xA0, 0xFEFF}

func (r *R) genPrintable() []byte {
	switch r.Pick(8, 3) {
	case 0:
		return []byte{byte('a' + r.Choose(26))}
	default:
		return []byte(string(someRunes[r.Choose(len(someRunes))]))
	}
}

// genToken draws one well-formed unit of terminal input.
func (r *R) genToken() []byte {
	c1 := func(c byte) []byte {
		if r.Pick(5, 1) == 1 {
			return []byte(string(rune(c)))
		}
		return []byte{0x1b, 0x40 | c&0x1f}
	}
	switch r.Pick(6, 4, 5, 3, 2, 1, 2, 2, 1, 1) {
	case 0:
		return []byte{byte(0x20 + r.Choose(95))}
	case 1:
		return []byte(string(someRunes[r.Choose(len(someRunes))]))
	case 2: // CSI
		b := c1(0x9b)
		for n := r.Choose(6); n > 0; n-- {
			b = append(b, "0123456789;:<=>?"[r.Choose(16)])
		}
		if r.Pick(4, 1) == 1 {
			for n := 1 + r.Choose(2); n > 0; n-- {
				b = append(b, byte(0x20+r.Choose(16)))
			}
		}
		return append(b, byte(0x40+r.Choose(63)))
	case 3: // string
		max := []int{8, 40, 300}[r.Pick(5, 3, 1)]
		b := append(c1([]byte{0x90, 0x9d, 0x9e, 0x9f}[r.Choose(4)]), r.genText(max)...)
		return append(b, c1(0x9c)...)
	case 4: // C0 (not ESC, not CAN or SUB, which cancel)
		c := []byte{'\r', '\n', '\t', 1, 3, 8, 7, 0, 0x1f, 0x7f, 0x11}
		return []byte{c[r.Choose(len(c))]}
	case 5: // C1
		c := byte(0x80 + r.Choose(32))
		switch c {
		case 0x90, 0x9b, 0x9d, 0x9e, 0x9f:
			c = 0x85
		}
		return c1(c)
	case 6: // ESC + final
		return []byte{0x1b, "0123456789:;<=>?`abcdefghijklmnopqrstuvwxyz{|}~"[r.Choose(47)]}
	case 7: // ESC + intermediates + final
		b := []byte{0x1b}
		for n := 1 + r.Pick(4, 1, 1); n > 0; n-- {
			b = append(b, byte(0x20+r.Choose(16)))
		}
		return append(b, byte(0x30+r.Choose(79)))
	case 8: // a cancelled sequence
		b := []byte{0x1b}
		for n := r.Choose(3); n > 0; n-- {
			b = append(b, byte(0x20+r.Choose(16)))
		}
		return append(b, 0x18)
	default: // the Escape key
		return []byte{0x1b}
	}
}

// genStream draws a stream of tokens, taking care that what follows an Escape
// key press is in the grammar.
func (r *R) genStream(n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		t := r.genToken()
		if len(b) > 0 && endsInEsc(b) {
			if c := t[0]; c < 0x20 && c != 0x1b || c >= 0x7f {
				continue
			}
			// an ESC and intermediates must be followed by a final byte
			if t[0] >= 0x20 && t[0] <= 0x2f {
				continue
			}
			// and must not open a longer sequence
			if bytes.IndexByte([]byte("P[]^_"), t[0]) >= 0 {
				continue
			}
		}
		b = append(b, t...)
	}
	return b
}

// endsInEsc reports whether the last token of b is a lone ESC; tokens are
// never empty and a lone ESC is the only one ending in ESC.
func endsInEsc(b []byte) bool { return b[len(b)-1] == 0x1b }

// inChecker follows the events of an Input.
type inChecker struct {
	r       *R
	pending []byte
	full    bool // the last read ended because the buffer was full
	eof     bool
	held    int
	events  int
}

// skip passes over cancelled sequences, which give no event.
func (c *inChecker) skip() {
	for {
		st, step, _ := inParse(c.pending, c.eof)
		if st != stDone || step.ev != silent {
			return
		}
		c.pending = c.pending[step.n:]
	}
}

// got checks one event handed out.
func (c *inChecker) got(ev inEvent) {
	c.skip()
	st, step, alt := inParse(c.pending, c.eof)
	switch st {
	case stBad:
		c.r.S.Trouble = fmt.Sprintf("generator left the grammar: %q", c.pending)
		c.r.Fail("trouble", "")
	case stEmpty:
		c.r.Fail("invented", "event %v handed out with no undecoded input", ev)
	case stWait:
		c.r.Fail("early", "event %v handed out of the incomplete %q", ev, c.pending)
	case stMaybe:
		if c.full {
			c.r.Fail("split-by-full-buffer", "event %v handed out of %q although only the read buffer was full", ev, c.pending)
		}
		fallthrough
	default:
		if ev == step.ev {
			c.pending = c.pending[step.n:]
		} else if alt.n > 0 && ev == alt.ev {
			c.pending = c.pending[alt.n:]
		} else {
			c.r.Fail("wrong-event", "decoded %v, want %v from %q", ev, step.ev, clipBytes(c.pending))
		}
	}
	c.events++
}

// drained checks that nothing more had to be handed out.
func (c *inChecker) drained() {
	c.skip()
	st, step, _ := inParse(c.pending, c.eof)
	switch st {
	case stDone:
		c.r.Fail("held-back", "decoding stopped before %v; input left %q (end of file: %v)", step.ev, clipBytes(c.pending), c.eof)
	case stBad:
		c.r.S.Trouble = fmt.Sprintf("generator left the grammar: %q", c.pending)
		c.r.Fail("trouble", "")
	case stWait, stMaybe:
		c.held++
		c.r.S.Probe("held-incomplete")
	}
}

func clipBytes(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}
