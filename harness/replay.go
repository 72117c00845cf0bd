package main

import (
	"bytes"
	"fmt"
	"io"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C11", Quick: 1200000, Thorough: 10000000, MaxSteps: 400000,
		Rule: "each run draws input (including bytes that look like recording marks), its timing and pieces, read errors and ends of file, ReadMore/ReadAny choices, messages written in between, recording file faults " +
			"(ENOSPC, EIO, short writes) and a crash point of the recording file, records with the real Input and replays with the real ReadInputReplay; non-trivial if several frames were recorded",
		Real: append([]string{"anansi.ReadInputReplay, InputFrame (input.go)"}, inputReal...), Stub: kernelStub, Fn: scenC11,
	})
}

// recEntry is something that was recorded.
type recEntry struct {
	t0, t1 int64
	clock  []int64 // the times that it read
	b      []byte
	e      string
	hasErr bool
	m      []byte
	end    int  // size of the recording after it
	opt    bool // may or may not have been recorded
}

func (e recEntry) String() string {
	if e.m != nil {
		return fmt.Sprintf("message %q", e.m)
	}
	s := fmt.Sprintf("read of %q between %d and %d", e.b, e.t0, e.t1)
	if e.hasErr {
		s += fmt.Sprintf(" with error %q", e.e)
	}
	return s
}

func showFrame(f anansi.InputFrame) string {
	if f.M != nil {
		return fmt.Sprintf("message frame %q (T %v, B %q, E %v)", f.M, f.T, f.B, f.E)
	}
	return fmt.Sprintf("frame of %q at %d, error %v", f.B, f.T.UnixNano(), f.E)
}

// frameIs tells how a replayed frame differs from what was recorded.
func frameIs(f anansi.InputFrame, e recEntry) string {
	switch {
	case e.m != nil:
		if !bytes.Equal(f.M, e.m) {
			return "the message differs"
		}
		if len(f.B) > 0 || f.E != nil {
			return "a message frame has input"
		}
		return ""
	case f.M != nil:
		return "it is a message"
	case !bytes.Equal(f.B, e.b):
		return "the bytes differ"
	case e.hasErr && f.E == nil:
		return "the error is missing"
	case !e.hasErr && f.E != nil:
		return "there was no error"
	case e.hasErr && f.E.Error() != e.e:
		return "the error text differs"
	case f.T.UnixNano() < e.t0 || f.T.UnixNano() > e.t1:
		return "the time is not that of the read"
	}
	if len(e.clock) > 0 {
		for _, c := range e.clock {
			if c == f.T.UnixNano() {
				return ""
			}
		}
		return "the time is not one that the clock has shown"
	}
	return ""
}

func emptyFrame(f anansi.InputFrame) bool { return len(f.B) == 0 && f.E == nil && len(f.M) == 0 }

// checkReplay compares frames with what was recorded up to size bytes.
func (r *R) checkReplay(frames anansi.InputReplay, log []recEntry, size int, what string) {
	i := 0
	var last int64
	for fi, f := range frames {
		if !f.T.IsZero() {
			if t := f.T.UnixNano(); t < last {
				r.Fail("order", "%s: %s is older than the frame before", what, showFrame(f))
			} else {
				last = t
			}
		}
		for i < len(log) && log[i].opt && frameIs(f, log[i]) != "" {
			i++
		}
		if i < len(log) && log[i].end <= size && frameIs(f, log[i]) == "" {
			i++
			continue
		}
		if emptyFrame(f) {
			continue // shows nothing
		}
		if i < len(log) && log[i].end > size {
			// the cut one
			e := log[i]
			if fi == len(frames)-1 && bytes.HasPrefix(e.b, f.B) && bytes.HasPrefix(e.m, f.M) && (f.E == nil || e.hasErr) {
				return
			}
			r.Fail("cut", "%s: %s comes after everything written before the cut; it is not the beginning of %v", what, showFrame(f), e)
		}
		if i >= len(log) {
			r.Fail("invented", "%s: %s was not recorded", what, showFrame(f))
		}
		r.Fail("replay", "%s: frame %d is %s, recorded was the %v: %s", what, fi, showFrame(f), log[i], frameIs(f, log[i]))
	}
	for ; i < len(log) && log[i].end <= size; i++ {
		if e := log[i]; !e.opt && (len(e.b) > 0 || e.hasErr || e.m != nil) {
			r.Fail("lost", "%s: the %v is not in the replay", what, e)
		}
	}
}

// readReplay replays recorded bytes.
func (r *R) readReplay(data []byte, errPct int) (frames anansi.InputReplay, err error, faulty bool) {
	in := r.K.MkFile("/replay", data)
	in.MaxRead = []int{0, 1, 3, 50}[r.Pick(4, 1, 1, 2)]
	if len(data) > 500 && in.MaxRead == 1 {
		in.MaxRead = 20
	}
	f, err := simos.Open("/replay")
	if err != nil {
		r.S.Trouble = "open failed"
		r.Fail("trouble", "")
	}
	ofd := r.K.Lookup(int(f.Fd()))
	prior := r.K.OnOp
	r.K.OnOp = func(op *sim.Op) {
		if op.OFD == ofd && op.Kind == "read" && errPct > 0 && r.Pct(errPct) {
			op.Err = syscall.EIO
			faulty = true
		}
	}
	frames, err = anansi.ReadInputReplay(f)
	r.K.OnOp = prior
	_ = f.Close()
	return frames, err, faulty
}

func (r *R) genRecBytes() []byte {
	tok := []string{"\x1b_recTime:2020-01-02T03:04:05Z\x1b\\", "\x1b_recTime:2020-01-02T03:04:05Z 3\x1b\\", "\x1b_recTime:", "\x1b_recReadErr:x\x1b\\", "\x1b_resize:3,4\x1b\\",
		"\x1b_", "\x1b\\", "\x1b", "\\", "_", "\x9f", "\xc2\x9f", "\xc2", "\xff", "\x00", "\x18", "é", "a", " ", "recTime:", "\x1b[A", "\n", "\x9c"}
	var b []byte
	for n := 1 + r.Choose(12); n > 0; n-- {
		b = append(b, tok[r.Choose(len(tok))]...)
	}
	return b
}

func scenC11(r *R) {
	r.schedConfig()
	src := r.newInSource()
	var stream []byte
	wellFormed := r.Pct(30)
	if wellFormed {
		stream = r.genStream(1 + r.Choose([]int{6, 30}[r.Pick(3, 1)]))
	} else {
		for n := 1 + r.Choose(4); n > 0; n-- {
			stream = append(stream, r.genRecBytes()...)
		}
	}
	src.setMaxRead([]int{0, 1, 3, 17}[r.Pick(3, 1, 2, 1)])
	minRead := []int{0, 1, 7, 33}[r.Pick(3, 1, 1, 1)]
	maxPiece := []int{1000, 1, 3, 20}[r.Pick(2, 1, 3, 3)]
	readErr := []int{0, 5, 20}[r.Pick(3, 2, 1)]
	midEOF := r.Pct(30)
	r.Descf("stream %q, pieces of up to %d bytes, MinReadSize %d, read errors %d%%", stream, maxPiece, minRead, readErr)
	r.feed(src, stream, maxPiece, []int{0, 20, 3000}[r.Pick(1, 3, 2)], midEOF)

	recFault := r.Pick(5, 1, 1, 1) // none, full disk, errors, short writes
	var rec *sim.OFD
	readFault, writeFault, writes := false, false, 0
	if recFault == 1 {
		r.K.Space = int64(r.Choose(400))
	}
	errnos := []syscall.Errno{syscall.EIO, syscall.ENXIO, syscall.EINVAL}
	lastLen, lastN := 0, 0
	var firstAt, lastAt int64 // of the reads of one call
	r.K.OnOp = func(op *sim.Op) {
		switch {
		case op.Kind == "read" && op.OFD == src.ofd:
			if firstAt == 0 {
				firstAt = r.S.Now()
			}
			if readErr > 0 && r.Pct(readErr) {
				op.Err = errnos[r.Choose(len(errnos))]
				readFault = true
			}
		case op.Kind == "write" && op.OFD == rec:
			if recFault == 2 && r.Pct(20) {
				op.Err = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[r.Choose(2)]
				if op.Len > 0 && r.Pct(50) {
					op.Limit = r.Choose(op.Len)
				}
			} else if recFault == 3 && r.Pct(50) && op.Len > 1 {
				op.Limit = 1 + r.Choose(op.Len-1)
			}
		}
	}
	r.K.Observe = func(op *sim.Op) {
		switch {
		case op.Kind == "read" && op.OFD == src.ofd:
			lastLen, lastN, lastAt = op.Len, op.N, r.S.Now()
		case op.Kind == "write" && op.OFD == rec:
			writes++
			if op.Res != 0 {
				writeFault = true
			}
		}
	}
	ck := &inChecker{r: r}
	var log []recEntry
	broken := false // the recording has had a fault
	t := r.prog("recorder", 600e9, func() {
		in := &anansi.Input{File: simos.Stdin, MinReadSize: minRead}
		var (
			f     *simos.File
			inode *sim.Inode
		)
		type segment struct {
			inode  *sim.Inode
			log    []recEntry
			broken bool
		}
		var segs []segment
		create := func() {
			path := fmt.Sprintf("/rec%d", len(segs))
			var err error
			if f, err = simos.Create(path); err != nil {
				r.Fail("create", "creating the recording failed: %v", err)
			}
			rec = r.K.Lookup(int(f.Fd()))
			if inode = r.K.Disk[path]; inode == nil {
				r.S.Trouble = "no inode"
				r.Fail("trouble", "")
			}
		}
		create()
		on := false
		toggle := func() {
			if on {
				in.SetRecording(nil)
			} else {
				in.SetRecording(f)
			}
			if on = !on; in.IsRecording(f) != on {
				r.Fail("is-recording", "IsRecording is %v, recording was set to %v", !on, on)
			}
		}
		if r.Pct(80) {
			toggle()
		}
		fed, errs := 0, 0
		for step := 0; ; step++ {
			if r.Pct(5) {
				toggle()
			}
			if on && (broken && r.Pct(30) || r.Pct(3)) { // go on in another file
				segs = append(segs, segment{inode, log, broken})
				log, broken = nil, false
				old := f
				if create(); r.Pct(50) {
					recFault = 0
					r.K.Space = -1
				}
				in.SetRecording(f)
				_ = old.Close()
				r.S.Probe("another recording")
			}
			if r.Pct(12) && !broken {
				m := []byte([]string{"hello", "resize:80,24", "", "x\ny", "rec"}[r.Choose(5)])
				_, err := fmt.Fprintf(f, "\x1b_%s\x1b\\", m)
				if err != nil {
					broken = true
				} else {
					log = append(log, recEntry{m: append([]byte{}, m...), end: len(inode.Data)})
				}
			}
			any := r.Choose(2) == 1
			readFault, writeFault, writes = false, false, 0
			wasEOF := in.AtEOF()
			firstAt, lastAt = 0, 0
			e := recEntry{t0: r.S.Now()}
			r.S.OnClock = func(ns int64) { e.clock = append(e.clock, ns) }
			var n int
			var err error
			if any {
				n, err = in.ReadAny()
			} else {
				n, err = in.ReadMore()
			}
			r.S.OnClock = nil
			e.t1 = r.S.Now()
			// ReadAny is recorded with the time it was called, ReadMore with
			// the time that its blocking read returned
			if any && firstAt > 0 {
				e.t1 = firstAt
			} else if !any && lastAt > 0 {
				e.t0 = lastAt
			}
			all := src.arrived()
			if n < 0 || fed+n != src.taken() {
				r.Fail("count", "read returned n=%d, but %d bytes were taken before and %d after", n, fed, src.taken())
			}
			if !on && writes > 0 {
				r.Fail("off", "%d writes to the recording while it is not set", writes)
			}
			e.b = append([]byte(nil), all[fed:fed+n]...)
			fed += n
			if writeFault {
				if err == nil {
					r.Fail("fault-lost", "recording failed, but the read returned %d, %v", n, err)
				}
				broken = true
			} else if err != nil && !readFault && err != io.EOF {
				r.Fail("error", "read without faults returned %v", err)
			}
			if readFault && (err == nil || err == io.EOF) {
				r.Fail("read-fault-lost", "reading failed, but the read returned %d, %v", n, err)
			}
			if on && !broken {
				if err != nil {
					e.e, e.hasErr = err.Error(), true
				}
				e.opt = n == 0 && (err == nil || wasEOF && err == io.EOF)
				e.end = len(inode.Data)
				log = append(log, e)
			}
			if wellFormed {
				ck.pending = append(ck.pending, e.b...)
				ck.eof = in.AtEOF()
				ck.full = !any && n > 0 && lastN == lastLen
			}
			for {
				e, a, ok := in.Decode()
				if !ok {
					break
				}
				if wellFormed {
					ck.got(inEvent{rune(e), string(a)})
				}
			}
			if wellFormed {
				ck.drained()
			}
			if fed == len(stream) && in.AtEOF() {
				break
			}
			if err != nil && err != io.EOF {
				if errs++; errs > 100 {
					readErr = 0
				}
			}
			if n == 0 {
				r.S.Sleep(int64(100+10*step) * 1000)
			}
		}
		r.K.OnOp, r.K.Observe = nil, nil
		if r.Pct(50) {
			in.SetRecording(nil)
		}
		_ = f.Close()

		r.Trivial = true
		for _, seg := range append(segs, segment{inode, log, broken}) {
			inode, log, broken := seg.inode, seg.log, seg.broken
			data := inode.Data
			size := len(data)
			if broken {
				// only what was written before the fault is checked
				if size = 0; len(log) > 0 {
					size = log[len(log)-1].end
				}
				if len(data) < size {
					r.Fail("truncated", "the recording has lost what was written")
				}
				data = data[:size]
			}
			frames, err, _ := r.readReplay(data, 0)
			if err != nil {
				r.Fail("unreadable", "the recording %q is not replayed: %v", data, err)
			}
			r.checkReplay(frames, log, size, "complete recording")
			var ts []time.Time
			for _, frm := range frames {
				if !frm.T.IsZero() {
					ts = append(ts, frm.T)
				}
			}
			if len(ts) > 0 {
				if d, want := frames.Duration(), ts[len(ts)-1].Sub(ts[0]); d != want {
					r.Fail("duration", "Duration of the replay is %v, want %v", d, want)
				}
			}
			r.Trivial = r.Trivial && len(frames) < 2
			for n := r.Choose(3); n > 0 && size > 0; n-- {
				r.S.Fault("crash.cut")
				cut := r.Choose(size + 1)
				frames, err, _ := r.readReplay(data[:cut], 0)
				if err != nil {
					r.Fail("unreadable-cut", "the recording cut to %d bytes, ending in %q, is not replayed: %v", cut, tail(data[:cut], 60), err)
				}
				r.checkReplay(frames, log, cut, fmt.Sprintf("recording cut at %d", cut))
			}
			if r.Pct(20) {
				_, err, faulty := r.readReplay(data, 30)
				if faulty != (err != nil) {
					r.Fail("replay-fault", "replay of a file with read errors (%v) returned %v", faulty, err)
				}
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the reader did not finish; tasks:\n%s", r.S.Dump())
	}
}

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}
