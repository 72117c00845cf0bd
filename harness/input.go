package main

import (
	"io"
	"os"
	"syscall"

	"github.com/jcorbin/anansi"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

var inputReal = []string{"anansi.Input (input.go)", "ansi decoding (decode.go, escape.go)"}
var kernelStub = []string{"kernel: file descriptors, tty, pipes, fcntl, ioctl, signals, disk", "Go runtime: scheduler, channels, locks, timers, clock", "packages os, os/signal, syscall, time, sync, log"}

func init() {
	register(&Scenario{
		ID: "C01", Quick: 1000000, Thorough: 20000000, MaxSteps: 400000,
		Rule: "each run draws a stream of input tokens (runes, C0/C1, ESC, CSI, string sequences), a fragmentation of it in time and size, read sizes, " +
			"ReadMore/ReadAny choices and end-of-file points, and runs the real Input against a simulated tty; non-trivial if some token was cut by a read boundary",
		Real: inputReal, Stub: kernelStub,
		Fn: scenC01,
	})
	register(&Scenario{
		ID: "C02", Quick: 1000000, Thorough: 20000000, MaxSteps: 400000,
		Rule: "each run draws arrival times of input, read errors, fcntl errors, ends of file, initial descriptor flags and a program of ReadMore/ReadAny/Enter/Exit/Notify calls; " +
			"non-trivial if a read blocked, hit a fault, or met would-block",
		Real: inputReal, Stub: kernelStub,
		Fn: scenC02,
	})
}

// inSource is where the input comes from: a tty or a pipe.
type inSource struct {
	tty  *sim.TTY
	pipe *sim.Pipe
	r    *R
	ofd  *sim.OFD
}

func (r *R) newInSource() *inSource {
	src := &inSource{r: r}
	if r.Pick(3, 1) == 0 {
		t, o := r.stdTTY(80, 24)
		t.Termios.Lflag &^= syscall.ICANON
		src.tty, src.ofd = t, o
	} else {
		p, rd, _ := r.K.NewPipe("pipe")
		r.K.Install(0, rd)
		r.K.Install(1, r.K.NewOFD("null", sim.Null{}, syscall.O_WRONLY))
		src.pipe, src.ofd = p, rd
	}
	return src
}

func (src *inSource) put(b []byte) {
	if src.tty != nil {
		src.tty.Type(b)
	} else {
		src.pipe.Put(src.r.K, b)
	}
}

func (src *inSource) end() {
	if src.tty != nil {
		src.tty.EndInput()
	} else {
		src.pipe.CloseWrite()
		src.r.S.Tracef("end of input")
	}
}

func (src *inSource) setMaxRead(n int) {
	if src.tty != nil {
		src.tty.MaxRead = n
	} else {
		src.pipe.MaxRead = n
	}
}

func (src *inSource) arrived() []byte {
	if src.tty != nil {
		return src.tty.Arrived
	}
	return src.pipe.Total
}

func (src *inSource) taken() int {
	if src.tty != nil {
		return src.tty.Taken()
	}
	return src.pipe.Taken
}

func (src *inSource) pendingNow() int {
	if src.tty != nil {
		return src.tty.PendingNow()
	}
	return len(src.pipe.Buffered())
}

// feed types a stream in pieces over time and then ends the input.
func (r *R) feed(src *inSource, stream []byte, maxPiece, maxGap int, eofs bool) *sim.Task {
	return r.S.Spawn("user", nil, func() {
		for len(stream) > 0 {
			n := 1 + r.Choose(maxPiece)
			if n > len(stream) {
				n = len(stream)
			}
			src.put(stream[:n])
			stream = stream[n:]
			if eofs && src.tty != nil && r.Pct(5) {
				src.tty.TypeEOF()
				r.S.Fault("eof.midstream")
			}
			if maxGap > 0 {
				r.S.Sleep(int64(r.Choose(maxGap)) * 1000)
			}
		}
		src.end()
	})
}

func scenC01(r *R) {
	r.schedConfig()
	src := r.newInSource()
	stream := r.genStream(1 + r.Choose([]int{6, 30, 90}[r.Pick(3, 3, 1)]))
	if r.Pct(15) && len(stream) > 1 {
		// the input may end inside a token
		stream = stream[:len(stream)-r.Choose(min(len(stream), 6))]
		r.S.Fault("input.truncated")
	}
	src.setMaxRead([]int{0, 1, 3, 17}[r.Pick(3, 1, 2, 1)])
	minRead := []int{0, 1, 2, 7, 33}[r.Pick(3, 2, 1, 1, 1)]
	maxPiece := []int{1000, 1, 3, 20}[r.Pick(1, 2, 3, 3)]
	r.Descf("stream %q, pieces of up to %d bytes, MinReadSize %d", stream, maxPiece, minRead)
	midEOF := r.Pct(20)
	r.feed(src, stream, maxPiece, []int{0, 20, 3000}[r.Pick(1, 3, 2)], midEOF)

	ck := &inChecker{r: r}
	lastLen, lastN, reads, boundary := 0, 0, 0, -1
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "read" && op.OFD == src.ofd {
			lastLen, lastN = op.Len, op.N
			reads++
			if op.Res == 0 && op.N == 0 {
				boundary = src.taken()
			}
		}
	}
	// reading from the kernel's record tells what was delivered
	fed := 0
	mode := r.Pick(1, 1, 2) // ReadMore, ReadAny, mixed
	t := r.prog("reader", 600e9, func() {
		in := &anansi.Input{File: simos.Stdin, MinReadSize: minRead}
		idle := 0
		for step := 0; ; step++ {
			any := mode == 1 || mode == 2 && r.Choose(2) == 1
			var n int
			var err error
			if any {
				n, err = in.ReadAny()
			} else {
				n, err = in.ReadMore()
			}
			all := src.arrived()
			if fed+n > len(all) || n < 0 || fed+n != src.taken() {
				r.Fail("read-count", "read returned n=%d, but %d bytes were taken before and %d after", n, fed, src.taken())
			}
			ck.pending = append(ck.pending, all[fed:fed+n]...)
			fed += n
			ck.eof = in.AtEOF()
			ck.full = !any && n > 0 && lastN == lastLen
			if ck.full {
				r.S.Probe("buffer-full")
			}
			if err != nil && err != io.EOF {
				r.Fail("read-error", "read without faults returned %v", err)
			}
			for {
				e, a, ok := in.Decode()
				if !ok {
					break
				}
				ck.got(inEvent{rune(e), string(a)})
			}
			ck.drained()
			if fed == len(stream) && ck.eof {
				break
			}
			if n == 0 && !ck.eof {
				idle++
				r.S.Sleep(int64(50+idle) * 1000)
			}
		}
		if len(ck.pending) > 0 {
			r.Fail("lost", "input %q never handed out although the file is at end of file", ck.pending)
		}
	})
	_ = boundary
	if !t.Done() {
		r.Fail("stuck", "the reader did not finish; tasks:\n%s", r.S.Dump())
	}
	if ck.held == 0 {
		r.Trivial = true
	}
}

var _ = os.Stdin

func (src *inSource) readable() bool {
	if src.tty != nil {
		return src.tty.Readable()
	}
	return src.pipe.Readable()
}

func errnoOf(err error) syscall.Errno {
	for {
		switch e := err.(type) {
		case syscall.Errno:
			return e
		case interface{ Unwrap() error }:
			err = e.Unwrap()
		default:
			return 0
		}
	}
}

func scenC02(r *R) {
	r.schedConfig()
	src := r.newInSource()
	if r.Pct(15) {
		src.ofd.Flags |= syscall.O_NONBLOCK
		r.S.Fault("initially.nonblocking")
	}
	stream := make([]byte, 1+r.Choose([]int{10, 100, 700}[r.Pick(3, 2, 1)]))
	for i := range stream {
		stream[i] = byte('a' + i%26)
	}
	src.setMaxRead([]int{0, 1, 3, 17}[r.Pick(4, 1, 2, 1)])
	maxPiece := []int{1000, 1, 3, 20}[r.Pick(1, 2, 3, 3)]
	readErr := []int{0, 3, 20}[r.Pick(3, 2, 1)]
	fcntlErr := []int{0, 5, 30}[r.Pick(3, 1, 1)]
	minRead := []int{0, 1, 7, 64}[r.Pick(3, 2, 1, 1)]
	r.Descf("%d bytes in pieces of up to %d, read errors %d%%, fcntl errors %d%%, flags %#x", len(stream), maxPiece, readErr, fcntlErr, src.ofd.Flags)
	r.feed(src, stream, maxPiece, []int{0, 20, 3000}[r.Pick(1, 3, 2)], r.Pct(30))

	var (
		inAny, inMore            bool
		faults, again, ops, eofs int
		lastEOF                  bool
		readFault                bool
		blocked                  bool
	)
	r.K.OnOp = func(op *sim.Op) {
		if op.OFD != src.ofd {
			return
		}
		switch op.Kind {
		case "read":
			if inAny && op.Flags&syscall.O_NONBLOCK == 0 && !src.readable() {
				r.Fail("readany-blocks", "ReadAny reads with flags %#x while no input is available", op.Flags)
			}
			if inMore && op.Flags&syscall.O_NONBLOCK == 0 && !src.readable() {
				blocked = true
			}
			if r.Pct(readErr) {
				op.Err = syscall.EIO
				faults++
				readFault = true
			}
		case "getfl", "setfl", "setown":
			if r.Pct(fcntlErr) {
				op.Err = []syscall.Errno{syscall.EIO, syscall.EPERM}[r.Choose(2)]
				faults++
			}
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.OFD == src.ofd && op.Kind == "read" {
			ops++
			lastEOF = op.Res == 0 && op.N == 0
			if lastEOF {
				eofs++
			}
			if op.Res == syscall.EAGAIN {
				again++
			}
		}
	}
	nontrivial := false
	t := r.prog("reader", 600e9, func() {
		in := &anansi.Input{File: simos.Stdin, MinReadSize: minRead}
		term := &anansi.Term{}
		taken, decoded, entered, errs := 0, 0, false, 0
		for step := 0; ; step++ {
			faults, again, ops, eofs, readFault, blocked = 0, 0, 0, 0, false, false
			what := r.Pick(5, 5, 1)
			if what == 2 {
				var err error
				if entered {
					err = in.Exit(term)
				} else {
					err = in.Enter(term)
				}
				if err != nil && faults == 0 {
					r.Fail("context-error", "Enter/Exit failed with %v without a fault", err)
				}
				if err == nil {
					entered = !entered
				}
				continue
			}
			arrived := len(src.arrived())
			name := "ReadMore"
			var n int
			var err error
			if what == 1 {
				name = "ReadAny"
				inAny = true
				n, err = in.ReadAny()
				inAny = false
			} else {
				inMore = true
				n, err = in.ReadMore()
				inMore = false
			}
			r.S.Tracef("%s = %d, %v", name, n, err)
			nontrivial = nontrivial || faults > 0 || again > 0 || blocked
			if n != src.taken()-taken {
				r.Fail("count", "%s returned n=%d (err %v) but took %d bytes", name, n, err, src.taken()-taken)
			}
			taken += n
			if e := errnoOf(err); e == syscall.EAGAIN {
				r.Fail("would-block", "%s returned %v", name, err)
			}
			if err != nil && err != io.EOF && faults == 0 {
				r.Fail("error", "%s returned %v without a fault", name, err)
			}
			if err == io.EOF && eofs == 0 {
				r.Fail("eof-invented", "%s returned EOF but no read met end of file", name)
			}
			if readFault && (err == nil || err == io.EOF) {
				r.Fail("error-lost", "a read failed during %s, which returned %v", name, err)
			}
			if what == 0 {
				if n == 0 && err == nil {
					r.Fail("readmore-empty", "ReadMore returned no bytes and no error")
				}
				if again > 2 {
					r.Fail("busy-poll", "ReadMore polled the file %d times without input", again)
				}
			} else if err == nil && taken < arrived {
				r.Fail("readany-partial", "ReadAny returned without error after taking %d of the %d bytes that were available when it was called", taken, arrived)
			}
			if in.AtEOF() != lastEOF {
				r.Fail("ateof", "AtEOF is %v after %s, whose last read met end of file: %v (n=%d err=%v)", in.AtEOF(), name, lastEOF, n, err)
			}
			for {
				e, _, ok := in.Decode()
				if !ok {
					break
				}
				if decoded >= taken {
					r.Fail("invented", "decoded %q beyond the %d bytes taken", rune(e), taken)
				}
				if want := rune(stream[decoded]); rune(e) != want {
					r.Fail("corrupted", "byte %d decodes as %q, want %q", decoded, rune(e), want)
				}
				decoded++
			}
			if decoded != taken {
				r.Fail("lost", "only %d of the %d bytes taken were decoded", decoded, taken)
			}
			if taken == len(stream) && err == io.EOF {
				break
			}
			if err != nil && err != io.EOF {
				if errs++; errs > 200 {
					readErr, fcntlErr = 0, 0
				}
			}
			if n == 0 && what == 1 {
				r.S.Sleep(int64(100+10*step) * 1000)
			}
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the reader did not finish; tasks:\n%s", r.S.Dump())
	}
	r.Trivial = !nontrivial
}
