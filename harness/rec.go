package main

import (
	"fmt"
	"image"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C13", Quick: 200000, Thorough: 6000000, MaxSteps: 16000000,
		Rule: "each run draws a terminal (size, speed), a session of typed input around recordings started and stopped by Ctrl-R, with fragmentation, resizes and HUD pauses, one to three replays with pausing, stepping and Ctrl-C, " +
			"late ticks, and in a part of the runs faults of the recording file (create, write, seek, read errors, disk full, truncation); non-trivial if a replayed frame with events was compared",
		Real: append([]string{"replay, state encoding (x/platform)"}, platReal...), Stub: append([]string{"profilers"}, kernelStub...), Fn: scenC13,
	})
}

// recFrame is what a client sees of a frame.
type recFrame struct {
	state  string
	events []string
	time   time.Time
	size   image.Point
	plat   string
}

func (f *recFrame) differs(o *recFrame, state, hud bool) string {
	switch {
	case strings.Join(f.events, " ") != strings.Join(o.events, " "):
		return fmt.Sprintf("events %v, recorded %v", f.events, o.events)
	case !f.time.Equal(o.time) && (state || !hud):
		return fmt.Sprintf("time %v, recorded %v", f.time, o.time)
	case f.size != o.size:
		return fmt.Sprintf("size %v, recorded %v", f.size, o.size)
	case state && f.plat != o.plat:
		return fmt.Sprintf("platform state %v, recorded %v", f.plat, o.plat)
	case state && f.state != o.state:
		return fmt.Sprintf("client state %v, recorded %v", f.state, o.state)
	}
	return ""
}

// recClient is a deterministic client with serializable state.
type recClient struct {
	Frames int
	Sum    uint64
	Last   []byte
	Spent  time.Duration
	Prev   time.Time

	update func(c *recClient, ctx *platform.Context) error
}

func (c *recClient) String() string {
	return fmt.Sprintf("%d/%x/%q/%v/%d", c.Frames, c.Sum, c.Last, c.Spent, c.Prev.UnixNano())
}

func (c *recClient) mix(s string) {
	for i := 0; i < len(s); i++ {
		c.Sum = (c.Sum ^ uint64(s[i])) * 1099511628211
	}
}

// Update hands off to the scenario.
func (c *recClient) Update(ctx *platform.Context) error { return c.update(c, ctx) }

func scenC13(r *R) {
	r.schedConfig()
	tio := r.newTermIO(false)
	tty := tio.tty
	w, h := 1+r.Choose(50), 1+r.Choose(5)
	var (
		frames      int
		resizedAt   int64
		resizeFrame int
		screens     int // changes of the terminal
		drawn       []rune
		drawnAttrs  []ansi.SGRAttr
		drawnFor    int
		inReplay    int         // screens when the replay started
		mouseAt     image.Point // in the replay
		garbled     bool        // something else wrote to the terminal
	)
	resize := func(nw, nh int) {
		if w != nw || h != nh {
			screens++
			resizedAt, resizeFrame = r.S.Elapsed(), frames
			r.zeroSize(tty, w, h)
		}
		w, h = nw, nh
		tio.vt.resize(w, h)
		tty.Resize(w, h)
		resizedAt = r.S.Elapsed()
		resizeFrame = frames
		screens++
	}
	resize(w, h)
	resizedAt = 0
	slow := r.Pct(25)
	if slow {
		r.slowTTY(tty)
	}
	tio.save()
	if r.Pct(30) {
		r.S.LatePct, r.S.LateMax = 20, int64([]int{1e6, 60e6}[r.Choose(2)])
	}
	tio.in.setMaxRead([]int{0, 1, 3, 17}[r.Pick(3, 1, 2, 1)])
	fps := []int{60, 10}[r.Pick(3, 1)]
	frame := int64(1e9) / int64(fps)
	faulty := r.Pct(35)
	hudOn := r.Pct(30)
	maxPiece := []int{1000, 1, 3, 20}[r.Pick(1, 1, 2, 3)]
	maxGap := []int64{0, 2000, 20000}[r.Pick(1, 2, 2)] // us
	resizes := []int{0, 3}[r.Pick(1, 1)]
	sessions := 1 + r.Pick(3, 1)
	r.Descf("%dx%d, %d fps, %d recordings, faults %v, HUD %v, pieces of up to %d, gaps up to %dus, resizes up to %d", w, h, fps, sessions, faulty, hudOn, maxPiece, maxGap, resizes)

	var (
		recording bool       // a recording was started
		recorded  []recFrame // frames since it started
		expect    []recFrame // frames of the last recording
		loaded    bool       // a recording was opened for reading
		cut       bool       // the recording was damaged after being written
		replaying bool
		at        int // next frame of the replay
		paused    bool
		strayed   bool // replay frames were added by pausing
		unsure    bool // whether the replay is paused
		replays   int
		maxReps   = 1 + r.Choose(3)
		typedNow  []byte // read since the last frame
		compared  int
		quit      bool
		opens     int
		asked     int // Ctrl-R
		curIn     *sim.Inode
	)
	faults := 0
	fault := func(op *sim.Op, pct int, errs ...syscall.Errno) {
		if faulty && r.Pct(pct) {
			op.Err = errs[r.Choose(len(errs))]
			faults++
		}
	}
	// a fault of the recording must be logged
	recFaults, startFaults := 0, 0
	type unlogged struct {
		frame, size int
		errs        []string
	}
	var toLog []unlogged
	checkLogged := func(all bool) {
		for len(toLog) > 0 && (all || frames > toLog[0].frame+5) {
			mem, _ := platform.Logs.Contents()
			if !slices.ContainsFunc(toLog[0].errs, func(err string) bool { return strings.Contains(string(mem[toLog[0].size:]), err) }) {
				r.Fail("unlogged", "the recording failed with %q in frame %d, and nothing was logged about it", toLog[0].errs, toLog[0].frame)
			}
			toLog = toLog[1:]
		}
	}
	isRec := func(op *sim.Op) bool {
		return op.OFD != nil && op.OFD.InodeOf() != nil && op.OFD.InodeOf() == curIn
	}
	modes := r.Choose(4) // where faults hit
	if faulty && modes == 3 && !hudOn {
		r.K.Space = int64(r.Choose(3000))
	}
	r.K.OnOp = func(op *sim.Op) {
		switch op.Kind {
		case "open":
			if strings.HasSuffix(op.Path, ".rec") {
				fault(op, 10, syscall.EACCES, syscall.ENOSPC, syscall.EMFILE)
			}
		case "write":
			if isRec(op) && op.Len > 1 && r.Pct(10) {
				op.Limit = 1 + r.Choose(op.Len-1)
			}
			if isRec(op) && modes == 0 {
				fault(op, 5, syscall.EIO, syscall.ENOSPC)
			}
		case "seek":
			if isRec(op) && modes == 1 {
				fault(op, 5, syscall.EIO)
			}
		case "read":
			if isRec(op) && modes == 2 {
				fault(op, 15, syscall.EIO)
			}
		}
	}
	taken := 0
	r.K.Observe = func(op *sim.Op) {
		if op.Res != 0 && (isRec(op) || op.Kind == "open" && strings.HasSuffix(op.Path, ".rec")) {
			recFaults++
			if n := len(toLog) - 1; n >= 0 && toLog[n].frame == frames {
				toLog[n].errs = append(toLog[n].errs, op.Res.Error())
			} else {
				mem, _ := platform.Logs.Contents()
				toLog = append(toLog, unlogged{frames, len(mem), []string{op.Res.Error()}})
			}
		}
		switch {
		case op.Kind == "read" && op.OFD == tio.inOFD:
			if n := tty.Taken(); n > taken {
				typedNow = append(typedNow, tty.Arrived[taken:n]...)
				taken = n
			}
		case op.Kind == "open" && strings.HasSuffix(op.Path, ".rec"):
			if opens++; opens > asked && !hudOn {
				r.Fail("unasked", "%s is opened, number %d; Ctrl-R was typed %d times", op.Path, opens, asked)
			}
			if op.Arg&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
				if recording && recFaults == startFaults {
					r.Fail("abandoned", "a new recording is started while there is one, which had no fault")
				}
				startFaults = recFaults
				recorded, recording = nil, op.Res == 0
				curIn = r.K.Disk[op.Path]
				if recording {
					r.S.Probe("recordings")
				}
			} else {
				expect, recorded = recorded, nil
				recording = false
				loaded, cut = op.Res == 0, false
				if in := r.K.Disk[op.Path]; in != nil && faulty && modes == 2 && len(in.Data) > 0 && r.Pct(30) {
					in.Data = in.Data[:r.Choose(len(in.Data))]
					cut = true
					faults++
					r.S.Fault("recording.truncated")
				}
			}
		}
	}

	update := func(c *recClient, ctx *platform.Context) error {
		frames++
		checkLogged(false)
		if drawn != nil && drawnFor == screens && !ctx.HUD.Visible && !garbled {
			but := -1
			if replaying && mouseAt.X > 0 && mouseAt.X <= w && mouseAt.Y > 0 && mouseAt.Y <= h {
				but = (mouseAt.Y-1)*w + mouseAt.X - 1
			}
			if d := tio.vt.showsGridBut(w, h, drawn, drawnAttrs, but); d != "" {
				r.Fail("screen", "after a completed frame (of a replay: %v): %s\nterminal:\n%v", replaying, d, tio.vt)
			}
			r.S.Probe("screens")
			if replaying {
				r.S.Probe("replay screens")
			}
		}
		drawn = nil
		f := recFrame{state: c.String(), time: ctx.Time, size: ctx.Output.Bounds().Size(),
			plat: fmt.Sprintf("paused=%v last=%d %v hud=%v", ctx.Paused, ctx.LastTime.UnixNano(), ctx.LastSize, ctx.HUD.Visible)}
		for id, kind := range ctx.Input.Type {
			switch e := ctx.Input.Escape(id); kind {
			case platform.EventNone:
				continue
			case platform.EventMouse:
				mouseAt = ctx.Input.Mouse(id).Point.Point
				f.events = append(f.events, fmt.Sprintf("%d:%v:%v:%s", kind, ctx.Input.Mouse(id), rune(e.ID), e.Arg))
			default:
				f.events = append(f.events, fmt.Sprintf("%d:%q:%s", kind, rune(e.ID), e.Arg))
			}
		}
		read := typedNow
		typedNow = nil
		r.S.Tracef("frame %d: replaying=%v events %v size %v", frames, replaying, f.events, f.size)

		if replaying && strings.Contains(string(read), "\x03") {
			r.S.Tracef("replay stopped")
			replaying = false
			screens++
			resizeFrame, resizedAt = frames, r.S.Elapsed()
			r.S.Probe("replays stopped")
		}
		if replaying {
			step := true
			if len(read) > 0 {
				if at == 0 || strings.Trim(string(read), " .x\x0c") != "" {
					unsure = true
				}
				if strings.Count(string(read), " ")%2 == 1 {
					paused = !paused
				}
				step = !paused || strings.Count(string(read), ".")%2 == 1
			} else {
				step = !paused
			}
			switch {
			case unsure:
			case step:
				if at >= len(expect) {
					r.Fail("extra-frame", "the replay goes on after the %d recorded frames: %+v", len(expect), f)
				}
				if d := f.differs(&expect[at], !strayed, hudOn); d != "" {
					r.Fail("replay", "frame %d of %d of the replay has %s", at+1, len(expect), d)
				}
				if len(f.events) > 0 {
					compared++
				}
				at++
			default:
				strayed = true
				r.S.Probe("paused frames")
				if len(f.events) > 0 {
					r.Fail("paused-events", "a frame of a paused replay has events %v", f.events)
				}
				if at > 0 && !hudOn && !f.time.Equal(expect[at-1].time) {
					r.Fail("paused-time", "a frame of a paused replay has time %v, not %v", f.time, expect[at-1].time)
				}
			}
		} else {
			recorded = append(recorded, f)
			if f.size != image.Pt(w, h) && screens > 0 && frames > resizeFrame+4 && r.S.Elapsed() > resizedAt+r.K.MaxSigDelay+250e6+r.S.LateMax {
				r.Fail("size", "the output is %v, after a replay or resize to %dx%d long ago", f.size, w, h)
			}
		}

		// a deterministic client
		c.Frames++
		c.mix(strings.Join(f.events, " "))
		for _, ev := range f.events {
			c.Last = append(c.Last, ev[len(ev)-1])
			if len(c.Last) > 20 {
				c.Last = c.Last[5:]
			}
		}
		if !c.Prev.IsZero() {
			c.Spent += f.time.Sub(c.Prev)
		}
		c.Prev = f.time
		c.mix(f.size.String())
		ctx.Output.Clear()
		ctx.Output.WriteString(fmt.Sprint(c.Sum % 1000))
		if !replaying {
			for _, ev := range f.events {
				if quit && strings.Contains(ev, `'Q'`) {
					return errClient
				}
			}
		}
		if (!replaying && (resizeFrame == 0 || frames > resizeFrame+4 && r.S.Elapsed() > resizedAt+r.K.MaxSigDelay+60e6) || replaying && screens == inReplay) &&
			!ctx.HUD.Visible && !garbled && f.size == image.Pt(w, h) {
			drawn = append([]rune(nil), ctx.Output.Grid.Rune...)
			drawnAttrs = append([]ansi.SGRAttr(nil), ctx.Output.Grid.Attr...)
			drawnFor = screens
		}
		return nil
	}

	r.S.Spawn("user", nil, func() {
		pause := func() {
			if maxGap > 0 {
				r.S.Sleep(int64(r.Choose(int(maxGap))) * 1000)
			}
		}
		var rest []byte
		ctrlR := func(start bool) { // alone, or along with other keys
			b := []byte{0x12}
			switch r.Pick(5, 1, 1, 1, 1) {
			case 4:
				if start { // and the beginning of another
					cuts := []string{"\x1b[1;5A", "\x1b[<0;1;1M", "é", "\x1bOP", "\x1b[A"}
					rest = []byte(cuts[r.Choose(len(cuts))])
					k := 1 + r.Choose(len(rest)-1)
					b, rest = append(b, rest[:k]...), rest[k:]
				}
			case 1:
				b = []byte("ab\x12")
			case 2:
				b = []byte("\x12c")
			case 3:
				b = []byte("\x12\x12a\x12")
			}
			asked++
			tty.Type(b)
		}
		some := func(n int) {
			if r.Pct(15) {
				tty.Type([]byte("\x12\x12")) // which is as good as none
				pause()
			}
			stream := append(r.genKeys(n, hudOn, w, h), "zz"...)
			for i := range stream {
				if stream[i] == 0x12 || stream[i] == 3 {
					stream[i] = 'r'
				}
			}
			before := opens
			for at := 0; at < len(stream) && opens == before; {
				pause()
				if resizes > 0 && r.Pct(15) {
					resizes--
					resize(r.newSize(w, h, 1, 50, 1, 5))
					r.S.Fault("resize")
				}
				k := min(len(stream)-at, 1+r.Choose(maxPiece))
				if stream[at] == 'z' || r.Pct(90) {
					tty.Type(stream[at : at+k])
					at += k
				} else {
					tty.Type(stream[at : at+1])
					at++
				}
			}
			if opens != before { // complete whatever was begun
				tty.Type([]byte("\x1b\\zz"))
			} else if resizes > 0 && r.Pct(15) {
				// nobody tells about the new size, but for a Ctrl-L
				resizes--
				w, h = r.newSize(w, h, 1, 50, 1, 5)
				tio.vt.resize(w, h)
				tty.Cols, tty.Rows = w, h
				screens++
				tty.Type([]byte("\x1b\\zz\x0c"))
				resizedAt, resizeFrame = r.S.Elapsed(), frames
				r.S.Fault("resize.quiet")
				if r.Pct(50) {
					r.S.WaitUntil("frames after Ctrl-L", 100e9, func() bool { return frames > resizeFrame+6 })
					r.S.Sleep(r.K.MaxSigDelay + 300e6 + r.S.LateMax)
				}
			}
		}
		settle := func() { // until everything typed was presented
			n := len(tty.Arrived)
			r.S.WaitUntil("input taken", 60e9, func() bool { return taken >= n })
			f := frames
			r.S.WaitUntil("two frames", 60e9, func() bool { return frames >= f+2 })
		}
		goLive := func() {
			// back to the live session
			for k := 0; replaying; k++ {
				if k > 20 {
					r.Fail("no-stop", "typing Ctrl-C does not stop the replay")
				}
				tty.Type([]byte{3})
				settle()
				r.S.Sleep(2*frame + 300e6 + r.S.LateMax + r.K.MaxSigDelay)
			}
		}
		r.S.WaitUntil("first frame", 100e9, func() bool { return frames > 0 })
		hud := func() {
			// show the HUD with its timing details, and click on pause
			if hudOn && w > 30 && h > 3 {
				tty.Type([]byte(fmt.Sprintf("\x1b[<0;%d;1M", w-3)))
				pause()
				tty.Type([]byte(fmt.Sprintf("\x1b[<0;%d;4M", w-6)))
			}
		}
		for s := 0; s < sessions; s++ {
			some(r.Choose(5))
			settle()
			goLive()
			if n := opens; !recording {
				ctrlR(true)
				if !r.S.WaitUntil("recording", 20e9, func() bool { return opens > n }) {
					r.Fail("no-recording", "typing Ctrl-R started no recording")
				}
				settle()
				tty.Type(rest)
				rest = nil
			}
			if !recording { // failed
				continue
			}
			for k := 1 + r.Choose(3); k > 0; k-- {
				if r.Pct(30) {
					hud()
				}
				some(r.Choose(10))
				r.S.Sleep(int64(r.Choose(5)) * frame)
			}
			settle()
			was := replays
			for recording { // starts another if it failed
				n := opens
				ctrlR(false)
				if !r.S.WaitUntil("replay", 20e9, func() bool { return opens > n }) {
					r.Fail("no-replay", "typing Ctrl-R again started no replay")
				}
				settle()
			}
			for k := r.Choose(6); k > 0; k-- {
				r.S.Sleep(int64(r.Choose(4000)) * frame / 1000)
				if replaying && at > 0 && r.Pct(15) { // another program's output, and then Ctrl-L
					r.S.Fault("screen.garbled")
					garbled = true
					for k := 1 + r.Choose(3); k > 0; k-- {
						tio.vt.cells[r.Choose(len(tio.vt.cells))] = vtCell{'%', vtAttr{fg: 2}}
					}
					r.S.Sleep(int64(r.Choose(int(2 * frame))))
					f0 := frames
					tty.Type([]byte{'\x0c'})
					r.S.Sleep(r.S.LateMax + r.K.MaxSigDelay)
					r.S.WaitUntil("frames after Ctrl-L", 100e9, func() bool { return frames > f0+5 })
					garbled = false
					r.S.WaitUntil("more frames", 100e9, func() bool { return frames > f0+8 })
				} else if replaying && at > 0 {
					tty.Type([]byte("  .x"[r.Choose(4):][:1]))
				}
				if resizes > 0 && r.Pct(10) {
					resizes--
					resize(r.newSize(w, h, 1, 50, 1, 5))
				}
			}
			if !unsure && paused {
				tty.Type([]byte(" "))
			}
			r.S.WaitUntil("replays", int64(5+r.Choose(200))*frame, func() bool { return replays >= was+maxReps })
			goLive()
		}
		some(r.Choose(3))
		settle()
		goLive()
		quit = true
		tty.Type([]byte{'Q'})
	})

	t := r.prog("app", 3600e9, func() {
		p, err := platform.New(simos.Stdin, simos.Stdout, platform.FrameRate(fps), platform.Config{})
		if err != nil {
			r.Fail("new", "New failed: %v", err)
		}
		err = p.RunWith(func(p *platform.Platform) error {
			for {
				c := &recClient{update: update}
				at, paused, strayed, unsure, typedNow = 0, false, false, false, nil
				drawn, mouseAt = nil, image.ZP
				if inReplay = screens; resizeFrame > 0 && (frames <= resizeFrame+4 || r.S.Elapsed() <= resizedAt+r.K.MaxSigDelay+60e6) {
					inReplay = -1 // the screen may still be changing
				}
				err := p.Run(c)
				r.S.Tracef("Run: %v; replaying=%v at %d", err, replaying, at)
				if !platform.IsReplayDone(err) {
					return err
				}
				if replaying {
					if at < len(expect) && !unsure && !cut {
						r.Fail("short-replay", "the replay ended after %d of %d frames", at, len(expect))
					}
					replays++
					r.S.Probe("replays")
				} else if !loaded {
					r.Fail("replay-done", "Run returned %v without a recording having been loaded", err)
				}
				replaying, loaded = true, false
			}
		})
		r.S.Tracef("RunWith: %v", err)
		if err != errClient {
			r.Fail("wrong-error", "the session ended with %v", err)
		}
	})
	if !t.Done() {
		r.Fail("stuck", "the session did not finish; tasks:\n%s", r.S.Dump())
	}
	if d := tio.differs(true, true, true); d != "" {
		r.Fail("restore", "after Run: %s", d)
	}
	checkLogged(true)
	_ = anansi.SigErr
	r.Trivial = compared == 0
}
