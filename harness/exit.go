package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/jcorbin/anansi"
	"github.com/jcorbin/anansi/ansi"
	"github.com/jcorbin/anansi/x/platform"
	simlog "github.com/jcorbin/anansi/zz/shim/log"
	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

func init() {
	register(&Scenario{
		ID: "C23", Quick: 800000, Thorough: 10000000, MaxSteps: 4000000,
		Rule: "each run draws what the standard files are (terminal, pipe, file), whether /dev/tty opens, typed input, a failing standard error, command line flags, files that can't be created, " +
			"and how the program ends (no error, an error, an error with an exit code, a signal); non-trivial if the program ended with an error",
		Real: append([]string{"anansi.OpenTerm, MustRun, Signal", "platform.MustRun, New, Config"}, termReal...), Stub: kernelStub, Fn: scenC23,
	})
}

// returns is the code of a program that doesn't exit.
const returns = 99999

// codeError is an error with an exit code.
type codeError struct {
	mess string
	code int
}

func (ce codeError) Error() string { return ce.mess }
func (ce codeError) ExitCode() int { return ce.code }

// ptrCodeError is one that is not comparable by value.
type ptrCodeError struct {
	codeError
	_ []int
}

// ending is how a program ends.
type ending struct {
	err  error
	sig  syscall.Signal // wait for it
	code int            // exit code, or returns
}

func (r *R) genEnding() (e ending) {
	mess := fmt.Sprintf("failed with %d", 1000+r.Choose(9000))
	switch r.Choose(8) {
	case 0:
		return ending{code: returns}
	case 1:
		return ending{err: errors.New(mess), code: 1}
	case 2:
		c := 1 + r.Choose(255)
		if r.Pct(30) {
			return ending{err: &ptrCodeError{codeError: codeError{mess, c}}, code: c}
		}
		return ending{err: codeError{mess, c}, code: c}
	case 3:
		return ending{err: codeError{mess, 0}, code: 1}
	case 4:
		e.sig = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[r.Choose(3)]
		e.code = -int(e.sig)
		e.err = anansi.SigErr(e.sig)
		return e
	case 5:
		return ending{err: io.EOF, code: 1}
	case 6:
		return ending{err: fmt.Errorf("%s: %w", mess, io.ErrUnexpectedEOF), code: 1}
	default:
		return ending{err: codeError{mess, -3}, code: -3}
	}
}

// logged tells whether some log has a line with the message.
func logged(data []byte, err error) bool {
	for _, line := range bytes.Split(data, []byte("\n")) {
		if bytes.Contains(line, []byte(err.Error())) {
			return true
		}
	}
	return false
}

func scenC23(r *R) {
	r.schedConfig()
	if r.Pct(40) {
		scenC23Platform(r)
		return
	}
	simlog.SetOutput(simos.Stderr) // as in a program that has no platform
	t := r.K.NewTTY("tty", 80, 24)
	v := newVT(80, 24)
	var shown []byte
	t.Sink = func(b []byte) { v.Write(b); shown = append(shown, b...) }
	if r.Pct(70) {
		r.K.Tty = t
	} else {
		r.S.Fault("no.controlling.tty")
	}
	tofd := r.K.NewOFD("tty", t, syscall.O_RDWR|0x8000)
	inPipe, inRd, _ := r.K.NewPipe("stdin")
	inFile := r.K.MkFile("/in", []byte("from a file\n"))
	outPipe, _, outWr := r.K.NewPipe("stdout")
	outFile := r.K.MkFile("/out", nil)
	errFile := r.K.MkFile("/err", nil)
	inKind, outKind, errKind := r.Pick(3, 1, 1), r.Pick(3, 1, 1), r.Pick(2, 2, 1)
	inPipe.Put(r.K, []byte("from a pipe\n"))
	inPipe.CloseWrite()
	inOFD := []*sim.OFD{tofd, inRd, r.K.NewOFD("/in", inFile, syscall.O_RDONLY|0x8000)}[inKind]
	outOFD := []*sim.OFD{tofd, outWr, r.K.NewOFD("/out", outFile, syscall.O_WRONLY|0x8000)}[outKind]
	if inKind == 0 && outKind == 0 && r.Pct(20) { // opened separately
		outOFD = r.K.NewOFD("tty-out", t, syscall.O_RDWR|0x8000)
	}
	errOFD := []*sim.OFD{tofd, r.K.NewOFD("/err", errFile, syscall.O_WRONLY|0x8000), r.K.NewOFD("/err", errFile, syscall.O_WRONLY|0x8000)}[errKind]
	r.K.Install(0, inOFD)
	r.K.Install(1, outOFD)
	r.K.Install(2, errOFD)
	termios, flags := t.Termios, tofd.Flags
	outFlags := outOFD.Flags

	needs := 0
	if inKind != 0 {
		needs++
	}
	if outKind != 0 {
		needs++
	}
	failOpen, failErr := -1, syscall.Errno(0)
	if needs > 0 && r.Pct(30) {
		failOpen = r.Choose(needs)
		failErr = []syscall.Errno{syscall.EIO, syscall.EMFILE, syscall.EACCES, syscall.EINTR}[r.Choose(4)]
	}
	opens := 0
	var opened []*sim.OFD
	r.K.OnOp = func(op *sim.Op) {
		switch {
		case op.Kind == "open" && op.Path == "/dev/tty":
			if opens == failOpen {
				op.Err = failErr
			}
			opens++
		case op.Kind == "write" && op.OFD == errOFD && errKind == 2:
			op.Err, op.Limit = syscall.ENOSPC, r.Choose(op.Len)
		}
	}
	r.K.Observe = func(op *sim.Op) {
		if op.Kind == "open" && op.Res == 0 {
			opened = append(opened, r.K.Lookup(op.N))
		}
	}

	e := r.genEnding()
	nap := []int64{0, 1e6, 500e6}[r.Choose(3)]
	input := []byte("hello\n")
	text := fmt.Sprintf("text %d", r.Choose(1000))
	raw, alt := r.Pct(50), r.Pct(50)
	nested := r.Pct(30)
	r.Descf("in %d out %d err %d tty %v failOpen %d %v ending %+v raw %v alt %v", inKind, outKind, errKind, r.K.Tty != nil, failOpen, failErr, e, raw, alt)
	var wantOpen error
	if needs > 0 && r.K.Tty == nil {
		wantOpen = syscall.ENXIO
	}
	if failOpen >= 0 && failErr != syscall.EINTR && (wantOpen == nil || failOpen == 0) {
		wantOpen = failErr
	}
	var ready, got, returned bool
	var runErr error
	typed := false
	r.S.Spawn("user", nil, func() {
		r.S.WaitUntil("ready", 1000e9, func() bool { return ready })
		r.S.Sleep(nap)
		t.Type(input)
		typed = true
		if e.sig != 0 {
			r.S.WaitUntil("input read", 1000e9, func() bool { return got })
			r.S.Sleep(nap)
			r.K.Raise(r.K.Prog, e.sig)
		}
	})
	r.prog("main", 3000e9, func() {
		fds := r.K.FDs()
		term, err := anansi.OpenTerm()
		if wantOpen != nil {
			if err == nil || errnoOf(err) != wantOpen {
				r.Fail("open", "OpenTerm returned %v, want %v", err, wantOpen)
			}
			if n := r.K.FDs(); n != fds {
				r.Fail("leak", "OpenTerm failed, and left %d files open", n-fds)
			}
			e = ending{err: err, code: 1}
			anansi.MustRun(err)
			returned = true
			return
		}
		if err != nil || term == nil {
			r.Fail("open", "OpenTerm returned %v", err)
		}
		if n := len(opened); n != needs {
			r.Fail("open", "OpenTerm opened %d files, want %d", n, needs)
		}
		if !term.IsTerminal() {
			r.Fail("open", "OpenTerm's result is not a terminal")
		}
		if inKind == 0 && term.Input.File != simos.Stdin || outKind == 0 && term.Output.File != simos.Stdout {
			r.Fail("open", "standard input or output is a terminal, but is not used")
		}
		var stop anansi.Signal
		if e.sig != 0 {
			stop = anansi.Notify(syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
			term.AddContext(&stop)
		}
		if raw {
			_ = term.SetRaw(true)
		}
		if alt {
			term.AddMode(ansi.ModeAlternateScreen, ansi.ModeMouseSgrExt)
		}
		run := func(term *anansi.Term) error {
			var buf anansi.Buffer
			buf.WriteString(text)
			if err := term.Flush(&buf); err != nil {
				r.Fail("flush", "Flush failed: %v", err)
			}
			ready = true
			var in []byte
			for len(in) < len(input) {
				if _, err := term.ReadMore(); err != nil {
					r.Fail("read", "ReadMore failed: %v", err)
				}
				for {
					id, _, ok := term.Decode()
					if !ok {
						break
					}
					in = append(in, string(rune(id))...)
				}
			}
			if !typed || string(in) != string(input) {
				r.Fail("read", "%q was read, %q was typed", in, input)
			}
			got = true
			if e.sig != 0 {
				rc := sim.RecvCase((<-chan os.Signal)(stop.C))
				sim.Select(false, rc)
				return anansi.SigErr(rc.V)
			}
			return e.err
		}
		if nested {
			inner := run
			run = func(term *anansi.Term) error { return term.RunWith(inner) }
		}
		runErr = term.RunWith(run)
		if !errors.Is(runErr, e.err) {
			r.Fail("error", "RunWith returned %v, want %v", runErr, e.err)
		}
		anansi.MustRun(runErr)
		returned = true
	})
	p := r.K.Prog
	switch {
	case e.code == returns && !returned:
		r.Fail("exit", "the program did not return from MustRun(nil): %+v\n%s", p, r.S.Dump())
	case e.code != returns && !p.Exited:
		r.Fail("exit", "the program did not exit, with error %v; returned %v, killed by %q\n%s", e.err, returned, p.KilledBy, r.S.Dump())
	case e.code != returns && p.ExitCode != e.code:
		r.Fail("exit", "the program exited with %d, want %d, due to %v", p.ExitCode, e.code, e.err)
	}
	if e.code != returns {
		log := errFile.Data
		if errKind == 0 {
			log = shown
		}
		if errKind != 2 && !logged(log, e.err) {
			r.Fail("message", "the error %q is not in the log %q", e.err.Error(), clipBytes(log))
		}
	}
	if d := t.Termios != termios; d || tofd.Flags != flags || outOFD.Flags != outFlags {
		r.Fail("restore", "the terminal is left with flags %#x and termios %+v; was %#x and %+v", tofd.Flags, t.Termios, flags, termios)
	}
	for m, on := range v.modes {
		if on && m != 25 && m != 7 {
			r.Fail("restore", "terminal mode %d is left on", m)
		}
	}
	if wantOpen == nil {
		if !bytes.Contains(shown, []byte(text)) {
			r.Fail("output", "the terminal did not get %q: %q", text, clipBytes(shown))
		}
		for _, o := range opened {
			if o.TTYOf() != t {
				r.Fail("open", "%v was opened", o.Name)
			}
		}
	}
	if outKind == 1 && len(outPipe.Total) > 0 || outKind == 2 && len(outFile.Data) > 0 {
		r.Fail("output", "something was written to standard output, which is not a terminal")
	}
	if inKind == 1 && !strings.HasPrefix(string(inPipe.Buffered()), "from") || inKind == 2 && inOFD.Off != 0 {
		r.Fail("read", "standard input was read, which is not a terminal")
	}
	r.Trivial = e.code == returns
}

// scenC23Platform runs a program by platform.MustRun.
func scenC23Platform(r *R) {
	tio := r.newTermIO(false)
	notTTY := r.Pct(5)
	if notTTY {
		_, _, wr := r.K.NewPipe("stdout")
		r.K.Install(1, wr)
	}
	errFile := r.K.MkFile("/err", nil)
	r.K.Install(2, r.K.NewOFD("/err", errFile, syscall.O_WRONLY|0x8000))

	// command line
	args := []string{"prog"}
	files := map[string]string{} // flag to file
	want := map[string]bool{}
	usage := -1
	spell := func(name, val string) {
		dash := []string{"-", "--"}[r.Choose(2)]
		if val != "" && r.Pct(50) {
			args = append(args, dash+name, val)
		} else if val != "" {
			args = append(args, dash+name+"="+val)
		} else {
			args = append(args, dash+name)
		}
	}
	for k := r.Choose(4); k > 0 && usage < 0; k-- {
		switch r.Pick(3, 2, 2, 2, 2, 2, 1, 1, 1) {
		case 0:
			files["logfile"] = "/log"
			spell("platform.logfile", "/log")
		case 1:
			files["cpuprofile"] = "/cpu"
			spell("platform.cpuprofile", "/cpu")
		case 2:
			files["memprofile"] = "/mem"
			spell("platform.memprofile", "/mem")
		case 3:
			files["tracefile"] = "/trace"
			spell("platform.tracefile", "/trace")
		case 4:
			want["timing"] = true
			spell("platform.timing", "")
		case 5:
			want["timing.log"] = true
			spell("platform.timing.log", "")
		case 6:
			spell("platform.bogus", "")
			usage = 2
		case 7:
			args = append(args, "-platform.timing=maybe")
			usage = 2
		case 8:
			args = append(args, "-h")
			usage = 0
		}
	}
	var rest []string
	if r.Pct(20) {
		rest = []string{"arg", "-platform.logfile=/other"}
		args = append(args, rest...)
	}
	var opts []platform.Option
	rate := r.Pct(50)
	if rate && r.Pct(50) {
		opts = append(opts, platform.FrameRate([]int{60, 30, 100}[r.Choose(3)]))
		rate = false
	}
	own := r.Pick(4, 1, 3)
	switch own {
	case 1: // the command line is not for the platform
		opts = append(opts, platform.Config{})
		files, want, usage = map[string]string{}, map[string]bool{}, -1
	case 2: // what is given first counts
		files, want, usage = map[string]string{}, map[string]bool{}, -1
		for i, n := 1, 1+r.Pick(3, 2, 1); i <= n; i++ {
			var cfg platform.Config
			file := func(name string, f *string) {
				if r.Pct(40) {
					*f = fmt.Sprintf("/opt%d.%s", i, name)
					if files[name] == "" {
						files[name] = *f
					}
				}
			}
			file("logfile", &cfg.LogFileName)
			file("cpuprofile", &cfg.CPUProfileName)
			file("memprofile", &cfg.MemProfileName)
			file("tracefile", &cfg.TraceFileName)
			file("telemetry", &cfg.TelemetryLogFileName)
			if r.Pct(20) {
				cfg.StartTiming, want["timing"] = true, true
			}
			if r.Pct(20) {
				cfg.LogTiming, want["timing.log"] = true, true
			}
			opts = append(opts, cfg)
		}
	}
	if rate {
		opts = append(opts, platform.FrameRate([]int{60, 30, 100}[r.Choose(3)]))
	}
	simos.Args = args
	failPath := ""
	failErr := []syscall.Errno{syscall.EACCES, syscall.ENOENT, syscall.ENOSPC, syscall.EMFILE}[r.Choose(4)]
	if len(files) > 0 && usage < 0 && r.Pct(30) {
		names := []string{"logfile", "cpuprofile", "tracefile", "memprofile", "telemetry"}
		var have []string
		for _, n := range names {
			if files[n] != "" {
				have = append(have, files[n])
			}
		}
		failPath = have[r.Choose(len(have))]
	}
	r.K.OnOp = func(op *sim.Op) {
		if op.Kind == "open" && op.Path == failPath {
			op.Err = failErr
		}
	}
	e := r.genEnding()
	setup := "" // what is wrong
	switch {
	case usage >= 0:
		e, setup = ending{code: usage}, "usage"
	case failPath != "":
		e, setup = ending{err: failErr, code: 1}, "file"
	case notTTY:
		e, setup = ending{err: syscall.ENOTTY, code: 1}, "notty"
	}
	if e.err == io.EOF {
		e.code = 1
	}
	nested := r.Pct(30)
	frames, maxFrames := 0, 1+r.Choose(6)
	started, returned, raised := false, false, false
	r.Descf("args %q failPath %q %v notTTY %v ending %+v setup %q", args, failPath, failErr, notTTY, e, setup)
	client := func(ctx *platform.Context) error {
		frames++
		if want["timing"] != (ctx.Telemetry.TimingEnabled && !want["timing.log"]) && !want["timing.log"] ||
			want["timing.log"] && !(ctx.Telemetry.TimingEnabled && ctx.Telemetry.LogTiming) || !want["timing.log"] && ctx.Telemetry.LogTiming {
			r.Fail("flags", "timing is %+v, with arguments %q", ctx.Telemetry.TelemetryState, args)
		}
		simlog.Printf("frame %d", frames)
		if frames < maxFrames || raised {
			return nil
		}
		if e.sig != 0 {
			raised = true
			r.S.Spawn("kill", nil, func() { r.K.Raise(r.K.Prog, e.sig) })
			return nil
		}
		if e.err == nil {
			return errClient
		}
		return e.err
	}
	r.prog("main", 3000e9, func() {
		platform.MustRun(simos.Stdin, simos.Stdout, func(p *platform.Platform) error {
			started = true
			if setup != "" {
				r.Fail("setup", "the program runs, with %s wrong; arguments %q", setup, args)
			}
			err := p.Run(platform.ClientFunc(client))
			if err == errClient {
				err = nil
			}
			if nested && err != nil {
				simlog.Printf("ended")
			}
			return err
		}, opts...)
		returned = true
	})
	p := r.K.Prog
	switch {
	case e.code == returns && !returned:
		r.Fail("exit", "the program did not return from MustRun: %+v\n%s", p, r.S.Dump())
	case e.code != returns && !p.Exited:
		r.Fail("exit", "the program did not exit, with error %v; returned %v, killed by %q\n%s", e.err, returned, p.KilledBy, r.S.Dump())
	case e.code != returns && p.ExitCode != e.code:
		r.Fail("exit", "the program exited with %d, want %d, due to %v; arguments %q", p.ExitCode, e.code, e.err, args)
	}
	if (setup == "") != started {
		r.Fail("setup", "the program ran: %v, with %q wrong", started, setup)
	}
	if d := tio.differs(true, true, true); d != "" {
		r.Fail("restore", "after the end of the program: %s; arguments %q", d, args)
	}
	if setup == "usage" {
		for _, path := range []string{"/log", "/cpu", "/mem", "/trace"} {
			if _, ok := r.K.File(path); ok {
				r.Fail("files", "%s was created, with arguments %q", path, args)
			}
		}
	}
	if _, ok := r.K.File("/other"); ok {
		r.Fail("files", "/other was created, with arguments %q", args)
	}
	if lf := files["logfile"]; lf != "" && lf != failPath && setup != "usage" {
		data, _ := r.K.File(lf)
		if e.err != nil && !logged(data, e.err) {
			r.Fail("message", "the error %q is not in the log file: %q", e.err.Error(), clipBytes(data))
		}
		for i := 1; i <= frames; i++ {
			if !bytes.Contains(data, []byte(fmt.Sprintf("frame %d\n", i))) {
				r.Fail("log", "the log of frame %d is not in the file: %q", i, clipBytes(data))
			}
		}
	}
	if setup != "usage" { // no other files
		wanted := map[string]bool{"/err": true}
		for _, f := range files {
			wanted[f] = true
		}
		for _, path := range r.K.Paths() {
			if in := r.K.Disk[path]; !in.Dir && !wanted[path] {
				r.Fail("files", "%s was created, with arguments %q and files %v", path, args, files)
			}
		}
	}
	if setup == "" {
		for n, kind := range map[string]string{"cpuprofile": "CPU", "memprofile": "heap", "tracefile": "Trace"} {
			if path := files[n]; path != "" {
				data, _ := r.K.File(path)
				if all := r.S.Profiles[kind]; len(all) != 1 || string(data) != all[0] {
					r.Fail("profile", "the profile in %s is %q, want %q", path, data, all)
				}
			}
		}
		if path := files["telemetry"]; path != "" {
			if _, ok := r.K.File(path); !ok {
				r.Fail("files", "there is no %s", path)
			}
		}
	}
	r.Trivial = e.code == returns
}
