package sim

import (
	"sort"
	"syscall"
)

// Op is one simulated system call, offered to the fault hook before it is
// performed and to the observer after.
type Op struct {
	Kind  string // read write getfl setfl setown tcgets tcsets winsz open close sync ...
	OFD   *OFD
	Path  string
	Len   int
	Arg   int
	Limit int           // in: bytes to process at most before Err (read, write); -1: none
	Err   syscall.Errno // in: error to inject (after Limit bytes, 0 = at once)
	N     int           // out
	Res   syscall.Errno // out
	Block int64         // out: simulated ns spent blocked
	Start int64
	Flags int // descriptor flags at the call
}

// Injected reports whether a fault was put into the operation.
func (op *Op) Injected() bool { return op.Err != 0 || op.Limit >= 0 }

// OFD is an open file description.
type OFD struct {
	ID    int
	Name  string
	Flags int
	Own   int
	Dev   Device
	Off   int64
	refs  int
}

// Device is something that can be read and written.
type Device interface {
	read(k *Kernel, o *OFD, p []byte, limit int) (int, syscall.Errno)
	write(k *Kernel, o *OFD, p []byte) (int, syscall.Errno)
	tty() *TTY
	inode() *Inode
}

// Kernel is the simulated operating system.
type Kernel struct {
	CPUTime int64 // used by the process as of the last getrusage, in us

	s *Sim

	Procs []*Proc
	Prog  *Proc

	fds    map[int]*OFD
	nextFd int
	nextID int
	Opens  []*OFD

	Disk map[string]*Inode
	// Tty is the controlling terminal.
	Tty *TTY
	Env map[string]string

	// OnOp decides faults; Observe sees results.
	OnOp    func(op *Op)
	Observe func(op *Op)
	// OnStop runs when a process is stopped.
	OnStop func(p *Proc)

	// OnExec is what running a command does.
	OnExec func(args []string) (ExecResult, syscall.Errno)

	// MaxSigDelay bounds the delay of signal delivery in ns.
	MaxSigDelay int64
	Delivered   map[syscall.Signal]int
	Raised      map[syscall.Signal]int
	Coalesced   int

	// Space is the number of bytes left on the disk; -1: unlimited
	Space int64

	Rusage  int64
	Profile string
}

func newKernel(s *Sim) *Kernel {
	k := &Kernel{
		s: s, fds: make(map[int]*OFD), nextFd: 1000, Disk: make(map[string]*Inode),
		Env:       map[string]string{"HOME": "/home/sim", "TERM": "xterm"},
		Delivered: make(map[syscall.Signal]int), Raised: make(map[syscall.Signal]int),
		Space: -1, MaxSigDelay: 2e6,
	}
	k.Prog = k.NewProc("prog")
	return k
}

// NewProc makes a process.
func (k *Kernel) NewProc(name string) *Proc {
	p := &Proc{Name: name, Pid: 100 + len(k.Procs), k: k, Sent: make(map[syscall.Signal]int)}
	p.Pgid = p.Pid
	k.Procs = append(k.Procs, p)
	return p
}

// CurProc is the process of the running task; harness tasks act as Prog.
func (k *Kernel) CurProc() *Proc {
	if t := k.s.cur; t != nil && k.s.nested == 0 && t.proc != nil {
		return t.proc
	}
	return k.Prog
}

// ExecResult is how a command goes.
type ExecResult struct {
	Out, ErrOut []byte
	Code        int
	Signal      string
	Duration    int64
}

// Exec starts a command.
func (k *Kernel) Exec(args []string) (ExecResult, syscall.Errno) {
	k.s.checkKilled()
	Point()
	if k.OnExec == nil {
		return ExecResult{}, syscall.ENOENT
	}
	return k.OnExec(append([]string(nil), args...))
}

// ---- file descriptors

// NewOFD makes an open file description.
func (k *Kernel) NewOFD(name string, dev Device, flags int) *OFD {
	k.nextID++
	o := &OFD{ID: k.nextID, Name: name, Dev: dev, Flags: flags}
	k.Opens = append(k.Opens, o)
	return o
}

// Install puts an open file description at the given descriptor (or -1: any).
func (k *Kernel) Install(fd int, o *OFD) int {
	if fd < 0 {
		fd = k.nextFd
		k.nextFd++
	}
	k.fds[fd] = o
	o.refs++
	return fd
}

// Lookup finds a descriptor.
func (k *Kernel) Lookup(fd int) *OFD { return k.fds[fd] }

// FDs counts the open descriptors.
func (k *Kernel) FDs() int { return len(k.fds) }

func (k *Kernel) begin(op *Op) {
	s := k.s
	s.checkKilled()
	Point()
	op.Limit = -1
	op.Start = s.Now()
	if op.OFD != nil {
		op.Flags = op.OFD.Flags
	}
	if k.OnOp != nil {
		k.OnOp(op)
		if op.Err != 0 || op.Limit >= 0 {
			name := "fault." + op.Kind
			if op.Err != 0 {
				name += "." + ErrName(op.Err)
			} else {
				name += ".short"
			}
			s.Fault(name)
		}
	}
}

func (k *Kernel) end(op *Op) {
	s := k.s
	op.Block = s.Now() - op.Start
	s.ev(op.Kind, int64(op.N), int64(op.Res))
	if s.Verbose {
		name := op.Path
		if op.OFD != nil {
			name = op.OFD.Name
		}
		r := ""
		if op.Res != 0 {
			r = " " + ErrName(op.Res)
		}
		s.Tracef("%s %s len=%d arg=%#x -> %d%s", op.Kind, name, op.Len, op.Arg, op.N, r)
	}
	if k.Observe != nil {
		k.Observe(op)
	}
	Point()
}

// ErrName names an errno.
func ErrName(e syscall.Errno) string {
	switch e {
	case 0:
		return "ok"
	case syscall.EAGAIN:
		return "EAGAIN"
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EPIPE:
		return "EPIPE"
	case syscall.EINTR:
		return "EINTR"
	case syscall.ENOTTY:
		return "ENOTTY"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EBADF:
		return "EBADF"
	case syscall.EPERM:
		return "EPERM"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EINVAL:
		return "EINVAL"
	}
	return e.Error()
}

// Read is read(2).
func (k *Kernel) Read(fd int, p []byte) (int, syscall.Errno) {
	o := k.fds[fd]
	if o == nil {
		return 0, syscall.EBADF
	}
	if o.Flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	op := &Op{Kind: "read", OFD: o, Len: len(p)}
	k.begin(op)
	if op.Err != 0 {
		op.Res = op.Err
	} else if len(p) > 0 {
		op.N, op.Res = o.Dev.read(k, o, p, op.Limit)
		k.s.checkKilled()
		if op.N > 0 {
			k.s.MixBytes(p[:op.N])
		}
	}
	k.end(op)
	return op.N, op.Res
}

// Write is write(2).
func (k *Kernel) Write(fd int, p []byte) (int, syscall.Errno) {
	o := k.fds[fd]
	if o == nil {
		return 0, syscall.EBADF
	}
	if o.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	op := &Op{Kind: "write", OFD: o, Len: len(p)}
	k.begin(op)
	q := p
	if op.Limit >= 0 && op.Limit < len(q) {
		q = q[:op.Limit]
	}
	if len(q) > 0 && (op.Err == 0 || op.Limit > 0) {
		op.N, op.Res = o.Dev.write(k, o, q)
		k.s.checkKilled()
		k.s.MixBytes(p[:op.N])
	}
	if op.Err != 0 && op.N == 0 {
		// an error after a partial transfer shows on the next call
		op.Res = op.Err
	}
	k.end(op)
	return op.N, op.Res
}

// CloseFd is close(2).
func (k *Kernel) CloseFd(fd int) syscall.Errno {
	o := k.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	op := &Op{Kind: "close", OFD: o}
	k.begin(op)
	delete(k.fds, fd)
	if o.refs--; o.refs == 0 {
		if c, ok := o.Dev.(interface{ close(o *OFD) }); ok {
			c.close(o)
		}
	}
	op.Res = op.Err
	k.end(op)
	return op.Res
}

const oLARGEFILE = 0x8000

// setableFlags are the flags F_SETFL may change.
const setableFlags = syscall.O_APPEND | syscall.O_ASYNC | syscall.O_NONBLOCK | syscall.O_DIRECT | syscall.O_NOATIME

// Fcntl is fcntl(2).
func (k *Kernel) Fcntl(fd int, cmd, arg int) (int, syscall.Errno) {
	o := k.fds[fd]
	if o == nil {
		return 0, syscall.EBADF
	}
	op := &Op{OFD: o, Arg: arg}
	switch cmd {
	case syscall.F_GETFL:
		op.Kind = "getfl"
	case syscall.F_SETFL:
		op.Kind = "setfl"
	case syscall.F_SETOWN:
		op.Kind = "setown"
	case syscall.F_GETOWN:
		op.Kind = "getown"
	case syscall.F_GETFD, syscall.F_SETFD:
		op.Kind = "fd"
	default:
		k.s.Trouble = "unsupported fcntl"
		return 0, syscall.EINVAL
	}
	k.begin(op)
	switch {
	case op.Err != 0:
		op.Res = op.Err
	case cmd == syscall.F_GETFL:
		op.N = o.Flags
	case cmd == syscall.F_SETFL:
		o.Flags = o.Flags&^setableFlags | arg&setableFlags
		if o.Flags&syscall.O_ASYNC != 0 && o.Own == 0 && o.Dev.tty() != nil {
			// enabling fasync on a tty sets the foreground process group as owner
			o.Own = k.Prog.Pid
		}
	case cmd == syscall.F_SETOWN:
		o.Own = arg
	case cmd == syscall.F_GETOWN:
		op.N = o.Own
	}
	k.end(op)
	return op.N, op.Res
}

// ---- /dev/null

// Null is /dev/null.
type Null struct{}

func (Null) read(k *Kernel, o *OFD, p []byte, limit int) (int, syscall.Errno) { return 0, 0 }
func (Null) write(k *Kernel, o *OFD, p []byte) (int, syscall.Errno)           { return len(p), 0 }
func (Null) tty() *TTY                                                        { return nil }
func (Null) inode() *Inode                                                    { return nil }

// ---- pipes

// Pipe is a simulated pipe.
type Pipe struct {
	Cap     int // capacity in bytes
	buf     []byte
	writers int
	readers int
	// MaxRead bounds how much one read returns, drawn per read; 0: unbounded
	MaxRead int
	Total   []byte // everything written so far
	Taken   int    // bytes read so far
	wclosed bool
	rclosed bool
	OnRead  func(n int)
}

// PipeEnd is one end of a pipe.
type PipeEnd struct {
	*Pipe
	write_ bool
}

// NewPipe makes a pipe and its two open file descriptions.
func (k *Kernel) NewPipe(name string) (p *Pipe, r, w *OFD) {
	p = &Pipe{Cap: 65536}
	r = k.NewOFD(name, PipeEnd{p, false}, syscall.O_RDONLY)
	w = k.NewOFD(name, PipeEnd{p, true}, syscall.O_WRONLY)
	return p, r, w
}

// Put adds bytes from outside.
func (p *Pipe) Put(k *Kernel, b []byte) {
	p.buf = append(p.buf, b...)
	p.Total = append(p.Total, b...)
	k.asyncIn(p)
}

// CloseWrite closes the write side from outside.
func (p *Pipe) CloseWrite() { p.wclosed = true }

// ReopenWrite opens the write side again (like a fifo).
func (p *Pipe) ReopenWrite() { p.wclosed = false }

// CloseRead closes the read side from outside.
func (p *Pipe) CloseRead() { p.rclosed = true }

// Readable reports whether a read would return at once.
func (p *Pipe) Readable() bool { return len(p.buf) > 0 || p.wclosed }

// Buffered returns the bytes inside the pipe.
func (p *Pipe) Buffered() []byte { return p.buf }

// Take removes n bytes from outside.
func (p *Pipe) Take(n int) []byte {
	if n > len(p.buf) {
		n = len(p.buf)
	}
	b := p.buf[:n:n]
	p.buf = p.buf[n:]
	p.Taken += n
	return b
}

func (e PipeEnd) tty() *TTY     { return nil }
func (e PipeEnd) inode() *Inode { return nil }

func (e PipeEnd) read(k *Kernel, o *OFD, p []byte, limit int) (int, syscall.Errno) {
	if len(e.buf) == 0 && !e.wclosed {
		if o.Flags&syscall.O_NONBLOCK != 0 {
			return 0, syscall.EAGAIN
		}
		k.s.Block("read "+o.Name, func() bool { return len(e.buf) > 0 || e.wclosed })
	}
	n := len(e.buf)
	if n > len(p) {
		n = len(p)
	}
	if limit > 0 && n > limit {
		n = limit
	}
	if e.MaxRead > 0 && n > 1 {
		m := e.MaxRead
		if m > n {
			m = n
		}
		n = m - k.s.C.Choose(m)
	}
	copy(p, e.buf[:n])
	e.buf = e.buf[n:]
	e.Pipe.Taken += n
	if e.OnRead != nil {
		e.OnRead(n)
	}
	return n, 0
}

func (e PipeEnd) write(k *Kernel, o *OFD, p []byte) (int, syscall.Errno) {
	total := 0
	for len(p) > 0 {
		if e.rclosed {
			return total, syscall.EPIPE
		}
		n := e.Cap - len(e.buf)
		if n > len(p) {
			n = len(p)
		}
		if n <= 0 {
			if o.Flags&syscall.O_NONBLOCK != 0 {
				if total > 0 {
					return total, 0
				}
				return 0, syscall.EAGAIN
			}
			k.s.Block("write "+o.Name, func() bool { return e.rclosed || len(e.buf) < e.Cap })
			continue
		}
		e.Pipe.buf = append(e.Pipe.buf, p[:n]...)
		e.Pipe.Total = append(e.Pipe.Total, p[:n]...)
		p = p[n:]
		total += n
	}
	return total, 0
}

func (e PipeEnd) close(o *OFD) {
	if e.write_ {
		e.Pipe.wclosed = true
	} else {
		e.Pipe.rclosed = true
	}
}

// asyncIn raises SIGIO for descriptors in async mode on a device.
func (k *Kernel) asyncIn(dev interface{}) {
	for _, o := range k.Opens {
		if o.refs <= 0 || o.Flags&syscall.O_ASYNC == 0 || o.Own == 0 {
			continue
		}
		same := false
		switch d := o.Dev.(type) {
		case PipeEnd:
			same = d.Pipe == dev
		case *TTY:
			same = d == dev
		}
		if !same {
			continue
		}
		for _, p := range k.Procs {
			if p.Pid == o.Own || -p.Pgid == o.Own {
				k.Raise(p, syscall.SIGIO)
			}
		}
	}
}

// ---- signals

type sigReg struct {
	id   interface{}
	all  bool
	set  map[syscall.Signal]bool
	send func(sig syscall.Signal) bool
}

// Notify registers send for the given signals (none: all).
func (k *Kernel) Notify(id interface{}, send func(sig syscall.Signal) bool, sigs ...syscall.Signal) {
	k.s.checkKilled()
	Point()
	p := k.CurProc()
	var r *sigReg
	for _, o := range p.sigs {
		if o.id == id {
			r = o
		}
	}
	if r == nil {
		r = &sigReg{id: id, set: make(map[syscall.Signal]bool), send: send}
		p.sigs = append(p.sigs, r)
	}
	if len(sigs) == 0 {
		r.all = true
	}
	for _, sig := range sigs {
		r.set[sig] = true
	}
	Point()
}

// StopNotify unregisters a channel.
func (k *Kernel) StopNotify(id interface{}) {
	k.s.checkKilled()
	Point()
	p := k.CurProc()
	for i, o := range p.sigs {
		if o.id == id {
			p.sigs = append(p.sigs[:i:i], p.sigs[i+1:]...)
			break
		}
	}
	Point()
}

// ResetSignals undoes Notify for the given signals (none: all).
func (k *Kernel) ResetSignals(sigs ...syscall.Signal) {
	p := k.CurProc()
	for _, r := range p.sigs {
		if len(sigs) == 0 {
			r.set = make(map[syscall.Signal]bool)
			r.all = false
		}
		for _, sig := range sigs {
			delete(r.set, sig)
		}
	}
}

// Registered counts registrations for a signal.
func (k *Kernel) Registered(p *Proc, sig syscall.Signal) int {
	n := 0
	for _, r := range p.sigs {
		if r.all || r.set[sig] {
			n++
		}
	}
	return n
}

// Registrations counts all registered channels.
func (k *Kernel) Registrations(p *Proc) int {
	n := 0
	for _, r := range p.sigs {
		if r.all || len(r.set) > 0 {
			n++
		}
	}
	return n
}

// Raise sends a signal to a process; standard signals coalesce.
func (k *Kernel) Raise(p *Proc, sig syscall.Signal) {
	s := k.s
	if p.Dead {
		return
	}
	k.Raised[sig]++
	p.Sent[sig]++
	if sig == syscall.SIGCONT {
		if p.Stopped {
			p.Stopped = false
			s.Tracef("%s continued", p.Name)
			for _, d := range p.held {
				k.deliverLater(p, d)
			}
			p.held = nil
		}
		p.dropPending(syscall.SIGTSTP)
		p.dropPending(syscall.SIGSTOP)
	}
	for _, o := range p.pending {
		if o == int(sig) {
			k.Coalesced++
			return
		}
	}
	p.pending = append(p.pending, int(sig))
	k.deliverLater(p, sig)
}

func (p *Proc) dropPending(sig syscall.Signal) bool {
	for i, o := range p.pending {
		if o == int(sig) {
			p.pending = append(p.pending[:i:i], p.pending[i+1:]...)
			return true
		}
	}
	return false
}

func (k *Kernel) deliverLater(p *Proc, sig syscall.Signal) {
	s := k.s
	var d int64
	switch s.C.Choose(4) {
	case 0:
	case 1:
		d = int64(s.C.Choose(8)) * s.Slow
	case 2:
		d = int64(s.C.Choose(64)) * s.Slow
	case 3:
		d = int64(s.C.Choose(1000)) * k.MaxSigDelay / 1000
	}
	s.After(d, func() { k.deliver(p, sig) })
}

func (k *Kernel) deliver(p *Proc, sig syscall.Signal) {
	s := k.s
	if p.Dead {
		return
	}
	if p.Stopped {
		p.held = append(p.held, sig)
		return
	}
	if !p.dropPending(sig) {
		return
	}
	k.Delivered[sig]++
	s.ev("sig", int64(sig))
	s.sched(int64(sig) + 1000)
	handled := false
	for _, r := range append([]*sigReg(nil), p.sigs...) {
		if r.all || r.set[sig] {
			handled = true
			ok := r.send(sig)
			s.Tracef("signal %v delivered to channel: %v", sig, ok)
		}
	}
	if handled {
		return
	}
	switch sig {
	case syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP, syscall.SIGQUIT, syscall.SIGKILL:
		s.Tracef("killed by %v", sig)
		k.kill(p, sig.String())
	case syscall.SIGTSTP, syscall.SIGSTOP, syscall.SIGTTIN, syscall.SIGTTOU:
		p.Stopped = true
		s.Fault("stop")
		if k.OnStop != nil {
			k.OnStop(p)
		}
		s.preempt = 0
	default:
		s.Tracef("signal %v ignored", sig)
	}
}

// Kill is kill(2).
func (k *Kernel) Kill(pid int, sig syscall.Signal) syscall.Errno {
	op := &Op{Kind: "kill", Arg: int(sig)}
	k.begin(op)
	op.Res = op.Err
	if op.Res == 0 {
		found := false
		for _, p := range k.Procs {
			if pid == 0 && p.Pgid == k.CurProc().Pgid || p.Pid == pid || p.Pgid == -pid || pid == -1 {
				found = true
				if sig != 0 {
					k.Raise(p, sig)
				}
			}
		}
		if !found {
			op.Res = syscall.ESRCH
		}
	}
	k.end(op)
	return op.Res
}

// kill ends a process without letting its tasks run again.
func (k *Kernel) kill(p *Proc, by string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.KilledBy = by
	k.endTasks(p)
}

func (k *Kernel) endTasks(p *Proc) {
	s := k.s
	for _, t := range append([]*Task(nil), s.live...) {
		if t.proc == p {
			t.killed = true
			if t != s.cur {
				s.dropLive(t)
				nested := s.nested
				s.nested = 0
				s.reap(t)
				s.nested = nested
			}
		}
	}
	s.preempt = 0
}

// Exit is exit(2) called by the current process.
func (k *Kernel) Exit(code int) {
	s := k.s
	s.checkKilled()
	p := k.CurProc()
	if s.cur.proc == nil {
		s.Trouble = "os.Exit called from a harness task"
		s.abort()
	}
	s.Tracef("exit %d", code)
	p.Dead = true
	p.Exited = true
	p.ExitCode = code
	k.endTasks(p)
	s.die()
}

// ExitBySignal ends the current process as a fatal signal does.
func (k *Kernel) ExitBySignal(name string) {
	s := k.s
	s.checkKilled()
	p := k.CurProc()
	if s.cur.proc == nil {
		s.Trouble = name + " in a harness task"
		s.abort()
	}
	p.Dead = true
	p.KilledBy = name
	k.endTasks(p)
	s.die()
}

// Getrusage is getrusage(2).
func (k *Kernel) Getrusage() syscall.Errno {
	op := &Op{Kind: "getrusage"}
	k.begin(op)
	op.Res = op.Err
	k.CPUTime = k.s.Elapsed() / 1000
	k.end(op)
	return op.Res
}

// ---- disk

// Inode is a file or directory on the simulated disk.
type Inode struct {
	Path    string
	Data    []byte
	Dir     bool
	Removed bool
	// Writes are the sizes of the file after each write call, for crash points
	Writes []int
	// MaxRead bounds a single read; 0: unbounded
	MaxRead int
	Mode    uint32
	Mtime   int64
}

// MkFile creates a file on the disk.
func (k *Kernel) MkFile(path string, data []byte) *Inode {
	in := &Inode{Path: path, Data: append([]byte(nil), data...)}
	k.Disk[path] = in
	return in
}

// File returns a file's content.
func (k *Kernel) File(path string) ([]byte, bool) {
	in := k.Disk[path]
	if in == nil {
		return nil, false
	}
	return in.Data, true
}

// Paths lists all files.
func (k *Kernel) Paths() []string {
	var r []string
	for p := range k.Disk {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

func (in *Inode) tty() *TTY     { return nil }
func (in *Inode) inode() *Inode { return in }

func (in *Inode) read(k *Kernel, o *OFD, p []byte, limit int) (int, syscall.Errno) {
	if in.Dir {
		return 0, syscall.EISDIR
	}
	if o.Off >= int64(len(in.Data)) {
		return 0, 0
	}
	b := in.Data[o.Off:]
	if len(b) > len(p) {
		b = b[:len(p)]
	}
	if limit > 0 && len(b) > limit {
		b = b[:limit]
	}
	if in.MaxRead > 0 && len(b) > 1 {
		m := in.MaxRead
		if m > len(b) {
			m = len(b)
		}
		b = b[:m-k.s.C.Choose(m)]
	}
	copy(p, b)
	o.Off += int64(len(b))
	return len(b), 0
}

func (in *Inode) write(k *Kernel, o *OFD, p []byte) (int, syscall.Errno) {
	if o.Flags&syscall.O_APPEND != 0 {
		o.Off = int64(len(in.Data))
	}
	n := len(p)
	end := o.Off + int64(n)
	if grow := end - int64(len(in.Data)); grow > 0 && k.Space >= 0 {
		if grow > k.Space {
			k.s.Fault("disk.full")
			end -= grow - k.Space
			n = int(end - o.Off)
			if n <= 0 {
				return 0, syscall.ENOSPC
			}
		}
		k.Space -= end - int64(len(in.Data))
	}
	for int64(len(in.Data)) < end {
		in.Data = append(in.Data, 0)
	}
	copy(in.Data[o.Off:end], p[:n])
	o.Off = end
	in.Writes = append(in.Writes, len(in.Data))
	in.Mtime = k.s.base + k.s.now
	return n, 0
}

// Open is open(2).
func (k *Kernel) Open(path string, flags int) (int, syscall.Errno) {
	op := &Op{Kind: "open", Path: path, Arg: flags}
	k.begin(op)
	fd, e := -1, op.Err
	if e == 0 {
		fd, e = k.open(path, flags)
	}
	op.N, op.Res = fd, e
	k.end(op)
	return fd, e
}

func (k *Kernel) open(path string, flags int) (int, syscall.Errno) {
	of := flags &^ (syscall.O_CREAT | syscall.O_EXCL | syscall.O_TRUNC | syscall.O_CLOEXEC | syscall.O_NOCTTY)
	of |= oLARGEFILE
	switch path {
	case "/dev/null":
		return k.Install(-1, k.NewOFD(path, Null{}, of)), 0
	case "/dev/tty":
		if k.Tty == nil {
			return -1, syscall.ENXIO
		}
		return k.Install(-1, k.NewOFD(path, k.Tty, of)), 0
	case "/dev/stdin", "/dev/stdout", "/dev/stderr":
		fd := map[string]int{"/dev/stdin": 0, "/dev/stdout": 1, "/dev/stderr": 2}[path]
		if o := k.fds[fd]; o != nil {
			return k.Install(-1, k.NewOFD(path, o.Dev, of)), 0
		}
		return -1, syscall.ENXIO
	}
	in := k.Disk[path]
	if in == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT
		}
		if path == "" {
			return -1, syscall.ENOENT
		}
		in = &Inode{Path: path, Mtime: k.s.base + k.s.now}
		k.Disk[path] = in
	} else {
		if flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
			return -1, syscall.EEXIST
		}
		if in.Dir && flags&syscall.O_ACCMODE != syscall.O_RDONLY {
			return -1, syscall.EISDIR
		}
		if flags&syscall.O_TRUNC != 0 {
			if k.Space >= 0 {
				k.Space += int64(len(in.Data))
			}
			in.Data = nil
		}
	}
	return k.Install(-1, k.NewOFD(path, in, of)), 0
}

// Seek is lseek(2).
func (k *Kernel) Seek(fd int, off int64, whence int) (int64, syscall.Errno) {
	o := k.fds[fd]
	if o == nil {
		return 0, syscall.EBADF
	}
	op := &Op{Kind: "seek", OFD: o, Arg: int(off)}
	k.begin(op)
	var r int64
	in := o.Dev.inode()
	switch {
	case op.Err != 0:
		op.Res = op.Err
	case in == nil:
		op.Res = syscall.ESPIPE
	default:
		r = off
		switch whence {
		case 1:
			r += o.Off
		case 2:
			r += int64(len(in.Data))
		}
		if r < 0 {
			op.Res = syscall.EINVAL
			r = 0
		} else {
			o.Off = r
		}
	}
	op.N = int(r)
	k.end(op)
	return r, op.Res
}

// Truncate is ftruncate(2).
func (k *Kernel) Truncate(fd int, size int64) syscall.Errno {
	o := k.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	op := &Op{Kind: "truncate", OFD: o, Arg: int(size)}
	k.begin(op)
	in := o.Dev.inode()
	switch {
	case op.Err != 0:
		op.Res = op.Err
	case in == nil || size < 0:
		op.Res = syscall.EINVAL
	default:
		for int64(len(in.Data)) < size {
			in.Data = append(in.Data, 0)
		}
		in.Data = in.Data[:size]
	}
	k.end(op)
	return op.Res
}

// Sync is fsync(2).
func (k *Kernel) Sync(fd int) syscall.Errno {
	o := k.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	op := &Op{Kind: "sync", OFD: o}
	k.begin(op)
	op.Res = op.Err
	if op.Res == 0 && o.Dev.inode() == nil {
		op.Res = syscall.EINVAL
	}
	k.end(op)
	return op.Res
}

// Stat is stat(2).
func (k *Kernel) Stat(path string) (*Inode, syscall.Errno) {
	op := &Op{Kind: "stat", Path: path}
	k.begin(op)
	op.Res = op.Err
	in := k.Disk[path]
	if op.Res == 0 && in == nil {
		op.Res = syscall.ENOENT
	}
	k.end(op)
	return in, op.Res
}

// Fstat is fstat(2).
func (k *Kernel) Fstat(fd int) (*OFD, syscall.Errno) {
	o := k.fds[fd]
	if o == nil {
		return nil, syscall.EBADF
	}
	op := &Op{Kind: "stat", OFD: o}
	k.begin(op)
	op.Res = op.Err
	k.end(op)
	return o, op.Res
}

// InodeOf returns the file behind a description, if any.
func (o *OFD) InodeOf() *Inode {
	if o == nil || o.Dev == nil {
		return nil
	}
	return o.Dev.inode()
}

// TTYOf returns the terminal behind a description, if any.
func (o *OFD) TTYOf() *TTY {
	if o == nil || o.Dev == nil {
		return nil
	}
	return o.Dev.tty()
}

// Remove is unlink(2).
func (k *Kernel) Remove(path string) syscall.Errno {
	op := &Op{Kind: "remove", Path: path}
	k.begin(op)
	op.Res = op.Err
	in := k.Disk[path]
	if op.Res == 0 && in == nil {
		op.Res = syscall.ENOENT
	}
	if op.Res == 0 {
		in.Removed = true
		delete(k.Disk, path)
	}
	k.end(op)
	return op.Res
}

// Rename is rename(2).
func (k *Kernel) Rename(a, b string) syscall.Errno {
	op := &Op{Kind: "rename", Path: a}
	k.begin(op)
	op.Res = op.Err
	in := k.Disk[a]
	if op.Res == 0 && in == nil {
		op.Res = syscall.ENOENT
	}
	if op.Res == 0 {
		delete(k.Disk, a)
		in.Path = b
		k.Disk[b] = in
	}
	k.end(op)
	return op.Res
}

// Mkdir is mkdir(2).
func (k *Kernel) Mkdir(path string) syscall.Errno {
	op := &Op{Kind: "mkdir", Path: path}
	k.begin(op)
	op.Res = op.Err
	if op.Res == 0 && k.Disk[path] != nil {
		op.Res = syscall.EEXIST
	}
	if op.Res == 0 {
		k.Disk[path] = &Inode{Path: path, Dir: true}
	}
	k.end(op)
	return op.Res
}
