package sim

import (
	"bytes"
	"syscall"
	"unsafe"
)

type inItem struct {
	b   []byte
	eof bool
}

// TTY is a simulated terminal device.
type TTY struct {
	k       *Kernel
	Name    string
	Termios syscall.Termios
	Cols    int
	Rows    int

	in      []inItem
	typed   int // bytes that have arrived
	Arrived []byte
	taken   int
	sticky  bool // permanent end of file
	hungup  bool

	// Cap is the capacity of the output buffer; used bytes are in flight.
	Cap  int
	used int
	// drain: every DrainEvery ns (drawn in [1,..]) up to DrainBytes leave
	DrainEvery int64
	DrainBytes int
	PausePct   int
	PauseMax   int64
	draining   bool
	WakeupSIG  int // percent: raise SIGIO when output space becomes available

	// Out is every byte accepted so far; Sink gets them as they are accepted.
	Out     []byte
	Sink    func(b []byte)
	MaxRead int

	// NotTTY makes ioctls fail with ENOTTY.
	NotTTY bool
}

// DefaultTermios is the state a shell leaves a terminal in.
func DefaultTermios() syscall.Termios {
	var t syscall.Termios
	t.Iflag = syscall.BRKINT | syscall.ICRNL | syscall.IXON | syscall.IMAXBEL
	t.Oflag = syscall.OPOST | syscall.ONLCR
	t.Cflag = syscall.CS8 | syscall.CREAD | syscall.B38400
	t.Lflag = syscall.ISIG | syscall.ICANON | syscall.IEXTEN | syscall.ECHO | syscall.ECHOE | syscall.ECHOK
	t.Cc[syscall.VINTR] = 3
	t.Cc[syscall.VQUIT] = 28
	t.Cc[syscall.VERASE] = 127
	t.Cc[syscall.VKILL] = 21
	t.Cc[syscall.VEOF] = 4
	t.Cc[syscall.VMIN] = 1
	t.Cc[syscall.VSUSP] = 26
	t.Ispeed = 38400
	t.Ospeed = 38400
	return t
}

// NewTTY makes a terminal.
func (k *Kernel) NewTTY(name string, cols, rows int) *TTY {
	t := &TTY{k: k, Name: name, Cols: cols, Rows: rows, Termios: DefaultTermios(),
		Cap: 4096, DrainEvery: 100000, DrainBytes: 4096}
	if k.Tty == nil {
		k.Tty = t
	}
	return t
}

func (t *TTY) tty() *TTY     { return t }
func (t *TTY) inode() *Inode { return nil }

// Type adds input bytes.
func (t *TTY) Type(b []byte) {
	if len(b) == 0 || t.hungup {
		return
	}
	t.Arrived = append(t.Arrived, b...)
	t.k.s.ev("type", int64(len(b)))
	if n := len(t.in); n > 0 && !t.in[n-1].eof {
		t.in[n-1].b = append(t.in[n-1].b, b...)
	} else {
		t.in = append(t.in, inItem{b: append([]byte(nil), b...)})
	}
	t.k.s.Tracef("typed %q", b)
	t.k.asyncIn(t)
}

// TypeEOF adds a one-time end of file to the input.
func (t *TTY) TypeEOF() {
	t.in = append(t.in, inItem{eof: true})
	t.k.s.Tracef("typed EOF")
	t.k.asyncIn(t)
}

// EndInput makes the input end for good after what was typed.
func (t *TTY) EndInput() {
	t.sticky = true
	t.k.s.Tracef("end of input")
	t.k.asyncIn(t)
}

// Hangup disconnects the terminal.
func (t *TTY) Hangup() {
	t.hungup = true
	t.sticky = true
	t.in = nil
	t.k.s.Tracef("hangup")
	t.k.asyncIn(t)
}

// Pending is the number of input bytes not yet read.
func (t *TTY) Pending() int {
	n := 0
	for _, it := range t.in {
		n += len(it.b)
	}
	return n
}

// PendingNow is the number of bytes a read could get now, before any EOF.
func (t *TTY) PendingNow() int {
	if len(t.in) == 0 || t.in[0].eof {
		return 0
	}
	return len(t.in[0].b)
}

// Taken is the number of input bytes read so far.
func (t *TTY) Taken() int { return t.taken }

func (t *TTY) canonical() bool { return t.Termios.Lflag&syscall.ICANON != 0 }

// Readable reports whether a read would return at once.
func (t *TTY) Readable() bool { return t.readable() }

func (t *TTY) readable() bool {
	if t.sticky {
		return true
	}
	if len(t.in) == 0 {
		return false
	}
	if t.in[0].eof {
		return true
	}
	if t.canonical() {
		return bytes.IndexByte(t.in[0].b, '\n') >= 0 || len(t.in) > 1
	}
	return true
}

func (t *TTY) read(k *Kernel, o *OFD, p []byte, limit int) (int, syscall.Errno) {
	if !t.readable() {
		if o.Flags&syscall.O_NONBLOCK != 0 {
			return 0, syscall.EAGAIN
		}
		k.s.Block("read "+t.Name, t.readable)
	}
	if len(t.in) == 0 {
		return 0, 0 // sticky end
	}
	if t.in[0].eof {
		t.in = t.in[1:]
		return 0, 0
	}
	b := t.in[0].b
	if t.canonical() && !t.sticky {
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			b = b[:i+1]
		}
	}
	if len(b) > len(p) {
		b = b[:len(p)]
	}
	if limit > 0 && len(b) > limit {
		b = b[:limit]
	}
	if t.MaxRead > 0 && len(b) > 1 {
		m := t.MaxRead
		if m > len(b) {
			m = len(b)
		}
		b = b[:m-k.s.C.Choose(m)]
	}
	n := copy(p, b)
	t.in[0].b = t.in[0].b[n:]
	if len(t.in[0].b) == 0 {
		t.in = t.in[1:]
	}
	t.taken += n
	return n, 0
}

func (t *TTY) write(k *Kernel, o *OFD, p []byte) (int, syscall.Errno) {
	total := 0
	for len(p) > 0 {
		if t.hungup {
			if total > 0 {
				return total, 0
			}
			return 0, syscall.EIO
		}
		n := t.Cap - t.used
		if n > len(p) {
			n = len(p)
		}
		if n <= 0 {
			if o.Flags&syscall.O_NONBLOCK != 0 {
				if total > 0 {
					return total, 0
				}
				k.s.Fault("tty.full")
				return 0, syscall.EAGAIN
			}
			k.s.Probe("tty.blocked")
			k.s.Block("write "+t.Name, func() bool { return t.hungup || t.used < t.Cap })
			continue
		}
		t.accept(p[:n])
		p = p[n:]
		total += n
	}
	return total, 0
}

func (t *TTY) accept(b []byte) {
	t.Out = append(t.Out, b...)
	t.used += len(b)
	if t.Sink != nil {
		t.Sink(b)
	}
	t.startDrain()
}

func (t *TTY) startDrain() {
	if t.draining || t.used == 0 {
		return
	}
	t.draining = true
	s := t.k.s
	d := t.DrainEvery
	if t.PausePct > 0 && s.Pct(t.PausePct) {
		d += int64(1+s.C.Choose(1000)) * t.PauseMax / 1000
		s.Fault("tty.pause")
	}
	s.After(d, func() {
		t.draining = false
		n := t.DrainBytes
		if n > t.used {
			n = t.used
		}
		t.used -= n
		if t.WakeupSIG > 0 && s.Pct(t.WakeupSIG) {
			s.Fault("sigio.spurious")
			t.k.asyncIn(t)
		}
		t.startDrain()
	})
}

// Backlog is the number of accepted bytes still in the output buffer.
func (t *TTY) Backlog() int { return t.used }

// Resize changes the window size and raises SIGWINCH.
func (t *TTY) Resize(cols, rows int) {
	if cols == t.Cols && rows == t.Rows {
		return
	}
	t.Cols, t.Rows = cols, rows
	t.k.s.Tracef("resize %dx%d", cols, rows)
	t.k.Raise(t.k.Prog, syscall.SIGWINCH)
}

type winsize struct{ row, col, x, y uint16 }

// Ioctl is ioctl(2).
func (k *Kernel) Ioctl(fd int, req uintptr, ptr unsafe.Pointer) syscall.Errno {
	o := k.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	op := &Op{OFD: o}
	switch req {
	case syscall.TCGETS:
		op.Kind = "tcgets"
	case syscall.TCSETS, syscall.TCSETS + 1, syscall.TCSETS + 2:
		op.Kind = "tcsets"
	case syscall.TIOCGWINSZ:
		op.Kind = "winsz"
	default:
		k.s.Trouble = "unsupported ioctl"
		return syscall.EINVAL
	}
	k.begin(op)
	t := o.Dev.tty()
	switch {
	case op.Err != 0:
		op.Res = op.Err
	case t == nil || t.NotTTY:
		op.Res = syscall.ENOTTY
	case t.hungup:
		op.Res = syscall.EIO
	case req == syscall.TCGETS:
		*(*syscall.Termios)(ptr) = t.Termios
	case req == syscall.TIOCGWINSZ:
		w := (*winsize)(ptr)
		*w = winsize{row: uint16(t.Rows), col: uint16(t.Cols)}
		op.N = t.Cols*1000 + t.Rows
	default:
		// the kernel keeps fields that glibc's struct does not have
		t.Termios = *(*syscall.Termios)(ptr)
	}
	k.end(op)
	return op.Res
}
