// Package os stands in for the standard os package under simulation.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jcorbin/anansi/zz/sim"
)

// The standard files.
var (
	Stdin  = NewFile(0, "/dev/stdin")
	Stdout = NewFile(1, "/dev/stdout")
	Stderr = NewFile(2, "/dev/stderr")
	Args   = []string{"prog"}
)

// SimReset restores the package's variables.
func SimReset() {
	Stdin = NewFile(0, "/dev/stdin")
	Stdout = NewFile(1, "/dev/stdout")
	Stderr = NewFile(2, "/dev/stderr")
	Args = []string{"prog"}
}

// File is an open file of the simulated kernel.
type File struct {
	fd     int
	name   string
	closed bool
	null   bool
}

func k() *sim.Kernel {
	if sim.S == nil {
		return nil
	}
	return sim.S.K
}

// NewFile wraps a descriptor.
func NewFile(fd uintptr, name string) *File { return &File{fd: int(fd), name: name} }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	if sim.S == nil && !f.null {
		return &PathError{Op: op, Path: f.name, Err: syscall.EBADF}
	}
	return nil
}

func (f *File) wrap(op string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &PathError{Op: op, Path: f.name, Err: e}
}

// Fd returns the descriptor.
func (f *File) Fd() uintptr {
	if f == nil || f.closed {
		return ^(uintptr(0))
	}
	return uintptr(f.fd)
}

// Name returns the name given to Open.
func (f *File) Name() string { return f.name }

// Read reads up to len(b) bytes.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if sim.S == nil {
		return 0, io.EOF
	}
	for {
		n, e := k().Read(f.fd, b)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return n, f.wrap("read", e)
		}
		if n == 0 && len(b) > 0 {
			return 0, io.EOF
		}
		return n, nil
	}
}

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	old, e := k().Seek(f.fd, 0, 1)
	if e == 0 {
		_, e = k().Seek(f.fd, off, 0)
	}
	if e != 0 {
		return 0, f.wrap("read", e)
	}
	n, err := io.ReadFull(f, b)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	k().Seek(f.fd, old, 0)
	return n, err
}

// Write writes len(b) bytes, like the Go runtime does on a descriptor that is
// not handled by its poller.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if sim.S == nil {
		return len(b), nil
	}
	nn := 0
	for {
		n, e := k().Write(f.fd, b[nn:])
		if n > 0 {
			nn += n
		}
		if nn == len(b) && e == 0 {
			return nn, nil
		}
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			if e == syscall.EPIPE && (f.fd == 1 || f.fd == 2) {
				sim.S.K.ExitBySignal("SIGPIPE")
			}
			return nn, f.wrap("write", e)
		}
		if n == 0 {
			return nn, &PathError{Op: "write", Path: f.name, Err: io.ErrUnexpectedEOF}
		}
	}
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	old, e := k().Seek(f.fd, 0, 1)
	if e == 0 {
		_, e = k().Seek(f.fd, off, 0)
	}
	if e != 0 {
		return 0, f.wrap("write", e)
	}
	n, err := f.Write(b)
	k().Seek(f.fd, old, 0)
	return n, err
}

// ReadFrom copies from a reader.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// Close closes the file.
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	if sim.S == nil {
		return nil
	}
	f.closed = true
	return f.wrap("close", k().CloseFd(f.fd))
}

// Seek moves the file offset.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	r, e := k().Seek(f.fd, off, whence)
	return r, f.wrap("seek", e)
}

// Truncate changes the size.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	return f.wrap("truncate", k().Truncate(f.fd, size))
}

// Sync commits the content.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	return f.wrap("sync", k().Sync(f.fd))
}

type fileInfo struct {
	name string
	size int64
	mode FileMode
	mt   int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() FileMode     { return i.mode }
func (i fileInfo) ModTime() time.Time { return time.Unix(0, i.mt).UTC() }
func (i fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i fileInfo) Sys() interface{}   { return nil }

func inodeInfo(in *sim.Inode) fileInfo {
	name := in.Path
	if i := strings.LastIndexByte(name, '/'); i >= 0 && i < len(name)-1 {
		name = name[i+1:]
	}
	fi := fileInfo{name: name, size: int64(len(in.Data)), mode: 0o644, mt: in.Mtime}
	if in.Dir {
		fi.mode = 0o755 | ModeDir
	}
	return fi
}

// Stat describes the file.
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	o, e := k().Fstat(f.fd)
	if e != 0 {
		return nil, f.wrap("stat", e)
	}
	if in := o.InodeOf(); in != nil {
		return inodeInfo(in), nil
	}
	fi := fileInfo{name: f.name, mode: 0o620 | ModeDevice | ModeCharDevice}
	if o.TTYOf() == nil && f.name != "/dev/null" {
		fi.mode = 0o600 | ModeNamedPipe
	}
	return fi, nil
}

// Chmod does nothing.
func (f *File) Chmod(FileMode) error { return f.check("chmod") }

// SetDeadline is not supported by these files.
func (f *File) SetDeadline(time.Time) error { return ErrNoDeadline }

// SetReadDeadline is not supported by these files.
func (f *File) SetReadDeadline(time.Time) error { return ErrNoDeadline }

// SetWriteDeadline is not supported by these files.
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

// OpenFile opens a file.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if sim.S == nil {
		if name == "/dev/null" {
			return &File{name: name, null: true}, nil
		}
		return nil, &PathError{Op: "open", Path: name, Err: syscall.EACCES}
	}
	fd, e := k().Open(name, flag)
	for e == syscall.EINTR {
		fd, e = k().Open(name, flag)
	}
	if e != 0 {
		return nil, &PathError{Op: "open", Path: name, Err: e}
	}
	return &File{fd: fd, name: name}, nil
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create creates or truncates.
func Create(name string) (*File, error) {
	return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666)
}

// Pipe makes a pipe.
func Pipe() (*File, *File, error) {
	if sim.S == nil {
		return nil, nil, &SyscallError{Syscall: "pipe2", Err: syscall.EMFILE}
	}
	_, r, w := k().NewPipe("|")
	return &File{fd: k().Install(-1, r), name: "|0"}, &File{fd: k().Install(-1, w), name: "|1"}, nil
}

// Stat describes a file.
func Stat(name string) (FileInfo, error) {
	in, e := k().Stat(name)
	if e != 0 {
		return nil, &PathError{Op: "stat", Path: name, Err: e}
	}
	return inodeInfo(in), nil
}

// Lstat describes a file.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// Remove removes a file.
func Remove(name string) error {
	if e := k().Remove(name); e != 0 {
		return &PathError{Op: "remove", Path: name, Err: e}
	}
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(path string) error {
	for _, p := range k().Paths() {
		if p == path || strings.HasPrefix(p, path+"/") {
			if err := Remove(p); err != nil {
				return err
			}
		}
	}
	return nil
}

// Rename renames a file.
func Rename(a, b string) error {
	if e := k().Rename(a, b); e != 0 {
		return &LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	return nil
}

// Truncate changes the size of a file.
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

// Mkdir makes a directory.
func Mkdir(name string, perm FileMode) error {
	if e := k().Mkdir(name); e != 0 {
		return &PathError{Op: "mkdir", Path: name, Err: e}
	}
	return nil
}

// MkdirAll makes directories.
func MkdirAll(name string, perm FileMode) error {
	if e := k().Mkdir(name); e != 0 && e != syscall.EEXIST {
		return &PathError{Op: "mkdir", Path: name, Err: e}
	}
	return nil
}

// Chmod does nothing.
func Chmod(name string, mode FileMode) error { return nil }

// CreateTemp makes a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for i := 0; ; i++ {
		name := dir + "/" + strings.Replace(pattern, "*", "", 1) + string(rune('a'+i%26)) + strings.Repeat("z", i/26)
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if !IsExist(err) {
			return f, err
		}
	}
}

// TempDir is /tmp.
func TempDir() string { return "/tmp" }

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
}

// Getenv reads the environment.
func Getenv(key string) string {
	if sim.S == nil {
		return ""
	}
	return k().Env[key]
}

// LookupEnv reads the environment.
func LookupEnv(key string) (string, bool) {
	if sim.S == nil {
		return "", false
	}
	v, ok := k().Env[key]
	return v, ok
}

// Setenv changes the environment.
func Setenv(key, val string) error {
	k().Env[key] = val
	return nil
}

// Unsetenv changes the environment.
func Unsetenv(key string) error {
	delete(k().Env, key)
	return nil
}

// Environ lists the environment.
func Environ() []string {
	var r []string
	for k, v := range k().Env {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

// ExpandEnv expands variables.
func ExpandEnv(s string) string { return real.Expand(s, Getenv) }

// Expand expands variables.
func Expand(s string, f func(string) string) string { return real.Expand(s, f) }

// UserHomeDir is $HOME.
func UserHomeDir() (string, error) {
	if h := Getenv("HOME"); h != "" {
		return h, nil
	}
	return "", errors.New("$HOME is not defined")
}

// Getwd is fixed.
func Getwd() (string, error) { return "/home/sim", nil }

// Hostname is fixed.
func Hostname() (string, error) { return "sim", nil }

// Exit ends the simulated process.
func Exit(code int) {
	if sim.S == nil {
		panic("os.Exit outside of a simulation")
	}
	k().Exit(code)
}

// Getpid returns the simulated process id.
func Getpid() int {
	if sim.S == nil {
		return 100
	}
	return k().CurProc().Pid
}

// Getppid is 1.
func Getppid() int { return 1 }

// Getuid is fixed.
func Getuid() int { return 1000 }

// Getgid is fixed.
func Getgid() int { return 1000 }

// Geteuid is fixed.
func Geteuid() int { return 1000 }

// Getpgrp returns the process group.
func Getpgrp() int {
	if sim.S == nil {
		return 100
	}
	return k().CurProc().Pgid
}

// Process is a simulated process.
type Process struct{ Pid int }

// FindProcess finds a process.
func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }

// Signal sends a signal.
func (p *Process) Signal(sig Signal) error {
	s, ok := sig.(syscall.Signal)
	if !ok {
		return errors.New("os: unsupported signal type")
	}
	if e := k().Kill(p.Pid, s); e != 0 {
		return e
	}
	return nil
}

// Kill kills the process.
func (p *Process) Kill() error { return p.Signal(syscall.SIGKILL) }

var _ fs.FileInfo = fileInfo{}

// DirEntry is an entry of a directory.
type DirEntry = fs.DirEntry

// ReadDir lists a directory.
func ReadDir(name string) ([]DirEntry, error) {
	var ents []DirEntry
	last := ""
	dir := strings.TrimSuffix(name, "/") + "/"
	if name == "." {
		dir = ""
	}
	found := false
	for _, p := range k().Paths() {
		if !strings.HasPrefix(p, dir) || p == dir {
			continue
		}
		found = true
		base, _, sub := strings.Cut(p[len(dir):], "/")
		if base == last || dir == "" && base == "" {
			continue
		}
		last = base
		fi := fileInfo{name: base, mode: ModeDir | 0o755}
		if !sub {
			in, e := k().Stat(p)
			if e != 0 {
				continue
			}
			fi = inodeInfo(in)
		}
		ents = append(ents, fs.FileInfoToDirEntry(fi))
	}
	if in, _ := k().Stat(name); in == nil && !found {
		return nil, &PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	return ents, nil
}

// MkdirTemp makes a temporary directory.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	name := dir + "/" + strings.Replace(pattern, "*", "", 1) + "dir"
	return name, MkdirAll(name, 0o700)
}

// Chtimes does nothing.
func Chtimes(name string, atime, mtime time.Time) error { return nil }

// Chown does nothing.
func Chown(name string, uid, gid int) error { return nil }

// Executable is the path of the program.
func Executable() (string, error) { return "/usr/bin/sim", nil }

// Getegid is the effective group.
func Getegid() int { return 1000 }

// Clearenv clears the environment.
func Clearenv() { k().Env = map[string]string{} }

// WriteTo writes what is left of the file to w.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// ProcessState is how a command ended.
type ProcessState struct {
	code   int
	signal string
}

// NewProcessState makes one, of a command killed by a signal if that's named.
func NewProcessState(code int, signal string) *ProcessState { return &ProcessState{code, signal} }

// ExitCode is the exit status, or -1.
func (p *ProcessState) ExitCode() int {
	if p == nil || p.signal != "" {
		return -1
	}
	return p.code
}

// Success reports an exit with status 0.
func (p *ProcessState) Success() bool { return p.signal == "" && p.code == 0 }

// Exited reports an exit.
func (p *ProcessState) Exited() bool { return p.signal == "" }

// Pid is the process id.
func (p *ProcessState) Pid() int { return 4242 }

// UserTime is 0.
func (p *ProcessState) UserTime() time.Duration { return 0 }

// SystemTime is 0.
func (p *ProcessState) SystemTime() time.Duration { return 0 }

func (p *ProcessState) String() string {
	switch {
	case p == nil:
		return "<nil>"
	case p.signal != "":
		return "signal: " + p.signal
	}
	return "exit status " + strconv.Itoa(p.code)
}
