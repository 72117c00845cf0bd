// Package exec stands in for os/exec under simulation: commands are run by
// the simulated kernel.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	real "os/exec"
	"strings"
	"syscall"

	simos "github.com/jcorbin/anansi/zz/shim/os"
	"github.com/jcorbin/anansi/zz/sim"
)

// Errors.
var (
	ErrNotFound  = real.ErrNotFound
	ErrDot       = real.ErrDot
	ErrWaitDelay = real.ErrWaitDelay
)

// Error is a failure to start a command.
type Error = real.Error

// ExitError is an unsuccessful exit of a command.
type ExitError struct {
	*simos.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd is a command.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	SysProcAttr  *syscall.SysProcAttr
	ProcessState *simos.ProcessState
	Err          error
	Cancel       func() error

	started, waited bool
	res             sim.ExecResult
	end             int64
	ctx             context.Context
}

// Command makes a command.
func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if name == "" {
		c.Err = &Error{Name: name, Err: ErrNotFound}
	}
	return c
}

// CommandContext makes a command; it is not ended by the context.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

// LookPath finds any command.
func LookPath(file string) (string, error) {
	if file == "" {
		return "", &Error{Name: file, Err: ErrNotFound}
	}
	return file, nil
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

// Environ is the command's environment.
func (c *Cmd) Environ() []string { return c.Env }

// Start starts the command.
func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.started {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	c.started = true
	res, e := sim.S.K.Exec(c.Args)
	if e != 0 {
		if e == syscall.ENOENT {
			return &Error{Name: c.Path, Err: ErrNotFound}
		}
		return &simos.PathError{Op: "fork/exec", Path: c.Path, Err: e}
	}
	c.res, c.end = res, sim.S.Now()+res.Duration
	return nil
}

// Wait waits for the command to end.
func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	if d := c.end - sim.S.Now(); d > 0 {
		sim.S.Sleep(d)
	}
	c.ProcessState = simos.NewProcessState(c.res.Code, c.res.Signal)
	var err error
	if c.Stdout != nil {
		_, err = c.Stdout.Write(c.res.Out)
	}
	if c.Stderr != nil {
		if _, e := c.Stderr.Write(c.res.ErrOut); err == nil {
			err = e
		}
	}
	if !c.ProcessState.Success() {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return err
}

// Run runs the command.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output runs the command and returns what it writes.
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, errOut bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errOut
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = errOut.Bytes()
	}
	return out.Bytes(), err
}

// CombinedOutput runs the command and returns all that it writes.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

// StdoutPipe is a pipe of what the command writes.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	return c.pipe(&c.Stdout)
}

// StderrPipe is a pipe of what the command writes.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	return c.pipe(&c.Stderr)
}

// lateReader is read once the command is over.
type lateReader struct {
	c    *Cmd
	out  *io.Writer
	read int
}

func (l *lateReader) Read(p []byte) (int, error) {
	if !l.c.started {
		return 0, io.EOF
	}
	if d := l.c.end - sim.S.Now(); d > 0 {
		sim.S.Sleep(d)
	}
	b := l.c.res.Out
	if l.out == &l.c.Stderr {
		b = l.c.res.ErrOut
	}
	n := copy(p, b[l.read:])
	if l.read += n; n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (l *lateReader) Close() error { return nil }

func (c *Cmd) pipe(w *io.Writer) (io.ReadCloser, error) {
	if *w != nil {
		return nil, errors.New("exec: already set")
	}
	*w = io.Discard
	return &lateReader{c: c, out: w}, nil
}

