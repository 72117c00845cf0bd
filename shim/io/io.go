// Package io stands in for the standard io package under simulation; only its
// pipes need to.
package io

import (
	"github.com/jcorbin/anansi/zz/shim/sync"
	"github.com/jcorbin/anansi/zz/sim"
)

type pipe struct {
	wr         sync.Mutex // one Write at a time
	data       chan []byte
	took       chan int
	done       chan struct{}
	closed     bool
	rerr, werr error
}

func (p *pipe) close() {
	if !p.closed {
		p.closed = true
		sim.Close(p.done)
	}
}

// PipeReader is the reading end.
type PipeReader struct{ p *pipe }

// PipeWriter is the writing end.
type PipeWriter struct{ p *pipe }

// Pipe makes a synchronous pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{data: make(chan []byte), took: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) readErr() error {
	if p.rerr == nil && p.werr != nil {
		return p.werr
	}
	return ErrClosedPipe
}

func (p *pipe) writeErr() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return ErrClosedPipe
}

// Read waits for a Write.
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.closed {
		return 0, p.readErr()
	}
	c := sim.RecvCase((<-chan []byte)(p.data))
	if sim.Select(false, c, sim.RecvCase((<-chan struct{})(p.done))) == 1 {
		return 0, p.readErr()
	}
	n := copy(b, c.V)
	sim.Send((chan<- int)(p.took))(n)
	return n, nil
}

// Close makes writes fail.
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError makes writes fail with err.
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.close()
	return nil
}

// Write waits for it to be read.
func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	if p.closed {
		return 0, p.writeErr()
	}
	p.wr.Lock()
	defer p.wr.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if sim.Select(false, sim.SendCase((chan<- []byte)(p.data))(b), sim.RecvCase((<-chan struct{})(p.done))) == 1 {
			return n, p.writeErr()
		}
		k := sim.Recv((<-chan int)(p.took))
		b = b[k:]
		n += k
	}
	return n, nil
}

// Close makes reads end.
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError makes reads fail with err.
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.close()
	return nil
}
