// Package simio replaces io: its pipe blocks through the scheduler.
package simio

import (
	"io"
	"unsafe"

	"verifsim/rt"
)

type pipe struct {
	w      []byte // what the writer offers
	busy   bool   // a writer is inside Write
	offer  bool
	rerr   error // set by the reading side
	werr   error
	closed bool
	rdone  bool
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := new(pipe)
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) edge() {
	rt.Y(-60)
	rt.Acquire(unsafe.Pointer(p))
	rt.Release(unsafe.Pointer(p))
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.edge()
	if !p.rdone && !p.offer && !p.closed {
		rt.Block("pipe read", func() bool { return p.rdone || p.offer || p.closed })
		p.edge()
	}
	if p.rdone {
		return 0, io.ErrClosedPipe
	}
	if p.offer {
		n := copy(b, p.w)
		p.w = p.w[n:]
		p.offer = len(p.w) > 0
		return n, nil
	}
	return 0, p.werr
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.edge()
	if !r.p.rdone {
		r.p.rdone, r.p.rerr = true, err
	}
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.edge()
	if p.busy {
		rt.Block("pipe write", func() bool { return !p.busy })
	}
	if p.closed {
		return 0, io.ErrClosedPipe
	}
	if p.rdone {
		return 0, p.rerr
	}
	p.busy, p.offer, p.w = true, true, b
	rt.Block("pipe write", func() bool { return !p.offer || p.rdone || p.closed })
	n := len(b) - len(p.w)
	left := p.offer
	p.busy, p.offer, p.w = false, false, nil
	p.edge()
	if left {
		if p.rdone {
			return n, p.rerr
		}
		return n, io.ErrClosedPipe
	}
	return n, nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.edge()
	if !w.p.closed {
		w.p.closed, w.p.werr = true, err
	}
	return nil
}
