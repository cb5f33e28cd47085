// Package vdrv runs scenarios against the platform in-process, in virtual time.
package vdrv

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

// half is one direction of an in-memory connection.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	cap    int
	weof   bool // writer closed
	rclose bool // reader closed
	rst    bool
	rstHit bool
	rdl    time.Time
	wdl    time.Time
}

func newHalf(cap int) *half {
	h := &half{cap: cap}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (h *half) read(p []byte, chunk func(int) int) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rclose {
			return 0, net.ErrClosed
		}
		if h.rst {
			if h.rstHit {
				return 0, io.EOF
			}
			h.rstHit = true
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		}
		if len(h.buf) > 0 {
			n := len(h.buf)
			if chunk != nil {
				if k := chunk(n); k >= 1 && k < n {
					n = k
				}
			}
			if n > len(p) {
				n = len(p)
			}
			copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		}
		if h.weof {
			return 0, io.EOF
		}
		if expired(h.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		h.cond.Wait()
	}
}

func (h *half) write(p []byte, partial func(int) int) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	done := 0
	want := len(p)
	if partial != nil {
		if k := partial(want); k >= 1 && k < want {
			want = k
		}
	}
	for done < want {
		if h.weof {
			return done, net.ErrClosed
		}
		if h.rst || h.rclose {
			return done, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
		}
		if room := h.cap - len(h.buf); room > 0 {
			n := want - done
			if n > room {
				n = room
			}
			h.buf = append(h.buf, p[done:done+n]...)
			done += n
			h.cond.Broadcast()
			continue
		}
		if expired(h.wdl) {
			return done, os.ErrDeadlineExceeded
		}
		h.cond.Wait()
	}
	if done == 0 && h.weof {
		return 0, net.ErrClosed
	}
	return done, nil
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) armAt(t time.Time) {
	if t.IsZero() {
		return
	}
	time.AfterFunc(time.Until(t), func() { h.set(func() {}) })
}

// srvConn is the platform's side.
type srvConn struct {
	in, out *half
	raddr   net.Addr
	opt     scn.DialOpt
	closed  atomic.Bool
	open    *atomic.Int64
}

func (s *srvConn) Read(p []byte) (int, error) { return s.in.read(p, s.opt.ReadChunk) }
func (s *srvConn) Write(p []byte) (int, error) {
	if s.closed.Load() {
		return 0, net.ErrClosed
	}
	return s.out.write(p, s.opt.Partial)
}
func (s *srvConn) Close() error {
	if s.closed.Swap(true) {
		return net.ErrClosed
	}
	s.open.Add(-1)
	s.in.set(func() { s.in.rclose = true; s.in.buf = nil })
	s.out.set(func() { s.out.weof = true })
	return nil
}
func (s *srvConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 255, 0, 1), Port: 8080} }
func (s *srvConn) RemoteAddr() net.Addr { return s.raddr }
func (s *srvConn) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}
func (s *srvConn) SetReadDeadline(t time.Time) error {
	s.in.set(func() { s.in.rdl = t })
	s.in.armAt(t)
	return nil
}
func (s *srvConn) SetWriteDeadline(t time.Time) error {
	s.out.set(func() { s.out.wdl = t })
	s.out.armAt(t)
	return nil
}

// cliLink is the terminal's side.
type cliLink struct {
	s  *srvConn
	id string
}

func (c *cliLink) Read(p []byte) (int, error) {
	n, err := c.s.out.read(p, nil)
	return n, err
}
func (c *cliLink) Write(p []byte) (int, error) { return c.s.in.write(p, nil) }
func (c *cliLink) Close() error {
	c.s.in.set(func() { c.s.in.weof = true })
	c.s.out.set(func() { c.s.out.rclose = true; c.s.out.buf = nil })
	return nil
}
func (c *cliLink) CloseWrite() error {
	c.s.in.set(func() { c.s.in.weof = true })
	return nil
}
func (c *cliLink) Reset() {
	c.s.in.set(func() { c.s.in.rst = true; c.s.in.buf = nil })
	c.s.out.set(func() { c.s.out.rst = true; c.s.out.rclose = true; c.s.out.buf = nil })
}
func (c *cliLink) ID() string { return c.id }

// listener hands connections to TCPServer.Start.
type listener struct {
	ch    chan net.Conn
	done  chan struct{}
	n     atomic.Uint32
	open  atomic.Int64
	fails atomic.Int64 // number of Accept calls that shall fail first
}

func newListener() *listener {
	return &listener{ch: make(chan net.Conn), done: make(chan struct{})}
}

var errAccept = errors.New("accept4: too many open files")

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		if c == nil {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: errAccept}
		}
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { return nil }
func (l *listener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 255, 0, 1), Port: 8080} }

func (l *listener) dial(o scn.DialOpt) (scn.Link, error) {
	var a *net.TCPAddr
	if o.Addr != "" {
		var err error
		a, err = net.ResolveTCPAddr("tcp", o.Addr)
		if err != nil {
			return nil, err
		}
	} else {
		k := l.n.Add(1)
		a = &net.TCPAddr{IP: net.IPv4(10, byte(k>>22), byte(k>>14), byte(k>>6)), Port: int(1024 + k&0x3f)}
	}
	cp := 1 << 20
	if o.SmallBuf {
		cp = 64
	}
	s := &srvConn{in: newHalf(1 << 20), out: newHalf(cp), raddr: a, opt: o, open: &l.open}
	l.open.Add(1)
	tm := time.NewTimer(time.Hour)
	defer tm.Stop()
	select {
	case l.ch <- s:
	case <-tm.C:
		return nil, fmt.Errorf("platform does not accept connections any more")
	}
	return &cliLink{s: s, id: a.String()}, nil
}
