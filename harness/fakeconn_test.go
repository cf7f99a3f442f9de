package harness

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// fconn is an in-memory net.Conn. Reads return at most one fed chunk; writes can be stalled or
// made to fail; Close can be held. All waiting is on a sync.Cond (durably blocking in a bubble).
type fconn struct {
	mu        sync.Mutex
	cond      *sync.Cond
	chunks    [][]byte
	end       error
	closed    bool
	nclose    int
	wmode     string // "ok" | "stall" | "fail"
	failAfter int    // bytes still accepted in mode "fail"
	holdClose bool
	written   []byte
	onWrite   func(b []byte)
	rdl, wdl  time.Time
}

func newFconn() *fconn {
	c := &fconn{wmode: "ok"}
	c.cond = sync.NewCond(&c.mu)
	return c
}

var errFail = errors.New("fake: write failed")

func (c *fconn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			return 0, nil
		}
		for len(c.chunks) > 0 && len(c.chunks[0]) == 0 {
			c.chunks = c.chunks[1:]
		}
		if len(c.chunks) > 0 {
			n := copy(b, c.chunks[0])
			c.chunks[0] = c.chunks[0][n:]
			return n, nil
		}
		if c.end != nil {
			return 0, c.end
		}
		c.cond.Wait()
	}
}

func (c *fconn) Write(b []byte) (int, error) {
	c.mu.Lock()
	for {
		if c.closed {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if c.wmode != "stall" {
			break
		}
		c.cond.Wait()
	}
	n := len(b)
	var err error
	if c.wmode == "fail" {
		if c.failAfter < n {
			n = c.failAfter
			err = errFail
		}
		c.failAfter -= n
	}
	c.written = append(c.written, b[:n]...)
	hook := c.onWrite
	c.mu.Unlock()
	if hook != nil && n > 0 {
		hook(append([]byte(nil), b[:n]...))
	}
	return n, err
}

func (c *fconn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nclose++
	first := !c.closed
	c.closed = true
	c.cond.Broadcast()
	for c.holdClose {
		c.cond.Wait()
	}
	if !first {
		return net.ErrClosed
	}
	return nil
}

type fakeAddr string

func (a fakeAddr) Network() string { return "fake" }
func (a fakeAddr) String() string  { return string(a) }

func (c *fconn) LocalAddr() net.Addr  { return fakeAddr("local") }
func (c *fconn) RemoteAddr() net.Addr { return fakeAddr("remote") }

func (c *fconn) wakeAt(t time.Time) {
	if t.IsZero() {
		return
	}
	time.AfterFunc(time.Until(t), func() {
		c.mu.Lock()
		c.cond.Broadcast()
		c.mu.Unlock()
	})
}

func (c *fconn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.rdl = t
	c.wakeAt(t)
	c.cond.Broadcast()
	return nil
}

func (c *fconn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.wdl = t
	c.wakeAt(t)
	c.cond.Broadcast()
	return nil
}

func (c *fconn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// server side

func (c *fconn) feed(chunk []byte) {
	if len(chunk) == 0 {
		return
	}
	c.mu.Lock()
	c.chunks = append(c.chunks, append([]byte(nil), chunk...))
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *fconn) finish(err error) {
	if err == nil {
		err = io.EOF
	}
	c.mu.Lock()
	if c.end == nil {
		c.end = err
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *fconn) setWrites(mode string, failAfter int) {
	c.mu.Lock()
	c.wmode, c.failAfter = mode, failAfter
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *fconn) setHoldClose(b bool) {
	c.mu.Lock()
	c.holdClose = b
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *fconn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// gate blocks callers of pass while held.
type gate struct {
	mu   sync.Mutex
	cond *sync.Cond
	held bool
}

func newGate() *gate {
	g := &gate{}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) set(b bool) {
	g.mu.Lock()
	g.held = b
	g.cond.Broadcast()
	g.mu.Unlock()
}

func (g *gate) pass() {
	g.mu.Lock()
	for g.held {
		g.cond.Wait()
	}
	g.mu.Unlock()
}
