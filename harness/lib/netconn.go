package lib

import (
	"net"
	"sync"
	"time"
)

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "peer:1" }

// FakeConn is a net.Conn fed from a byte slice; it records what is written.
type FakeConn struct {
	In     Chunked
	Out    []byte
	Closed bool
}

func (c *FakeConn) Read(p []byte) (int, error)       { return c.In.Read(p) }
func (c *FakeConn) Write(p []byte) (int, error)      { c.Out = append(c.Out, p...); return len(p), nil }
func (c *FakeConn) Close() error                     { c.Closed = true; return nil }
func (c *FakeConn) LocalAddr() net.Addr              { return addr{} }
func (c *FakeConn) RemoteAddr() net.Addr             { return addr{} }
func (c *FakeConn) SetDeadline(time.Time) error      { return nil }
func (c *FakeConn) SetReadDeadline(time.Time) error  { return nil }
func (c *FakeConn) SetWriteDeadline(time.Time) error { return nil }

// Queue is a byte stream between two goroutines.
type Queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	b      []byte
	closed bool
}

func NewQueue() *Queue {
	q := &Queue{}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func (q *Queue) Read(p []byte) (int, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.b) == 0 {
		if q.closed {
			return 0, EOF
		}
		q.cond.Wait()
	}
	n := copy(p, q.b)
	q.b = q.b[n:]
	return n, nil
}

func (q *Queue) Write(p []byte) (int, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return 0, EOF
	}
	q.b = append(q.b, p...)
	q.cond.Broadcast()
	return len(p), nil
}

func (q *Queue) Close() {
	q.mu.Lock()
	q.closed = true
	q.cond.Broadcast()
	q.mu.Unlock()
}

// PipeConn is one end of an in-memory connection.
type PipeConn struct {
	FakeConn
	R, W *Queue
}

func (c *PipeConn) Read(p []byte) (int, error)  { return c.R.Read(p) }
func (c *PipeConn) Write(p []byte) (int, error) { return c.W.Write(p) }
func (c *PipeConn) Close() error {
	c.R.Close()
	c.W.Close()
	return nil
}

// NewPipe returns the two ends of a connection.
func NewPipe() (a, b *PipeConn) {
	x, y := NewQueue(), NewQueue()
	return &PipeConn{R: x, W: y}, &PipeConn{R: y, W: x}
}
