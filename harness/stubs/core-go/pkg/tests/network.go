// Package tests is an offline stand-in for core-go's in-memory test network.
package tests

import (
	"errors"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// half is one direction of a connection: an unbounded byte queue.
type half struct {
	mu      sync.Mutex
	cond    *sync.Cond
	data    []byte
	closed  bool
	timeout time.Duration
}

func newHalf(timeout time.Duration) *half {
	h := &half{timeout: timeout}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, errors.New("connection closed")
	}
	h.data = append(h.data, b...)
	h.cond.Broadcast()
	return len(b), nil
}

func (h *half) read(b []byte) (int, error) {
	deadline := time.Now().Add(h.timeout)
	t := time.AfterFunc(h.timeout, func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() })
	defer t.Stop()
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.data) == 0 {
		if h.closed {
			return 0, errors.New("connection closed")
		}
		if time.Now().After(deadline) {
			return 0, errors.New("read timeout")
		}
		h.cond.Wait()
	}
	n := copy(b, h.data)
	h.data = h.data[n:]
	return n, nil
}

func (h *half) close() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.closed = true
	h.cond.Broadcast()
}

type conn struct{ in, out *half }

func (c *conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *conn) Flush() error                { return nil }
func (c *conn) Close() error                { c.in.close(); c.out.close(); return nil }

type server struct {
	pid     int
	queues  []chan network.Connection
	timeout time.Duration
	done    chan struct{}
	once    sync.Once
}

// NewNetwork returns n mutually reachable in-memory servers.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	qs := make([]chan network.Connection, n)
	for i := range qs {
		qs[i] = make(chan network.Connection, n)
	}
	out := make([]network.Server, n)
	for i := range out {
		out[i] = &server{pid: i, queues: qs, timeout: timeout, done: make(chan struct{})}
	}
	return out
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	a, b := newHalf(10*time.Second), newHalf(10*time.Second)
	select {
	case s.queues[pid] <- &conn{b, a}:
		return &conn{a, b}, nil
	case <-time.After(s.timeout):
		return nil, errors.New("dial timeout")
	}
}

func (s *server) Listen() (network.Connection, error) {
	select {
	case c := <-s.queues[s.pid]:
		return c, nil
	case <-time.After(s.timeout):
		return nil, errors.New("listen timeout")
	case <-s.done:
		return nil, errors.New("server stopped")
	}
}

func (s *server) Stop() { s.once.Do(func() { close(s.done) }) }

// CloseNetwork stops the servers.
func CloseNetwork(ss []network.Server) {
	for _, s := range ss {
		s.Stop()
	}
}
