// Command hsync executes scenarios on real sync servers over a scripted in-memory network.
package main

import (
	"errors"
	"io"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// half is one direction of a connection. Bytes become visible when they are flushed.
type half struct {
	mu      sync.Mutex
	cond    *sync.Cond
	pending []byte // written, not flushed
	data    []byte // visible, not read
	total   []byte // everything that was ever visible
	cap     int    // a flush returns when at most that many bytes are unread; negative: at once
	closed  bool
	endErr  error // what reading gives after the last byte of a closed direction
	mode    string
	slow    time.Duration
	n       int
	nread   int

	// failures of the writer
	failAt  int // fails once that many bytes were written, counted from arm; negative: never
	failOn  string
	block   time.Duration
	written int
	broken  bool
}

var errFault = errors.New("scripted fault")

func newHalf(cap int, mode string) *half {
	h := &half{cap: cap, mode: mode, failAt: -1, endErr: io.EOF}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// arm sets the failure of the writes from here on
func (h *half) arm(on string, at int, block time.Duration) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.failOn, h.failAt, h.block, h.written = on, at, block, 0
	if on == "" {
		h.failAt = -1
	}
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.broken || h.closed {
		return 0, errFault
	}
	if h.failOn == "write" && h.written+len(b) > h.failAt {
		k := h.failAt - h.written
		if k < 0 {
			k = 0
		}
		h.pending = append(h.pending, b[:k]...)
		h.wait()
		h.broken = true
		return k, errFault
	}
	h.written += len(b)
	h.pending = append(h.pending, b...)
	return len(b), nil
}

// wait sleeps without the lock
func (h *half) wait() {
	if d := h.block; d > 0 {
		h.mu.Unlock()
		time.Sleep(d)
		h.mu.Lock()
	}
}

func (h *half) flush() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.broken {
		return errFault
	}
	if h.failOn == "flush" && h.written > h.failAt {
		h.wait()
		h.broken = true
		return errFault
	}
	if h.failOn == "block" && h.written > h.failAt {
		h.failOn = ""
		h.wait()
	}
	if h.closed {
		if len(h.pending) == 0 {
			return nil
		}
		return errFault
	}
	h.total = append(h.total, h.pending...)
	h.data = append(h.data, h.pending...)
	h.pending = nil
	h.cond.Broadcast()
	for h.cap >= 0 && len(h.data) > h.cap && !h.closed {
		h.cond.Wait()
	}
	if h.closed && h.cap >= 0 && len(h.data) > h.cap {
		return errFault
	}
	return nil
}

func (h *half) read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(h.data) == 0 {
		if h.closed {
			return 0, h.endErr
		}
		h.cond.Wait()
	}
	h.n++
	max := len(b)
	switch h.mode {
	case "1":
		max = 1
	case "3":
		max = 3
	case "17":
		max = 17
	case "zero":
		if h.n%2 == 1 {
			return 0, nil
		}
	case "grow":
		max = h.n
	case "slow":
		max = 13
		if h.n%4 == 1 {
			h.mu.Unlock()
			time.Sleep(time.Millisecond)
			h.mu.Lock()
		}
	}
	if max > len(b) {
		max = len(b)
	}
	n := copy(b[:max], h.data)
	h.data = h.data[n:]
	h.nread += n
	h.cond.Broadcast()
	if h.mode == "eof" && len(h.data) == 0 && h.closed {
		return n, h.endErr
	}
	return n, nil
}

func (h *half) close(err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.closed {
		h.closed = true
		if err != nil {
			h.endErr = err
		}
	}
	h.cond.Broadcast()
}

// push makes bytes visible
func (h *half) push(b []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.data = append(h.data, b...)
	h.cond.Broadcast()
}

// taken returns the bytes that became visible since the last call
func (h *half) taken() []byte {
	h.mu.Lock()
	defer h.mu.Unlock()
	t := h.total
	h.total = nil
	return t
}

type conn struct{ in, out *half }

func (c *conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *conn) Flush() error                { return c.out.flush() }
func (c *conn) Close() error {
	c.in.close(errFault)
	c.out.close(nil)
	return nil
}

// netServer is the network of one party
type netServer struct {
	mu       sync.Mutex
	dial     func(pid uint16) (network.Connection, error)
	incoming chan network.Connection
	noDial   int // so many dials fail first
	noListen int
	done     chan struct{}
}

func (s *netServer) Dial(pid uint16) (network.Connection, error) {
	s.mu.Lock()
	fail := s.noDial > 0
	s.noDial--
	s.mu.Unlock()
	if fail {
		time.Sleep(100 * time.Microsecond)
		return nil, errFault
	}
	return s.dial(pid)
}

func (s *netServer) Listen() (network.Connection, error) {
	s.mu.Lock()
	fail := s.noListen > 0
	s.noListen--
	s.mu.Unlock()
	if fail {
		time.Sleep(100 * time.Microsecond)
		return nil, errFault
	}
	select {
	case c := <-s.incoming:
		return c, nil
	case <-s.done:
		// a scenario that was given up
		time.Sleep(time.Hour)
		return nil, errFault
	}
}

func (s *netServer) Stop() {}
