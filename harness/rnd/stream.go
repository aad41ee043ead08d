package rnd

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"runtime"
	"strconv"
	"sync"
)

// Stream is the randomness of one party: deterministic, with some draws fixed in advance. Draws of 32 bytes (numbers
// below the order of the group) are recorded.
type Stream struct {
	mu    sync.Mutex
	seed  []byte
	ctr   uint64
	buf   []byte
	Force []*big.Int // the next draws of 32 bytes; nil entries are random
	Zeros int        // so many of 100 draws of 32 bytes are zero
	Log   []*big.Int // all draws of 32 bytes
	All   [][]byte   // all draws of 8 to 300 bytes
}

// NewStream returns a stream determined by its name.
func NewStream(name string) *Stream {
	h := sha256.Sum256([]byte(name))
	return &Stream{seed: h[:]}
}

func (s *Stream) raw(p []byte) {
	for len(s.buf) < len(p) {
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], s.ctr)
		s.ctr++
		h := sha256.Sum256(append(append([]byte{}, s.seed...), c[:]...))
		s.buf = append(s.buf, h[:]...)
	}
	copy(p, s.buf)
	s.buf = s.buf[len(p):]
}

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.raw(p)
	if len(p) == 32 {
		if len(s.Force) > 0 {
			if f := s.Force[0]; f != nil {
				f.FillBytes(p)
			}
			s.Force = s.Force[1:]
		} else if s.Zeros > 0 {
			var c [1]byte
			s.raw(c[:])
			if int(c[0])*100 < s.Zeros*256 {
				for i := range p {
					p[i] = 0
				}
			}
		}
		s.Log = append(s.Log, new(big.Int).SetBytes(p))
	} else if len(p) > 32 && s.Zeros > 0 {
		var c [1]byte
		s.raw(c[:])
		if int(c[0])*100 < s.Zeros*256 {
			for i := range p {
				p[i] = 0
			}
		}
	}
	if len(p) >= 8 && len(p) <= 300 {
		s.All = append(s.All, append([]byte{}, p...))
	}
	return len(p), nil
}

// Plan fixes what comes next and forgets what was recorded.
func (s *Stream) Plan(force []*big.Int, zeros int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Force, s.Zeros, s.Log, s.All = force, zeros, nil, nil
}

var (
	boundMu sync.RWMutex
	bound   = map[uint64]interface{}{}
)

// Goid is the number of the running goroutine.
func Goid() uint64 {
	var b [64]byte
	f := b[:runtime.Stack(b[:], false)]
	f = bytes.TrimPrefix(f, []byte("goroutine "))
	if i := bytes.IndexByte(f, ' '); i > 0 {
		if n, err := strconv.ParseUint(string(f[:i]), 10, 64); err == nil {
			return n
		}
	}
	return 0
}

// Bind makes the goroutine draw from a stream, until the returned function is called. What identifies the caller.
func Bind(what interface{}) func() {
	id := Goid()
	boundMu.Lock()
	bound[id] = what
	boundMu.Unlock()
	return func() {
		boundMu.Lock()
		delete(bound, id)
		boundMu.Unlock()
	}
}

// Bound is what the running goroutine was bound to, or nil.
func Bound() interface{} {
	boundMu.RLock()
	defer boundMu.RUnlock()
	if len(bound) == 0 {
		return nil
	}
	return bound[Goid()]
}

// Streamer is implemented by what has randomness of its own.
type Streamer interface{ Rand() *Stream }
