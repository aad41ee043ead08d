// Package rnd puts a controllable source in place of crypto/rand.Reader. Its import path sorts before the
// packages under test, so that it is initialised before one of them copies the variable.
package rnd

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"sync"
)

// Source is the reader everything draws from. With no script it is the system's generator.
type Source struct {
	mu     sync.Mutex
	system io.Reader
	script [][]byte // scripted draws, used up in order, one per Read
	seed   []byte   // when set: deterministic stream
	ctr    uint64
	buf    []byte
	Draws  int
}

// S is installed as crypto/rand.Reader.
var S = &Source{system: rand.Reader}

func init() { rand.Reader = S }

func (s *Source) Read(p []byte) (int, error) {
	if b, ok := Bound().(Streamer); ok {
		return b.Rand().Read(p)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Draws++
	if len(s.script) > 0 {
		d := s.script[0]
		s.script = s.script[1:]
		for i := range p {
			p[i] = 0
		}
		// big-endian, aligned to the right
		if len(d) > len(p) {
			d = d[len(d)-len(p):]
		}
		copy(p[len(p)-len(d):], d)
		return len(p), nil
	}
	if s.seed != nil {
		for len(s.buf) < len(p) {
			var c [8]byte
			binary.BigEndian.PutUint64(c[:], s.ctr)
			s.ctr++
			h := sha256.Sum256(append(append([]byte{}, s.seed...), c[:]...))
			s.buf = append(s.buf, h[:]...)
		}
		copy(p, s.buf)
		s.buf = s.buf[len(p):]
		return len(p), nil
	}
	return io.ReadFull(s.system, p)
}

// Script makes the next draws return the given big-endian numbers.
func Script(draws ...[]byte) {
	S.mu.Lock()
	defer S.mu.Unlock()
	S.script = draws
}

// Seed makes all draws deterministic from here on; nil returns to the system's generator.
func Seed(seed []byte) {
	S.mu.Lock()
	defer S.mu.Unlock()
	S.seed, S.ctr, S.buf, S.script = seed, 0, nil, nil
}
