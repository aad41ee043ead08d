// Package tr reads scenarios and writes traces, both as one JSON object per line.
package tr

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sync"
)

// Ev is one event of a trace.
type Ev map[string]interface{}

// Writer writes events.
type Writer struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	N  int
}

// Create opens a trace.
func Create(path string) *Writer {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &Writer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// Put writes an event.
func (w *Writer) Put(e Ev) {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.w.Write(b)
	w.w.WriteByte('\n')
	// a crash of the process loses nothing
	w.w.Flush()
	w.N++
}

// Flush forces what was written so far to the file, so that it survives a crash.
func (w *Writer) Flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.w.Flush()
}

// Close ends the trace.
func (w *Writer) Close() { w.Flush(); w.f.Close() }

// Lines reads the objects of a scenario file.
func Lines(path string, each func(raw []byte)) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			each(append([]byte{}, sc.Bytes()...))
		}
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
}

// Hex is the representation of numbers in scenarios and traces.
func Hex(x *big.Int) string {
	if x == nil {
		return "nil"
	}
	return x.Text(16)
}

// Num parses a number.
func Num(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("not a number: " + s)
	}
	return x
}

// Guard runs f and returns the message of its panic, or "".
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
			if len(msg) > 200 {
				msg = msg[:200]
			}
		}
	}()
	f()
	return ""
}
