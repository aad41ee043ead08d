// Package tcp is an offline stand-in for core-go's TCP server.
package tcp

import (
	"bufio"
	"encoding/json"
	"errors"
	"net"
	"os"
	"time"

	"github.com/rs/zerolog"
	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	net.Conn
	r *bufio.Reader
	w *bufio.Writer
}

func wrap(c net.Conn) network.Connection {
	return &conn{c, bufio.NewReader(c), bufio.NewWriter(c)}
}
func (c *conn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *conn) Flush() error                { return c.w.Flush() }

type server struct {
	l     net.Listener
	addrs []string
}

// a server that is connected to nothing
type nowhere struct{}

func (nowhere) Dial(uint16) (network.Connection, error) {
	time.Sleep(5 * time.Millisecond)
	return nil, errors.New("connected to nothing")
}
func (nowhere) Listen() (network.Connection, error) {
	time.Sleep(5 * time.Millisecond)
	return nil, errors.New("connected to nothing")
}
func (nowhere) Stop() {}

// NewServer listens on localAddress and dials the given addresses. With VERIF_TCP set it writes the addresses to that
// file instead.
func NewServer(localAddress string, remoteAddresses []string, _ zerolog.Logger) (network.Server, error) {
	if path := os.Getenv("VERIF_TCP"); path != "" {
		f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0600)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		return nowhere{}, json.NewEncoder(f).Encode(map[string]interface{}{"local": localAddress, "addrs": append([]string{}, remoteAddresses...)})
	}
	l, err := net.Listen("tcp", localAddress)
	if err != nil {
		return nil, err
	}
	return &server{l, remoteAddresses}, nil
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	c, err := net.DialTimeout("tcp", s.addrs[pid], time.Second)
	if err != nil {
		time.Sleep(5 * time.Millisecond)
		return nil, err
	}
	return wrap(c), nil
}

func (s *server) Listen() (network.Connection, error) {
	c, err := s.l.Accept()
	if err != nil {
		time.Sleep(5 * time.Millisecond)
		return nil, err
	}
	return wrap(c), nil
}

func (s *server) Stop() { s.l.Close() }
