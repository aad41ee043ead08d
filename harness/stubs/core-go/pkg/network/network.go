// Package network is an offline stand-in for core-go's network interfaces, restricted to what this repository uses.
package network

// Connection is a bidirectional byte stream between two processes.
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
}

// Server establishes connections with the committee members.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
	Stop()
}
