// Package pts makes points visible.
package pts

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Coords are the coordinates of a point, read from its encoding; none for the neutral element.
func Coords(group curve.Group, p curve.Point) ([]string, error) {
	if p == nil {
		return nil, fmt.Errorf("no point")
	}
	buf := &bytes.Buffer{}
	if err := group.Encode(p, buf); err != nil {
		return nil, err
	}
	b := buf.Bytes()
	if len(b) < 4 {
		return nil, fmt.Errorf("unexpected encoding %x", b)
	}
	lx := int(binary.BigEndian.Uint32(b))
	if lx == 0 {
		return []string{}, nil
	}
	ly := int(binary.BigEndian.Uint32(b[4:]))
	if len(b) != 8+lx+ly {
		return nil, fmt.Errorf("unexpected encoding %x", b)
	}
	return []string{tr.Hex(new(big.Int).SetBytes(b[8 : 8+lx])), tr.Hex(new(big.Int).SetBytes(b[8+lx:]))}, nil
}

// Heading are the k points that a message begins with; none if it does not.
func Heading(group curve.Group, data []byte, k int) (out [][]string) {
	out = [][]string{}
	buf := bytes.NewBuffer(append([]byte{}, data...))
	for i := 0; i < k; i++ {
		var p curve.Point
		var err error
		if msg := tr.Guard(func() { p, err = group.Decode(buf) }); msg != "" || err != nil {
			return [][]string{}
		}
		c, err := Coords(group, p)
		if err != nil {
			return [][]string{}
		}
		out = append(out, c)
	}
	return out
}
