package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// wval describes a value that can be encoded
type wval struct {
	T     string   `json:"t"` // point, comm, know, refresh, noop
	P     []string `json:"p"` // point: [] or its coordinates
	A     string   `json:"a"` // comm: logarithms of its components, or ...
	B     string   `json:"b"`
	V     string   `json:"v"` // ... proofs: value
	R     string   `json:"r"` // randomizer
	H     string   `json:"h"` // proofs: logarithm of the base
	Draws []string `json:"draws"`
}

type edit struct {
	M   string `json:"m"` // set, xor, cut, ins, tail, raw
	At  int    `json:"at"`
	To  int    `json:"to"`
	Hex string `json:"hex"`
}

type wireStep struct {
	Op    string `json:"op"` // put, get, bad, prefixes, flips
	Val   wval   `json:"val"`
	T     string `json:"t"`
	Chunk string `json:"chunk"`
	Into  bool   `json:"into"` // decode into an object that holds something else
	Edits []edit `json:"edits"`
	Masks []int  `json:"masks"`
}

type wireScenario struct {
	Steps []wireStep `json:"steps"`
}

// chunky delivers the bytes of a stream in pieces
type chunky struct {
	r    *bytes.Buffer
	mode string
	n    int
}

var errBroken = errors.New("broken transport")

func (c *chunky) Read(p []byte) (int, error) {
	c.n++
	max := len(p)
	switch c.mode {
	case "1":
		max = 1
	case "2":
		max = 2
	case "3":
		max = 3
	case "7":
		max = 7
	case "zero": // every other read delivers nothing
		if c.n%2 == 1 {
			return 0, nil
		}
		max = 5
	case "grow":
		max = c.n
	case "shrink":
		max = 40/c.n + 1
	case "broken": // fails with an error of its own at the end
		if c.r.Len() == 0 {
			return 0, errBroken
		}
		max = 11
	}
	if max > len(p) {
		max = len(p)
	}
	n, err := c.r.Read(p[:max])
	if c.mode == "eof" && err == nil && c.r.Len() == 0 {
		// the last bytes arrive together with the end
		err = io.EOF
	}
	return n, err
}

// wobj is a value with all that is needed to use it
type wobj struct {
	t   string
	pt  curve.Point
	cm  *commitment.ElGamal
	pf  *aProof
	nop *zkpok.NoopZKproof
	f   *commitment.ElGamalFactory
	c1  *commitment.ElGamal
	c2  *commitment.ElGamal
}

type wireMachine struct {
	g    curve.Group
	buf  *bytes.Buffer
	puts []*wobj
	f    *commitment.ElGamalFactory
}

func (m *wireMachine) build(v wval) *wobj {
	o := &wobj{t: v.T, f: m.f}
	switch v.T {
	case "point":
		if len(v.P) == 0 {
			o.pt = m.g.Neutral()
			break
		}
		p, err := m.g.Decode(bytes.NewReader(encodeXY(tr.Num(v.P[0]), tr.Num(v.P[1]))))
		if err != nil {
			panic("harness: " + err.Error())
		}
		o.pt = p
	case "comm":
		// a commitment with given components: composed from commitments under bases that make them so
		a, b := tr.Num(v.A), tr.Num(v.B)
		f := commitment.NewElGamalFactory(m.g.Neutral())
		o.cm = f.Create(b, a)
	case "know", "refresh":
		o.f = commitment.NewElGamalFactory(m.g.ScalarBaseMult(tr.Num(v.H)))
		o.pf = &aProof{kind: v.T}
		r := tr.Num(v.R)
		var err error
		o.c1 = o.f.Create(tr.Num(v.V), r)
		script(v.Draws)
		if v.T == "know" {
			o.pf.know, err = zkpok.NewZKEGKnow(o.f, o.c1, tr.Num(v.V), r)
		} else {
			o.c2 = o.f.Neutral()
			o.c2.Compose(o.c1, o.f.Create(big.NewInt(0), r))
			o.pf.refresh, err = zkpok.NewZKEGRefresh(o.f, o.c1, o.c2, r)
		}
		if err != nil {
			panic(err)
		}
	case "noop":
		o.nop = &zkpok.NoopZKproof{}
	default:
		panic("harness: no such type " + v.T)
	}
	return o
}

func (o *wobj) encode(g curve.Group, w io.Writer) error {
	switch o.t {
	case "point":
		return g.Encode(o.pt, w)
	case "comm":
		return o.cm.Encode(w)
	case "know":
		return o.pf.know.Encode(w)
	case "refresh":
		return o.pf.refresh.Encode(w)
	}
	return o.nop.Encode(w)
}

func (m *wireMachine) decode(t string, r io.Reader, into bool) (*wobj, error) {
	o := &wobj{t: t, f: m.f}
	var err error
	switch t {
	case "point":
		o.pt, err = m.g.Decode(r)
	case "comm":
		o.cm = &commitment.ElGamal{}
		if into {
			o.cm = m.f.Create(big.NewInt(77), big.NewInt(78))
		}
		err = o.cm.Decode(r)
	case "know", "refresh":
		o.pf = &aProof{kind: t, know: &zkpok.ZKEGKnow{}, refresh: &zkpok.ZKEGRefresh{}}
		if into {
			c := m.f.Create(big.NewInt(5), big.NewInt(6))
			if o.pf.know, err = zkpok.NewZKEGKnow(m.f, c, big.NewInt(5), big.NewInt(6)); err != nil {
				panic(err)
			}
			if o.pf.refresh, err = zkpok.NewZKEGRefresh(m.f, c, c, big.NewInt(0)); err != nil {
				panic(err)
			}
		}
		if t == "know" {
			err = o.pf.know.Decode(r)
		} else {
			err = o.pf.refresh.Decode(r)
		}
	default:
		o.nop = &zkpok.NoopZKproof{}
		err = o.nop.Decode(r)
	}
	return o, err
}

func (m *wireMachine) bytes(o *wobj) []byte {
	b := &bytes.Buffer{}
	if err := o.encode(m.g, b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// equal compares two values as far as they can be compared
func (m *wireMachine) equal(a, b *wobj) bool {
	if a.t != b.t {
		return false
	}
	switch a.t {
	case "point":
		g := m.g
		return g.Equal(a.pt, b.pt) && g.Equal(b.pt, a.pt) && g.Equal(g.Add(a.pt, g.Gen()), g.Add(g.Gen(), b.pt)) && g.Equal(g.Add(a.pt, g.Neg(b.pt)), g.Neutral())
	case "comm":
		s := m.f.Neutral()
		s.Compose(a.cm, s.Inverse(b.cm))
		return a.cm.Equal(a.cm, b.cm) && b.cm.Equal(b.cm, a.cm) && m.f.IsNeutral(s)
	case "know", "refresh":
		return bytes.Equal(m.bytes(a), m.bytes(b))
	}
	return true
}

// points lists the points in an accepted value, and what comes out when they are used
func (m *wireMachine) use(o *wobj, e tr.Ev) {
	pts := [][]string{}
	res := [][]string{}
	// what encodings look like was established with the generator
	_, err := coords(m.g, m.g.Gen())
	known := err == nil
	add := func(b []byte) {
		if known {
			p, err := parsePoint(b)
			if err != nil {
				p = []string{"bad encoding"}
			}
			pts = append(pts, p)
		}
	}
	e["use"] = tr.Guard(func() {
		b := m.bytes(o)
		back, err := m.decode(o.t, bytes.NewReader(b), false)
		if err != nil {
			panic("the accepted value does not survive encoding: " + err.Error())
		}
		if !m.equal(o, back) {
			panic("the accepted value changes by encoding")
		}
		switch o.t {
		case "point":
			add(b)
			res = append(res, m.usePoint(o.pt)...)
		case "comm":
			if known {
				_, rest, err := cutPoint(b)
				if err != nil {
					rest = nil
				}
				add(b[:len(b)-len(rest)])
				add(rest)
			}
			m.useComm(o.cm)
		case "know", "refresh":
			if known {
				q, err := cutProof(o.t, b)
				if err == nil {
					add(q.x1)
					add(q.x2)
				} else {
					pts = append(pts, []string{err.Error()})
				}
			}
			for _, c := range []*commitment.ElGamal{m.f.Neutral(), m.f.Create(big.NewInt(3), big.NewInt(4))} {
				o.pf.verify(m.f, c, m.f.Create(big.NewInt(3), big.NewInt(9)))
			}
		}
	})
	e["pts"], e["res"] = pts, res
}

func (m *wireMachine) usePoint(p curve.Point) [][]string {
	g := m.g
	out := [][]string{}
	for _, q := range []curve.Point{g.Add(p, g.Gen()), g.Add(p, p), g.Neg(p), g.Add(p, g.Neg(p)), g.ScalarMult(p, big.NewInt(3)),
		g.ScalarMult(p, new(big.Int).Sub(g.Order(), big.NewInt(1))), g.ScalarMult(p, g.Order()), g.Add(g.Neutral(), p)} {
		c, err := coords(g, q)
		if err != nil {
			c = []string{err.Error()}
		}
		out = append(out, c)
		g.Equal(p, q)
	}
	return out
}

func (m *wireMachine) useComm(c *commitment.ElGamal) {
	d := m.f.Neutral()
	d.Compose(c, m.f.Create(big.NewInt(1), big.NewInt(2)))
	d.Compose(c, c)
	d.Exp(c, big.NewInt(7))
	d.Exp(c, m.g.Order())
	d.Inverse(c)
	d.Equal(c, d)
	m.f.IsNeutral(c)
	p, err := zkpok.NewZKEGKnow(m.f, c, big.NewInt(1), big.NewInt(2))
	if err != nil {
		panic(err)
	}
	p.Verify(m.f, c)
}

func (m *wireMachine) try(t string, data []byte, chunk string, into bool, e tr.Ev) {
	src := bytes.NewBuffer(append([]byte{}, data...))
	e["t"], e["err"], e["use"], e["pts"], e["res"], e["n"] = t, "", "", [][]string{}, [][]string{}, 0
	var o *wobj
	e["panic"] = tr.Guard(func() {
		var err error
		o, err = m.decode(t, &chunky{src, chunk, 0}, into)
		if err != nil {
			e["err"] = err.Error()
			if len(err.Error()) > 100 {
				e["err"] = err.Error()[:100]
			}
		}
	})
	e["n"] = len(data) - src.Len()
	if e["panic"] == "" && e["err"] == "" {
		m.use(o, e)
	}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func applyEdits(b []byte, es []edit) []byte {
	b = append([]byte{}, b...)
	for _, ed := range es {
		x := unhex(ed.Hex)
		switch ed.M {
		case "set":
			for i := range x {
				if ed.At+i < len(b) {
					b[ed.At+i] = x[i]
				}
			}
		case "xor":
			for i := range x {
				if ed.At+i < len(b) {
					b[ed.At+i] ^= x[i]
				}
			}
		case "cut":
			lo, hi := ed.At, ed.To
			if lo > len(b) {
				lo = len(b)
			}
			if hi > len(b) {
				hi = len(b)
			}
			b = append(b[:lo:lo], b[hi:]...)
		case "ins":
			at := ed.At
			if at > len(b) {
				at = len(b)
			}
			b = append(append(append([]byte{}, b[:at]...), x...), b[at:]...)
		case "tail":
			b = append(b, x...)
		case "raw":
			b = x
		}
	}
	return b
}

func runWire(raw []byte, w *tr.Writer, id int) {
	var sc wireScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	g := curve.NewSecp256k1Group()
	m := &wireMachine{g, &bytes.Buffer{}, nil, commitment.NewElGamalFactory(g.ScalarBaseMult(big.NewInt(1234567)))}
	w.Put(tr.Ev{"op": "reset", "id": id})
	for _, s := range sc.Steps {
		e := tr.Ev{"op": s.Op}
		switch s.Op {
		case "put":
			p := s.Val.P
			if p == nil {
				p = []string{}
			}
			e["t"], e["n"], e["err"], e["val"] = s.Val.T, 0, "", tr.Ev{"p": p, "a": s.Val.A, "b": s.Val.B}
			o := &wobj{t: s.Val.T}
			e["panic"] = tr.Guard(func() {
				o = m.build(s.Val)
				k := m.buf.Len()
				if err := o.encode(g, m.buf); err != nil {
					e["err"] = err.Error()
				}
				e["n"] = m.buf.Len() - k
			})
			m.puts = append(m.puts, o)
			w.Put(e)
		case "get":
			e["t"], e["n"], e["err"], e["eq"], e["ver"], e["same"] = s.T, 0, "", []int{}, false, false
			e["panic"] = tr.Guard(func() {
				k := m.buf.Len()
				o, err := m.decode(s.T, &chunky{m.buf, s.Chunk, 0}, s.Into)
				e["n"] = k - m.buf.Len()
				if err != nil {
					e["err"] = err.Error()
					return
				}
				eq := []int{}
				for i, p := range m.puts {
					if m.equal(p, o) {
						eq = append(eq, i+1)
					}
				}
				e["eq"] = eq
				// a proof still proves what it proved
				for _, i := range eq {
					p := m.puts[i-1]
					if p.pf != nil {
						e["ver"] = o.pf.verify(p.f, p.c1, p.c2) == nil && p.pf.verify(p.f, p.c1, p.c2) == nil
					}
				}
			})
			w.Put(e)
		case "left":
			e["n"] = m.buf.Len()
			w.Put(e)
		case "bad":
			// a value with edits; "prefix" when what remains is a strict prefix
			var b []byte
			if s.Val.T != "" {
				b = m.bytes(m.build(s.Val))
			}
			x := applyEdits(b, s.Edits)
			e["prefix"] = len(x) < len(b) && bytes.Equal(x, b[:len(x)])
			t := s.T
			if t == "" {
				t = s.Val.T
			}
			if t != s.Val.T {
				e["prefix"] = false
			}
			e["len"], e["hex"] = len(x), hex.EncodeToString(x)
			m.try(t, x, s.Chunk, s.Into, e)
			w.Put(e)
		case "prefixes":
			b := m.bytes(m.build(s.Val))
			for k := range b {
				e := tr.Ev{"op": "bad", "prefix": true, "len": k, "hex": hex.EncodeToString(b[:k])}
				m.try(s.Val.T, b[:k], s.Chunk, s.Into, e)
				w.Put(e)
			}
		case "flips":
			b := m.bytes(m.build(s.Val))
			for k := range b {
				for _, mask := range s.Masks {
					x := append([]byte{}, b...)
					x[k] ^= byte(mask)
					e := tr.Ev{"op": "bad", "prefix": false, "len": len(x), "hex": hex.EncodeToString(x)}
					m.try(s.Val.T, x, s.Chunk, s.Into, e)
					w.Put(e)
				}
			}
		default:
			panic(fmt.Sprint("harness: unknown step ", s.Op))
		}
	}
}
