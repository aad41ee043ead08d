package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// step is one step of a curve or commitment scenario
type step struct {
	Op   string `json:"op"`
	D    int    `json:"d"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	K    string `json:"k"`
	V    string `json:"v"`
	R    string `json:"r"`
	Name string `json:"name"`
	X    string `json:"x"`
	Y    string `json:"y"`
}

type curveScenario struct {
	Shared  bool     `json:"shared"`  // scalars are objects that live through the scenario
	Steps   []step   `json:"steps"`   // executed by one goroutine
	Threads [][]step `json:"threads"` // executed by one goroutine each, after Steps; they write only registers >= 10*(thread+1)
}

// coords is a point as the specification writes it: [] or [x, y] in hexadecimal
func coords(g curve.Group, p curve.Point) ([]string, error) {
	if p == nil {
		return nil, fmt.Errorf("no point")
	}
	buf := &bytes.Buffer{}
	if err := g.Encode(p, buf); err != nil {
		return nil, err
	}
	return parsePoint(buf.Bytes())
}

func parsePoint(b []byte) ([]string, error) {
	pt, rest, err := cutPoint(b)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("unexpected encoding %x", b)
	}
	return pt, err
}

func cutPoint(b []byte) ([]string, []byte, error) {
	if len(b) < 4 {
		return nil, nil, fmt.Errorf("unexpected encoding %x", b)
	}
	lx := int(binary.BigEndian.Uint32(b))
	if lx == 0 {
		return []string{}, b[4:], nil
	}
	if len(b) < 8 {
		return nil, nil, fmt.Errorf("unexpected encoding %x", b)
	}
	ly := int(binary.BigEndian.Uint32(b[4:]))
	if lx > 32 || ly > 32 || len(b) < 8+lx+ly {
		return nil, nil, fmt.Errorf("unexpected encoding %x", b)
	}
	x, y := new(big.Int).SetBytes(b[8:8+lx]), new(big.Int).SetBytes(b[8+lx:8+lx+ly])
	return []string{tr.Hex(x), tr.Hex(y)}, b[8+lx+ly:], nil
}

func encodeXY(x, y *big.Int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(len(x.Bytes())))
	binary.BigEndian.PutUint32(b[4:], uint32(len(y.Bytes())))
	return append(append(b, x.Bytes()...), y.Bytes()...)
}

type curveMachine struct {
	g      curve.Group
	regs   map[int]curve.Point
	pool   map[string]*big.Int
	shared bool
}

func (m *curveMachine) scalar(k string) *big.Int {
	if !m.shared {
		return tr.Num(k)
	}
	if m.pool[k] == nil {
		m.pool[k] = m.scalarObject(k)
	}
	return m.pool[k]
}

func (m *curveMachine) scalarObject(k string) *big.Int {
	x := tr.Num(k)
	if o := m.g.Order(); o.Cmp(x) == 0 {
		return o // the shared constant itself
	}
	return x
}

func (m *curveMachine) snapshot() map[int]string {
	out := map[int]string{}
	for r, p := range m.regs {
		c, err := coords(m.g, p)
		out[r] = fmt.Sprint(c, err)
	}
	return out
}

// do executes a step and returns its event
func (m *curveMachine) do(s step) tr.Ev {
	e := tr.Ev{"op": s.Op, "d": s.D, "panic": "", "pt": []string{}, "eqs": []int{}, "chg": []int{}, "kafter": "", "shared": []string{}}
	if s.A != 0 {
		e["a"] = s.A
	}
	if s.B != 0 {
		e["b"] = s.B
	}
	if s.K != "" {
		e["k"] = s.K
	}
	if s.Op == "load" {
		e["x"], e["y"] = s.X, s.Y
	}
	before := m.snapshot()
	old := m.regs[s.D]
	var res curve.Point
	var k *big.Int
	p := tr.Guard(func() {
		switch s.Op {
		case "neutral":
			res = m.g.Neutral()
		case "gen":
			res = m.g.Gen()
		case "load":
			var err error
			if res, err = m.g.Decode(bytes.NewReader(encodeXY(tr.Num(s.X), tr.Num(s.Y)))); err != nil {
				panic(err)
			}
		case "trip":
			buf := &bytes.Buffer{}
			if err := m.g.Encode(m.regs[s.A], buf); err != nil {
				panic(err)
			}
			var err error
			if res, err = m.g.Decode(buf); err != nil {
				panic(err)
			}
			if buf.Len() != 0 {
				panic("not all bytes consumed")
			}
		case "add":
			res = m.g.Add(m.regs[s.A], m.regs[s.B])
		case "neg":
			res = m.g.Neg(m.regs[s.A])
		case "scale":
			k = m.scalar(s.K)
			res = m.g.ScalarMult(m.regs[s.A], k)
		case "base":
			k = m.scalar(s.K)
			res = m.g.ScalarBaseMult(k)
		default:
			panic("harness: unknown step " + s.Op)
		}
		c, err := coords(m.g, res)
		if err != nil {
			panic(err)
		}
		e["pt"] = c
	})
	if p != "" {
		e["panic"] = p
		return e
	}
	m.regs[s.D] = res
	// comparison with every register, in both orders
	eqs := []int{}
	p = tr.Guard(func() {
		for r := range m.regs {
			x, y := m.g.Equal(res, m.regs[r]), m.g.Equal(m.regs[r], res)
			if x != y {
				panic("comparison is not symmetric")
			}
			if x {
				eqs = append(eqs, r)
			}
		}
	})
	e["eqs"] = eqs
	e["panic"] = p
	// points that changed although the step only produces a new one
	chg := []int{}
	for r, c := range m.snapshot() {
		if r == s.D {
			if c != fmt.Sprint(e["pt"], nil) {
				chg = append(chg, r)
			}
		} else if before[r] != c {
			chg = append(chg, r)
		}
	}
	if c, err := coords(m.g, old); fmt.Sprint(c, err) != before[s.D] {
		chg = append(chg, s.D)
	}
	e["chg"] = chg
	if k != nil {
		e["kafter"] = tr.Hex(k)
	}
	if q := tr.Guard(func() { e["shared"] = constants(m.g) }); q != "" {
		e["panic"] = q
	}
	return e
}

// constants are the shared constants of the group
func constants(g curve.Group) []string {
	c, err := coords(g, g.Gen())
	if err != nil {
		panic(err)
	}
	return append(c, tr.Hex(g.Order()))
}

func newCurveMachine(shared bool, nRegs int) *curveMachine {
	m := &curveMachine{curve.NewSecp256k1Group(), map[int]curve.Point{}, map[string]*big.Int{}, shared}
	for i := 1; i <= nRegs; i++ {
		m.regs[i] = m.g.Neutral()
	}
	return m
}

// the constants when the process started
var shared0 []string

func runCurve(raw []byte, w *tr.Writer, id int) {
	var sc curveScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	m := newCurveMachine(sc.Shared, 4)
	if shared0 == nil {
		shared0 = constants(m.g)
	}
	w.Put(tr.Ev{"op": "reset", "id": id, "shared": shared0})
	for _, s := range sc.Steps {
		e := m.do(s)
		w.Put(e)
		if e["panic"] != "" {
			break
		}
	}
	if len(sc.Threads) == 0 {
		return
	}
	// every thread works on the same group, the same point objects and the same scalars; it keeps its results to itself
	evs := make([][]tr.Ev, len(sc.Threads))
	pool := map[string]*big.Int{}
	for _, th := range sc.Threads {
		for _, s := range th {
			if s.K != "" && pool[s.K] == nil {
				pool[s.K] = m.scalarObject(s.K)
			}
		}
	}
	var wg sync.WaitGroup
	for i, th := range sc.Threads {
		mine := &curveMachine{m.g, map[int]curve.Point{}, pool, true}
		for r, p := range m.regs {
			mine.regs[r] = p
		}
		wg.Add(1)
		go func(i int, th []step) {
			defer wg.Done()
			for _, s := range th {
				e := mine.do(s)
				evs[i] = append(evs[i], e)
				if e["panic"] != "" {
					return
				}
			}
		}(i, th)
	}
	wg.Wait()
	for i := range evs {
		if i > 0 {
			// the next thread starts from the same registers
			w.Put(tr.Ev{"op": "restore", "id": id})
		} else {
			w.Put(tr.Ev{"op": "save", "id": id})
		}
		for _, e := range evs[i] {
			w.Put(e)
		}
	}
}
