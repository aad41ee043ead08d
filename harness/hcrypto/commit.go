package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// base says which point the commitments are made with
type base struct {
	K string `json:"k"`
	X string `json:"x"`
	Y string `json:"y"`
}

func (b base) point(g curve.Group) curve.Point {
	if b.K == "" {
		p, err := g.Decode(bytes.NewReader(encodeXY(tr.Num(b.X), tr.Num(b.Y))))
		if err != nil {
			panic(err)
		}
		return p
	}
	return g.ScalarBaseMult(tr.Num(b.K))
}

type commitStep struct {
	Op   string `json:"op"`
	D    int    `json:"d"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	K    string `json:"k"`
	V    string `json:"v"`
	R    string `json:"r"`
	Into string `json:"into"`
}

type commitScenario struct {
	H       base           `json:"h"`
	Shared  bool           `json:"shared"`
	Steps   []commitStep   `json:"steps"`
	Threads [][]commitStep `json:"threads"`
}

// encComm is what the outside sees of a commitment: two points
func encComm(c *commitment.ElGamal) ([][]string, error) {
	buf := &bytes.Buffer{}
	if err := c.Encode(buf); err != nil {
		return nil, err
	}
	a, rest, err := cutPoint(buf.Bytes())
	if err != nil {
		return nil, err
	}
	b, err := parsePoint(rest)
	if err != nil {
		return nil, err
	}
	return [][]string{a, b}, nil
}

func mustEncComm(c *commitment.ElGamal) [][]string {
	e, err := encComm(c)
	if err != nil {
		panic(err)
	}
	return e
}

type commitMachine struct {
	f      *commitment.ElGamalFactory
	regs   map[int]*commitment.ElGamal
	pool   map[string]*big.Int
	shared bool
}

// factoryState is what the outside sees of a factory and of the constants behind it
func factoryState(f *commitment.ElGamalFactory) []string {
	s := constants(f.Curve())
	s = append(s, fmt.Sprint(mustEncComm(f.Neutral())), fmt.Sprint(mustEncComm(f.Create(big.NewInt(0), big.NewInt(1)))),
		fmt.Sprint(f.IsNeutral(f.Neutral())), fmt.Sprint(f.IsNeutral(f.Create(big.NewInt(1), big.NewInt(0)))))
	return s
}

func (m *commitMachine) scalar(k string) *big.Int {
	if !m.shared {
		return tr.Num(k)
	}
	if m.pool[k] == nil {
		x := tr.Num(k)
		if o := m.f.Curve().Order(); o.Cmp(x) == 0 {
			x = o
		}
		m.pool[k] = x
	}
	return m.pool[k]
}

func (m *commitMachine) snapshot() map[int]string {
	out := map[int]string{}
	for r, c := range m.regs {
		e, err := encComm(c)
		out[r] = fmt.Sprint(e, err)
	}
	return out
}

func (m *commitMachine) do(s commitStep) tr.Ev {
	e := tr.Ev{"op": s.Op, "d": s.D, "panic": "", "enc": [][]string{}, "ret": [][]string{}, "eqs": []int{}, "chg": []int{}, "schg": []string{}, "isn": false, "shared": []string{}}
	if s.A != 0 {
		e["a"] = s.A
	}
	if s.B != 0 {
		e["b"] = s.B
	}
	for k, v := range map[string]string{"k": s.K, "v": s.V, "r": s.R, "into": s.Into} {
		if v != "" {
			e[k] = v
		}
	}
	before := m.snapshot()
	old := m.regs[s.D]
	scalars := map[string]*big.Int{}
	sc := func(k string) *big.Int {
		x := m.scalar(k)
		scalars[k] = x
		return x
	}
	var c, ret *commitment.ElGamal
	inPlace := false
	p := tr.Guard(func() {
		switch s.Into {
		case "self":
			c = m.regs[s.D]
			inPlace = true
		case "neutral":
			c = m.f.Neutral()
		case "used":
			c = m.f.Create(big.NewInt(5), big.NewInt(7))
		}
		switch s.Op {
		case "create":
			c = m.f.Create(sc(s.V), sc(s.R))
			ret = c
		case "neutral":
			c = m.f.Neutral()
			ret = c
		case "compose":
			ret = c.Compose(m.regs[s.A], m.regs[s.B])
		case "exp":
			ret = c.Exp(m.regs[s.A], sc(s.K))
		case "inv":
			ret = c.Inverse(m.regs[s.A])
		case "trip", "into":
			buf := &bytes.Buffer{}
			if err := m.regs[s.A].Encode(buf); err != nil {
				panic(err)
			}
			c = &commitment.ElGamal{}
			if s.Op == "into" {
				c = m.regs[s.D]
				inPlace = true
			}
			if err := c.Decode(buf); err != nil {
				panic(err)
			}
			if buf.Len() != 0 {
				panic("not all bytes consumed")
			}
			ret = c
		default:
			panic("harness: unknown step " + s.Op)
		}
		e["enc"] = mustEncComm(c)
		e["ret"] = mustEncComm(ret)
	})
	if p != "" {
		e["panic"] = p
		return e
	}
	m.regs[s.D] = c
	eqs := []int{}
	p = tr.Guard(func() {
		for r := range m.regs {
			x, y := c.Equal(c, m.regs[r]), m.regs[1].Equal(m.regs[r], c)
			if x != y {
				panic("comparison is not symmetric")
			}
			if x {
				eqs = append(eqs, r)
			}
		}
		e["isn"] = m.f.IsNeutral(c)
	})
	e["eqs"] = eqs
	e["panic"] = p
	chg := []int{}
	for r, x := range m.snapshot() {
		if r == s.D {
			if x != fmt.Sprint(e["enc"], nil) {
				chg = append(chg, r)
			}
		} else if before[r] != x {
			chg = append(chg, r)
		}
	}
	if !inPlace {
		if x, err := encComm(old); fmt.Sprint(x, err) != before[s.D] {
			chg = append(chg, s.D)
		}
	}
	e["chg"] = chg
	schg := []string{}
	for k, x := range scalars {
		if tr.Hex(x) != k {
			schg = append(schg, k+" became "+tr.Hex(x))
		}
	}
	e["schg"] = schg
	if q := tr.Guard(func() { e["shared"] = factoryState(m.f) }); q != "" {
		e["panic"] = q
	}
	return e
}

func runCommit(raw []byte, w *tr.Writer, id int) {
	var sc commitScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	g := curve.NewSecp256k1Group()
	h := sc.H.point(g)
	f := commitment.NewElGamalFactory(h)
	hc, err := coords(g, h)
	if err != nil {
		panic(err)
	}
	// what the factory must look like, said by another one
	w.Put(tr.Ev{"op": "reset", "id": id, "base": hc, "shared": factoryState(commitment.NewElGamalFactory(sc.H.point(g)))})
	m := &commitMachine{f, map[int]*commitment.ElGamal{}, map[string]*big.Int{}, sc.Shared}
	for i := 1; i <= 4; i++ {
		m.regs[i] = f.Neutral()
	}
	for _, s := range sc.Steps {
		e := m.do(s)
		w.Put(e)
		if e["panic"] != "" {
			return
		}
	}
	if len(sc.Threads) == 0 {
		return
	}
	for _, th := range sc.Threads {
		for _, s := range th {
			for _, k := range []string{s.K, s.V, s.R} {
				if k != "" {
					m.scalar(k)
				}
			}
		}
	}
	evs := make([][]tr.Ev, len(sc.Threads))
	var wg sync.WaitGroup
	for i, th := range sc.Threads {
		mine := &commitMachine{f, map[int]*commitment.ElGamal{}, m.pool, true}
		for r, c := range m.regs {
			mine.regs[r] = c
		}
		// registers 3 and 4 are the thread's own, the others are only read
		for r := 3; r <= 4; r++ {
			c := &commitment.ElGamal{}
			buf := &bytes.Buffer{}
			if m.regs[r].Encode(buf) != nil || c.Decode(buf) != nil {
				return
			}
			mine.regs[r] = c
		}
		wg.Add(1)
		go func(i int, th []commitStep) {
			defer wg.Done()
			for _, s := range th {
				e := mine.do(s)
				evs[i] = append(evs[i], e)
				if e["panic"] != "" {
					return
				}
			}
		}(i, th)
	}
	wg.Wait()
	for i := range evs {
		if i > 0 {
			w.Put(tr.Ev{"op": "restore", "id": id})
		} else {
			w.Put(tr.Ev{"op": "save", "id": id})
		}
		for _, e := range evs[i] {
			w.Put(e)
		}
	}
}
