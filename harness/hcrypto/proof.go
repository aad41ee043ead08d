package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"a.verif/harness/rnd"
	"a.verif/harness/tr"

	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// src says where a part of an assembled proof comes from
type src struct {
	P    int    `json:"p"`    // a proof ...
	Part string `json:"part"` // ... and its part z1, z2, x1, x2
	K    string `json:"k"`    // or a number, respectively its multiple of the generator
	C    int    `json:"c"`    // or a component of a commitment
	N    int    `json:"n"`
	Neg  bool   `json:"neg"`
}

type proofStep struct {
	Op    string         `json:"op"`
	Kind  string         `json:"kind"`
	F     int            `json:"f"`
	D     int            `json:"d"`
	P     int            `json:"p"`
	C     int            `json:"c"`
	C2    int            `json:"c2"`
	A     string         `json:"a"`
	B     string         `json:"b"`
	PA    int            `json:"pa"`
	PB    int            `json:"pb"`
	KA    string         `json:"ka"`
	KB    string         `json:"kb"`
	V     string         `json:"v"`
	R     string         `json:"r"`
	K     string         `json:"k"`
	Z1    string         `json:"z1"`
	Z2    string         `json:"z2"`
	Draws []string       `json:"draws"`
	Parts map[string]src `json:"parts"`
	Omit  string         `json:"omit"`
	Q     []string       `json:"q"`
	Trip  bool           `json:"trip"`
	Msgs  []string       `json:"msgs"`
	Seed  string         `json:"seed"`
}

type proofScenario struct {
	F       map[string]string `json:"f"` // factories: the logarithms of their bases
	Steps   []proofStep       `json:"steps"`
	Threads [][]proofStep     `json:"threads"`
	Shared  bool              `json:"shared"` // equal numbers are one object, the order is the order of the group itself
}

// proof is what a proof consists of on the wire
type parts struct {
	z1, z2 *big.Int
	x1, x2 []byte // encoded points
}

// aProof is a proof object
type aProof struct {
	kind    string
	know    *zkpok.ZKEGKnow
	refresh *zkpok.ZKEGRefresh
}

func (p *aProof) bytes() []byte {
	buf := &bytes.Buffer{}
	var err error
	if p.kind == "know" {
		err = p.know.Encode(buf)
	} else {
		err = p.refresh.Encode(buf)
	}
	if err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func decodeProof(kind string, b []byte) (*aProof, error) {
	r := bytes.NewReader(b)
	p := &aProof{kind: kind}
	var err error
	if kind == "know" {
		p.know = &zkpok.ZKEGKnow{}
		err = p.know.Decode(r)
	} else {
		p.refresh = &zkpok.ZKEGRefresh{}
		err = p.refresh.Decode(r)
	}
	if err == nil && r.Len() != 0 {
		err = fmt.Errorf("not all bytes consumed")
	}
	return p, err
}

func (p *aProof) verify(f *commitment.ElGamalFactory, c, c2 *commitment.ElGamal) error {
	if p.kind == "know" {
		return p.know.Verify(f, c)
	}
	return p.refresh.Verify(f, c, c2)
}

func cutProof(kind string, b []byte) (*parts, error) {
	n := 2
	if kind == "refresh" {
		n = 1
	}
	bad := fmt.Errorf("unexpected encoding of a proof %x", b)
	if len(b) < 4*n {
		return nil, bad
	}
	lens := make([]int, n)
	for i := range lens {
		lens[i] = int(binary.BigEndian.Uint32(b[4*i:]))
	}
	b = b[4*n:]
	zs := []*big.Int{big.NewInt(0), big.NewInt(0)}
	for i, l := range lens {
		if l > len(b) {
			return nil, bad
		}
		zs[i] = new(big.Int).SetBytes(b[:l])
		b = b[l:]
	}
	_, rest, err := cutPoint(b)
	if err != nil {
		return nil, err
	}
	x1 := b[:len(b)-len(rest)]
	if _, err := parsePoint(rest); err != nil {
		return nil, err
	}
	return &parts{zs[0], zs[1], x1, rest}, nil
}

func (p *parts) join(kind string) []byte {
	z1, z2 := p.z1.Bytes(), p.z2.Bytes()
	buf := &bytes.Buffer{}
	binary.Write(buf, binary.BigEndian, uint32(len(z1)))
	if kind == "know" {
		binary.Write(buf, binary.BigEndian, uint32(len(z2)))
	}
	buf.Write(z1)
	if kind == "know" {
		buf.Write(z2)
	}
	buf.Write(p.x1)
	buf.Write(p.x2)
	return buf.Bytes()
}

func (p *parts) ev(kind string) tr.Ev {
	x1, _ := parsePoint(p.x1)
	x2, _ := parsePoint(p.x2)
	z2 := p.z2
	if kind != "know" {
		z2 = big.NewInt(0)
	}
	return tr.Ev{"z1": tr.Hex(p.z1), "z2": tr.Hex(z2), "x1": x1, "x2": x2}
}

type proofMachine struct {
	g      curve.Group
	f      map[int]*commitment.ElGamalFactory
	h      map[int]*big.Int
	comms  map[int]*commitment.ElGamal
	proofs map[int]*aProof
	pool   *sync.Map
}

func (m *proofMachine) num(x string) *big.Int {
	n := tr.Num(x)
	if m.pool == nil {
		return n
	}
	if n.Cmp(m.g.Order()) == 0 {
		return m.g.Order()
	}
	o, _ := m.pool.LoadOrStore(x, n)
	return o.(*big.Int)
}

func (m *proofMachine) enc(p curve.Point) []byte {
	buf := &bytes.Buffer{}
	if err := m.g.Encode(p, buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func (m *proofMachine) dec(b []byte) curve.Point {
	p, err := m.g.Decode(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	return p
}

// comps are the two points of a commitment
func (m *proofMachine) comps(c *commitment.ElGamal) (curve.Point, curve.Point) {
	buf := &bytes.Buffer{}
	if err := c.Encode(buf); err != nil {
		panic(err)
	}
	_, rest, err := cutPoint(buf.Bytes())
	if err != nil {
		panic(err)
	}
	return m.dec(buf.Bytes()[:buf.Len()-len(rest)]), m.dec(rest)
}

func (m *proofMachine) comm(a, b curve.Point) *commitment.ElGamal {
	c := &commitment.ElGamal{}
	if err := c.Decode(bytes.NewReader(append(m.enc(a), m.enc(b)...))); err != nil {
		panic(err)
	}
	return c
}

func (m *proofMachine) state() []string {
	out := []string{}
	for i, f := range m.f {
		out = append(out, fmt.Sprint("f", i, factoryState(f)))
	}
	for i, c := range m.comms {
		out = append(out, fmt.Sprint("c", i, mustEncComm(c)))
	}
	for i, p := range m.proofs {
		if p != nil {
			out = append(out, fmt.Sprintf("p%d %x", i, p.bytes()))
		}
	}
	sort.Strings(out)
	return out
}

func script(draws []string) {
	if len(draws) == 0 {
		return
	}
	ds := make([][]byte, len(draws))
	for i, d := range draws {
		ds[i] = tr.Num(d).Bytes()
	}
	rnd.Script(ds...)
}

func (m *proofMachine) prove(s proofStep, v, r *big.Int) (*aProof, error) {
	p := &aProof{kind: s.Kind}
	var err error
	if s.Kind == "know" {
		p.know, err = zkpok.NewZKEGKnow(m.f[s.F], m.comms[s.C], v, r)
	} else {
		p.refresh, err = zkpok.NewZKEGRefresh(m.f[s.F], m.comms[s.C], m.comms[s.C2], r)
	}
	return p, err
}

func (m *proofMachine) part(name string, s src) (*big.Int, []byte) {
	if s.P != 0 {
		p := m.proofs[s.P]
		if p == nil {
			return nil, nil
		}
		q, err := cutProof(p.kind, p.bytes())
		if err != nil {
			panic(err)
		}
		x := map[string][]byte{"x1": q.x1, "x2": q.x2}[s.Part]
		if x != nil && s.Neg {
			x = m.enc(m.g.Neg(m.dec(x)))
		}
		z := map[string]*big.Int{"z1": q.z1, "z2": q.z2}[s.Part]
		if z != nil && s.Neg {
			z = new(big.Int).Sub(m.g.Order(), z)
			z.Mod(z, m.g.Order())
		}
		return z, x
	}
	if s.C != 0 {
		a, b := m.comps(m.comms[s.C])
		if s.N == 2 {
			a = b
		}
		if s.Neg {
			a = m.g.Neg(a)
		}
		return nil, m.enc(a)
	}
	k := tr.Num(s.K)
	return k, m.enc(m.g.ScalarBaseMult(k))
}

func (m *proofMachine) assemble(e tr.Ev, s proofStep, q *parts) {
	m.proofs[s.P] = nil
	p, err := decodeProof(s.Kind, q.join(s.Kind))
	if err != nil {
		e["err"] = err.Error()
		return
	}
	m.proofs[s.P] = p
}

func (m *proofMachine) do(s proofStep) tr.Ev {
	e := tr.Ev{"op": s.Op, "panic": "", "err": "", "chg": []string{}}
	N := m.g.Order()
	before := m.state()
	var scal []*big.Int
	var scalWas []string
	num := func(x string) *big.Int {
		n := m.num(x)
		scal, scalWas = append(scal, n), append(scalWas, x)
		return n
	}
	e["panic"] = tr.Guard(func() {
		switch s.Op {
		case "comm":
			e["d"], e["f"], e["v"], e["r"] = s.D, s.F, s.V, s.R
			m.comms[s.D] = m.f[s.F].Create(num(s.V), num(s.R))
		case "pair":
			e["d"], e["a"], e["b"] = s.D, s.A, s.B
			m.comms[s.D] = m.comm(m.g.ScalarBaseMult(tr.Num(s.A)), m.g.ScalarBaseMult(tr.Num(s.B)))
		case "compose":
			e["d"], e["c"], e["c2"] = s.D, s.C, s.C2
			m.comms[s.D] = m.f[1].Neutral().Compose(m.comms[s.C], m.comms[s.C2])
		case "exp":
			e["d"], e["c"], e["k"] = s.D, s.C, s.K
			m.comms[s.D] = m.f[1].Neutral().Exp(m.comms[s.C], num(s.K))
		case "inv":
			e["d"], e["c"] = s.D, s.C
			m.comms[s.D] = m.f[1].Neutral().Inverse(m.comms[s.C])
		case "tripc":
			// the commitment travels
			e["d"], e["c"] = s.D, s.C
			a, b := m.comps(m.comms[s.C])
			m.comms[s.D] = m.comm(a, b)
		case "prove":
			e["p"], e["kind"], e["f"], e["c"], e["v"], e["r"] = s.P, s.Kind, s.F, s.C, s.V, s.R
			if s.Kind == "refresh" {
				e["c2"] = s.C2
			}
			script(s.Draws)
			m.proofs[s.P] = nil
			p, err := m.prove(s, num(s.V), num(s.R))
			if err != nil {
				e["err"] = err.Error()
				return
			}
			m.proofs[s.P] = p
			q, err := cutProof(p.kind, p.bytes())
			if err != nil {
				panic(err)
			}
			e["parts"] = q.ev(p.kind)
		case "splice":
			e["p"], e["kind"] = s.P, s.Kind
			m.proofs[s.P] = nil
			q := &parts{z1: big.NewInt(0), z2: big.NewInt(0)}
			ok := true
			for name, sr := range s.Parts {
				z, x := m.part(name, sr)
				if z == nil && x == nil {
					ok = false
					continue
				}
				switch name {
				case "z1":
					q.z1 = z
				case "z2":
					q.z2 = z
				case "x1":
					q.x1 = x
				case "x2":
					q.x2 = x
				}
			}
			if ok {
				m.assemble(e, s, q)
			}
		case "lin":
			e["p"], e["kind"] = s.P, s.Kind
			m.proofs[s.P] = nil
			a, b := m.proofs[s.PA], m.proofs[s.PB]
			if a == nil || b == nil {
				return
			}
			qa, err := cutProof(s.Kind, a.bytes())
			if err != nil {
				panic(err)
			}
			qb, err := cutProof(s.Kind, b.bytes())
			if err != nil {
				panic(err)
			}
			ka, kb := tr.Num(s.KA), tr.Num(s.KB)
			lin := func(x, y *big.Int) *big.Int {
				r := new(big.Int).Mul(x, ka)
				r.Add(r, new(big.Int).Mul(y, kb))
				return r.Mod(r, N)
			}
			linp := func(x, y []byte) []byte {
				return m.enc(m.g.Add(m.g.ScalarMult(m.dec(x), ka), m.g.ScalarMult(m.dec(y), kb)))
			}
			m.assemble(e, s, &parts{lin(qa.z1, qb.z1), lin(qa.z2, qb.z2), linp(qa.x1, qb.x1), linp(qa.x2, qb.x2)})
		case "forge":
			m.forge(e, s)
		case "verify":
			e["p"], e["f"], e["c"], e["trip"] = s.P, s.F, s.C, s.Trip
			if s.C2 != 0 {
				e["c2"] = s.C2
			}
			p := m.proofs[s.P]
			e["made"] = p != nil
			if p == nil {
				return
			}
			e["kind"] = p.kind
			b := p.bytes()
			q, err := cutProof(p.kind, b)
			if err != nil {
				panic(err)
			}
			e["parts"] = q.ev(p.kind)
			e["ok"] = false
			if s.Trip {
				// a failing trip is not a rejection of the proof
				p, err = decodeProof(p.kind, b)
				if err != nil {
					e["err"] = "trip: " + err.Error()
					return
				}
			}
			err = p.verify(m.f[s.F], m.comms[s.C], m.comms[s.C2])
			e["ok"] = err == nil
		case "chal":
			m.chal(e, s)
		case "blind":
			m.blind(e, s)
		case "hash":
			vals := [][]string{}
			for _, x := range s.Msgs {
				b := make([]byte, len(x)/2)
				fmt.Sscanf(x, "%x", &b)
				vals = append(vals, []string{x, tr.Hex(pkg.HashToBigInt(b))})
			}
			e["vals"] = vals
		default:
			panic("harness: unknown step " + s.Op)
		}
	})
	// everything that existed before has to be as it was
	chg := []string{}
	if p := tr.Guard(func() {
		now := map[string]bool{}
		for _, x := range m.state() {
			now[x] = true
		}
		for _, x := range before {
			mine := s.D != 0 && strings.HasPrefix(x, fmt.Sprintf("c%d ", s.D)) || s.P != 0 && s.Op != "verify" && strings.HasPrefix(x, fmt.Sprintf("p%d ", s.P))
			if !now[x] && !mine {
				chg = append(chg, x)
			}
		}
	}); p != "" {
		chg = append(chg, p)
	}
	for i, x := range scal {
		if tr.Hex(x) != scalWas[i] {
			chg = append(chg, scalWas[i]+" became "+tr.Hex(x))
		}
	}
	if tr.Hex(m.g.Order()) != "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141" {
		chg = append(chg, "order")
	}
	e["chg"] = chg
	return e
}

// chal finds out the challenge of the prover for a statement and a first message: two proofs with the same randomness
// and with witnesses that differ by one differ in the responses by exactly the challenge.
func (m *proofMachine) chal(e tr.Ev, s proofStep) {
	e["kind"], e["f"], e["c"] = s.Kind, s.F, s.C
	if s.Kind == "refresh" {
		e["c2"] = s.C2
	}
	e["e"] = ""
	N := m.g.Order()
	run := func(d int64) *parts {
		rnd.Seed([]byte("chal"))
		defer rnd.Seed(nil)
		script(s.Draws)
		p, err := m.prove(s, big.NewInt(12345+d), big.NewInt(67890+d))
		if err != nil {
			e["err"] = err.Error()
			return nil
		}
		q, err := cutProof(p.kind, p.bytes())
		if err != nil {
			panic(err)
		}
		return q
	}
	a, b := run(0), run(1)
	if a == nil || b == nil {
		return
	}
	if !bytes.Equal(a.x1, b.x1) || !bytes.Equal(a.x2, b.x2) {
		e["err"] = "the first message is not determined by the randomness"
		return
	}
	d1 := new(big.Int).Sub(b.z1, a.z1)
	d1.Mod(d1, N)
	if s.Kind == "know" {
		d2 := new(big.Int).Sub(b.z2, a.z2)
		if d2.Mod(d2, N).Cmp(d1) != 0 {
			e["err"] = "two challenges"
			return
		}
	}
	e["e"] = tr.Hex(d1)
	e["parts"] = a.ev(s.Kind)
	st := [][][]string{mustEncComm(m.comms[s.C])}
	if s.Kind == "refresh" {
		st = append(st, mustEncComm(m.comms[s.C2]))
	}
	e["stmt"] = st
}

// blind makes a proof, and then another one with the same randomness for the witness zero: its responses are what blinds
// those of the first, if both begin with the same message.
func (m *proofMachine) blind(e tr.Ev, s proofStep) {
	e["kind"], e["f"], e["c"], e["v"], e["r"] = s.Kind, s.F, s.C, s.V, s.R
	if s.Kind == "refresh" {
		e["c2"] = s.C2
	}
	defer rnd.Seed(nil)
	run := func(v, r string) *parts {
		rnd.Seed([]byte("blind" + s.Seed))
		p, err := m.prove(s, m.num(v), m.num(r))
		if err != nil {
			e["err"] = err.Error()
			return nil
		}
		q, err := cutProof(p.kind, p.bytes())
		if err != nil {
			panic(err)
		}
		return q
	}
	a := run(s.V, s.R)
	if a == nil {
		return
	}
	e["parts"] = a.ev(s.Kind)
	if b := run("0", "0"); b != nil && bytes.Equal(a.x1, b.x1) && bytes.Equal(a.x2, b.x2) {
		e["blinds"] = b.ev(s.Kind)
	}
}

// forge assembles a proof without a witness, given a challenge that does not depend on everything (see MCProofs).
// s.Q lists the fields that are hashed, s.Omit names what is computed from the challenge.
func (m *proofMachine) forge(e tr.Ev, s proofStep) {
	g, N := m.g, m.g.Order()
	f, h := m.f[s.F], m.h[s.F]
	e["p"], e["kind"], e["f"], e["c"], e["omit"], e["q"] = s.P, s.Kind, s.F, s.C, s.Omit, s.Q
	m.proofs[s.P] = nil
	H := g.ScalarBaseMult(h)
	mul := func(p curve.Point, k *big.Int) curve.Point { return g.ScalarMult(p, new(big.Int).Mod(k, N)) }
	base := func(k *big.Int) curve.Point { return g.ScalarBaseMult(new(big.Int).Mod(k, N)) }
	sub := func(a, b curve.Point) curve.Point { return g.Add(a, g.Neg(b)) }
	// statement: delta = s2 - s1 for refresh, s1 for know
	c1a, c1b := m.comps(m.comms[s.C])
	var c2a, c2b curve.Point
	da, db := c1a, c1b
	if s.Kind == "refresh" {
		e["c2"] = s.C2
		c2a, c2b = m.comps(m.comms[s.C2])
		da, db = sub(c2a, c1a), sub(c2b, c1b)
	}
	// what the forger knows: A is the logarithm of the component of delta that is not omitted
	// (for know: the second component is w*G, the first r*G; for refresh: delta is <<w*G, ?>> or <<?, w*H>>)
	w := tr.Num(s.A)
	sigma, rho := tr.Num(s.Z1), tr.Num(s.Z2)
	z1, z2 := new(big.Int).Set(sigma), new(big.Int).Set(rho)
	X, Y := base(tr.Num(s.KA)), base(tr.Num(s.KB))
	var x1, x2 curve.Point
	know := s.Kind == "know"
	if !know {
		rho, z2 = big.NewInt(0), big.NewInt(0)
	}
	// before the challenge
	switch s.Omit {
	case "x":
	case "x1":
		x2 = g.Add(mul(H, sigma), base(rho))
	case "x2":
		x1 = base(sigma)
	case "s", "d", "dl":
		x1, x2 = X, Y
	case "s1", "d1", "dl1":
		x1, x2 = X, g.Add(mul(H, sigma), base(rho))
	case "s2", "d2", "dl2":
		x1, x2 = base(sigma), X
	}
	fields := map[string]curve.Point{"s1": c1a, "s2": c1b, "t1": c2a, "t2": c2b, "x1": x1, "x2": x2, "g": g.Gen(), "h": H}
	msg := []byte{}
	for _, name := range s.Q {
		p := fields[name]
		if p == nil {
			panic("harness: field " + name + " is not known before the challenge")
		}
		msg = append(msg, m.enc(p)...)
	}
	c := pkg.HashToBigInt(msg)
	ci := new(big.Int).ModInverse(c, N)
	if ci == nil {
		panic("harness: challenge is zero")
	}
	ew := new(big.Int).Mul(c, w)
	// after the challenge
	switch s.Omit {
	case "x":
		x1 = sub(base(z1), mul(da, c))
		x2 = sub(g.Add(base(z2), mul(H, z1)), mul(db, c))
	case "x1":
		if know {
			z2.Add(rho, ew) // the second point of the statement is w*G
		} else {
			z1.Add(sigma, ew) // the second point of delta is w*H
		}
		x1 = sub(base(z1), mul(da, c))
	case "x2":
		z1.Add(sigma, ew) // the first point of delta is w*G
		x2 = sub(g.Add(base(z2), mul(H, z1)), mul(db, c))
	case "s", "d", "dl":
		da = mul(sub(base(z1), X), ci)
		db = mul(sub(g.Add(base(z2), mul(H, z1)), Y), ci)
	case "s1", "d1", "dl1":
		if know {
			z2.Add(rho, ew)
		} else {
			z1.Add(sigma, ew)
		}
		da = mul(sub(base(z1), X), ci)
	case "s2", "d2", "dl2":
		z1.Add(sigma, ew)
		db = mul(sub(g.Add(base(z2), mul(H, z1)), X), ci)
	}
	z1.Mod(z1, N)
	z2.Mod(z2, N)
	// the statement, if it was chosen after the challenge
	if know {
		m.comms[s.D] = m.comm(da, db)
	} else if s.Omit[0] == 'd' && len(s.Omit) > 1 && s.Omit[1] == 'l' {
		// the left commitment was computed
		m.comms[s.D] = m.comm(sub(c2a, da), sub(c2b, db))
	} else {
		m.comms[s.D] = m.comm(g.Add(c1a, da), g.Add(c1b, db))
	}
	// does it satisfy the equation for that challenge? (it has to, or the forgery tests nothing)
	left := f.Neutral()
	left.Compose(m.comm(x1, x2), left.Exp(m.comm(da, db), c))
	e["weak"] = left.Equal(left, f.Create(z2, z1))
	e["d"] = s.D
	e["dpts"] = mustEncComm(m.comms[s.D])
	m.assemble(e, s, &parts{z1, z2, m.enc(x1), m.enc(x2)})
}

func newProofMachine(f map[string]string) *proofMachine {
	g := curve.NewSecp256k1Group()
	m := &proofMachine{g, map[int]*commitment.ElGamalFactory{}, map[int]*big.Int{}, map[int]*commitment.ElGamal{}, map[int]*aProof{}, nil}
	for k, h := range f {
		var i int
		fmt.Sscan(k, &i)
		m.h[i] = tr.Num(h)
		m.f[i] = commitment.NewElGamalFactory(g.ScalarBaseMult(m.h[i]))
	}
	return m
}

func runProof(raw []byte, w *tr.Writer, id int) {
	var sc proofScenario
	if err := json.Unmarshal(raw, &sc); err != nil {
		panic(err)
	}
	m := newProofMachine(sc.F)
	if sc.Shared {
		m.pool = &sync.Map{}
	}
	bases := []string{}
	for i := 1; i <= len(sc.F); i++ {
		bases = append(bases, sc.F[fmt.Sprint(i)])
	}
	w.Put(tr.Ev{"op": "reset", "id": id, "bases": bases})
	for _, s := range sc.Steps {
		e := m.do(s)
		w.Put(e)
	}
	if len(sc.Threads) == 0 {
		return
	}
	evs := make([][]tr.Ev, len(sc.Threads))
	var wg sync.WaitGroup
	for i, th := range sc.Threads {
		mine := &proofMachine{m.g, m.f, m.h, map[int]*commitment.ElGamal{}, map[int]*aProof{}, m.pool}
		for k, c := range m.comms {
			mine.comms[k] = c
		}
		for k, p := range m.proofs {
			mine.proofs[k] = p
		}
		wg.Add(1)
		go func(i int, th []proofStep) {
			defer wg.Done()
			for _, s := range th {
				evs[i] = append(evs[i], mine.do(s))
			}
		}(i, th)
	}
	wg.Wait()
	for i := range evs {
		if i == 0 {
			w.Put(tr.Ev{"op": "save", "id": id})
		} else {
			w.Put(tr.Ev{"op": "restore", "id": id})
		}
		for _, e := range evs[i] {
			w.Put(e)
		}
	}
}
