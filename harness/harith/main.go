// Command harith executes scenarios on the arith package: the parties of a protocol run against an in-memory network,
// and what they return and send is recorded.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"sort"
	gosync "sync"

	"a.verif/harness/lockstep"
	"a.verif/harness/pts"
	"a.verif/harness/rnd"
	"a.verif/harness/tr"

	"github.com/binance-chain/tss-lib/crypto/paillier"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

type op struct {
	Op     string              `json:"op"`
	In     string              `json:"in"`
	In2    string              `json:"in2"`
	Out    string              `json:"out"`
	T      int                 `json:"t"`
	Alpha  string              `json:"alpha"`
	Beta   string              `json:"beta"`
	A      []string            `json:"a"`
	B      []string            `json:"b"`
	U      string              `json:"u"`
	V      string              `json:"v"`
	Draws  map[string][]string `json:"draws"` // per member
	Zeros  int                 `json:"zeros"`
	Net    []lockstep.Rule     `json:"net"`
	Watch  bool                `json:"watch"`
	Shadow bool                `json:"twin"` // shadows use what the party itself has
}

type scenario struct {
	N       int    `json:"n"`
	H       string `json:"h"`
	Shadows []int  `json:"shadows"`
	Ops     []op   `json:"ops"`
}

type value struct {
	ads *arith.ADSecret
	tds *arith.TDSecret
	key *arith.DKey
}

type world struct {
	sc    scenario
	net   *lockstep.Net
	group curve.Group
	egf   *commitment.ElGamalFactory
	mu    gosync.Mutex
	vars  []map[string]value // per member
	draws map[string][][]*big.Int
	w     *tr.Writer
	keys  []*paillier.PrivateKey // of the present operation
}

func (w *world) set(m *lockstep.Member, name string, v value) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.vars[m.Idx][name] = v
}

func (w *world) get(m *lockstep.Member, name string, twin bool) (value, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	i := m.Idx
	if twin {
		i = m.Pid
	}
	v, ok := w.vars[i][name]
	return v, ok
}

func (w *world) coords(p curve.Point) ([]string, error) { return pts.Coords(w.group, p) }

func (w *world) points(data []byte, k int) [][]string { return pts.Heading(w.group, data, k) }

// published: the points a party sent to everybody in a round
func (w *world) published(r, k int) [][][]string {
	out := [][][]string{}
	for p := 0; p < w.sc.N; p++ {
		ps := [][]string{}
		if m := w.net.Sent(r, p, (p+1)%w.sc.N); m != nil && w.sc.N > 1 {
			ps = w.points(m.Data, k)
		}
		out = append(out, ps)
	}
	return out
}

func hexes(xs []*big.Int) []string {
	out := []string{}
	for _, x := range xs {
		out = append(out, tr.Hex(x))
	}
	return out
}

var (
	keyMu gosync.Mutex
	keys  []*paillier.PrivateKey
)

func paillierKeys(n int) []*paillier.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	for len(keys) < n {
		k, _, err := paillier.GenerateKeyPair([]int{1024, 640, 832, 704, 1152}[len(keys)%5], 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(2)
		}
		keys = append(keys, k)
	}
	return keys[:n]
}

func (w *world) step(o op) {
	n := w.sc.N
	ev := tr.Ev{"op": o.Op, "in": o.In, "in2": o.In2, "out": o.Out, "t": o.T, "alpha": o.Alpha, "beta": o.Beta, "u": o.U, "v": o.V, "twin": o.Shadow, "zeros": o.Zeros, "a": o.A, "b": o.B}
	for _, k := range []string{"a", "b"} {
		if ev[k].([]string) == nil {
			ev[k] = []string{}
		}
	}
	for _, m := range w.net.Members {
		d := lockstep.Nums(o.Draws[fmt.Sprint(m.Idx)])
		m.Rand().Plan(d, o.Zeros)
	}
	outs := make([]tr.Ev, len(w.net.Members))
	errs := make([]error, len(w.net.Members))
	var ks []*paillier.PrivateKey
	var pubs []*paillier.PublicKey
	if o.Op == "mult" || o.Op == "privmult" {
		ks = paillierKeys(n)
		w.keys = ks
		for _, k := range ks {
			pubs = append(pubs, &k.PublicKey)
		}
	}
	var in0 curve.Point // the public key of the operand, if it is a key
	if v, ok := w.vars[0][o.In]; ok && v.key != nil {
		in0 = v.key.PublicKey()
	}
	point := func(k string) curve.Point { return w.group.ScalarBaseMult(tr.Num(k)) }
	panics := w.net.Run(o.Net, func(m *lockstep.Member) {
		out := tr.Ev{}
		outs[m.Idx] = out
		in, has := w.get(m, o.In, o.Shadow && m.Shadow)
		in2, has2 := w.get(m, o.In2, o.Shadow && m.Shadow)
		if (o.In != "" && !has) || (o.In2 != "" && !has2) {
			errs[m.Idx] = fmt.Errorf("skipped: an operand does not exist")
			out["skipped"] = true
			return
		}
		pid := uint16(m.Pid)
		var err error
		switch o.Op {
		case "gen":
			var v value
			if v.ads, err = arith.Gen(o.Out, m.Server, w.egf, pid, uint16(n)); err == nil {
				w.set(m, o.Out, v)
				out["label"] = v.ads.Label()
			}
		case "reshare":
			var v value
			if in.tds != nil {
				v.tds, err = in.tds.Reshare(uint16(o.T))
			} else {
				v.tds, err = in.ads.Reshare(uint16(o.T))
			}
			out["got"] = v.tds != nil
			if err == nil && v.tds == nil {
				err = fmt.Errorf("HARNESS no result")
			}
			if err == nil {
				w.set(m, o.Out, v)
				out["label"], out["t"] = v.tds.Label(), int(v.tds.Threshold())
			}
		case "reveal":
			var x *big.Int
			x, err = in.tds.Reveal()
			out["v"] = "nil"
			if err == nil {
				out["v"] = tr.Hex(x)
			}
		case "exp":
			var k *arith.TDKey
			k, err = in.tds.Exp()
			out["pk"], out["label"], out["t"] = []string{"nil"}, "", -1
			if err == nil {
				c, e := w.coords(k.PublicKey())
				if e != nil {
					c = []string{e.Error()}
				}
				out["pk"], out["label"], out["t"] = c, k.Label(), int(k.Threshold())
			}
		case "lin":
			v := value{tds: arith.Lin(tr.Num(o.Alpha), tr.Num(o.Beta), in.tds, in2.tds, o.Out)}
			w.set(m, o.Out, v)
			out["label"], out["t"] = v.tds.Label(), int(v.tds.Threshold())
		case "mult":
			var v value
			if v.ads, err = arith.Mult(in.ads, in2.ads, o.Out, ks[pid], pubs[pid], pubs); err == nil {
				w.set(m, o.Out, v)
				out["label"] = v.ads.Label()
			}
		case "privmult":
			var x *big.Int
			x, err = arith.PrivMult(tr.Num(o.A[pid]), tr.Num(o.B[pid]), int(pid), n, m.Server, ks[pid], pubs[pid], pubs)
			out["v"] = "nil"
			if err == nil {
				out["v"] = tr.Hex(x)
			}
		case "dkey":
			var v value
			v.key, err = arith.GenExpReveal(pid, o.Out, m.Server, uint16(n), w.group)
			out["pk"], out["label"] = []string{"nil"}, ""
			if err == nil {
				w.set(m, o.Out, v)
				c, e := w.coords(v.key.PublicKey())
				if e != nil {
					c = []string{e.Error()}
				}
				out["pk"], out["label"] = c, v.key.Label()
			}
		case "newdkey":
			shares := make([]curve.Point, n)
			for i, s := range o.A {
				shares[i] = point(s)
			}
			v := value{key: arith.NewDKey(arith.NewDSecret(pid, o.Out, tr.Num(o.A[pid]), m.Server), shares, w.group)}
			w.set(m, o.Out, v)
			c, e := w.coords(v.key.PublicKey())
			if e != nil {
				c = []string{e.Error()}
			}
			out["pk"], out["label"] = c, v.key.Label()
		case "checkdh":
			err = arith.CheckDH(point(o.U), point(o.V), w.group, in.key)
		default:
			fmt.Fprintln(os.Stderr, "HARNESS unknown operation", o.Op)
			os.Exit(2)
		}
		errs[m.Idx] = err
	})
	ev["net"] = w.net.Applied
	res := []tr.Ev{}
	draws := [][]*big.Int{}
	for _, m := range w.net.Members {
		draws = append(draws, m.Rand().Log)
		if m.Shadow {
			continue
		}
		e := lockstep.Outcome(errs[m.Idx], panics[m.Idx])
		for k, v := range outs[m.Idx] {
			e[k] = v
		}
		e["rounds"] = m.Entered
		res = append(res, e)
	}
	ev["res"] = res
	if o.Out != "" {
		w.draws[o.Out] = draws
	}
	ev["planned"] = len(o.Draws) > 0 || o.Zeros > 0
	switch o.Op {
	case "privmult", "mult":
		if o.Watch {
			ev["mta"] = w.mta(ks)
		}
	}
	switch o.Op {
	case "gen", "mult":
		r := 1
		if o.Op == "mult" {
			r = 3
			ev["pub4"] = w.published(4, 2)
		}
		if o.Watch {
			ev["logs"] = w.logs(r)
		}
		ev["pub"] = w.published(r, 2)
		ds := [][]string{}
		for p := 0; p < n; p++ {
			ds = append(ds, hexes(draws[p]))
		}
		ev["draws"] = ds
	case "checkdh":
		ev["pub"] = w.published(2, 2)
		if o.Watch {
			ev["logs"] = w.blinds(o, in0)
		}
	case "dkey":
		ev["pub"] = w.published(2, 1)
		if o.Watch {
			ev["logs"] = w.logs(2)
		}
		ds := [][]string{}
		for p := 0; p < n; p++ {
			ds = append(ds, hexes(draws[p]))
		}
		ev["draws"] = ds
	case "reveal":
		sh := []string{}
		for p := 0; p < n; p++ {
			s := ""
			if m := w.net.Sent(1, p, (p+1)%n); m != nil && n > 1 {
				s = tr.Hex(new(big.Int).SetBytes(m.Data))
			}
			sh = append(sh, s)
		}
		ev["shares"] = sh
	case "reshare":
		if o.Watch {
			w.watch(o, draws, ev)
		}
	}
	w.w.Put(ev)
}

// scalars that may have been drawn: what random numbers below some bound become
func scalars(s *rnd.Stream) []*big.Int {
	out := []*big.Int{big.NewInt(0), big.NewInt(1)}
	for _, b := range s.All {
		x := new(big.Int).SetBytes(b)
		for k := 0; k < 8; k++ {
			y := new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b)-k)))
			out = append(out, y.Mod(y, arith.Q))
		}
	}
	return out
}

func (w *world) multiples(p int) ([]*big.Int, []curve.Point) {
	all := scalars(w.net.Members[p].Rand())
	mult := make([]curve.Point, len(all))
	for i := range all {
		mult[i] = w.group.ScalarBaseMult(all[i])
	}
	return all, mult
}

func (w *world) find(p curve.Point, in []curve.Point) int {
	for i := range in {
		if w.group.Equal(p, in[i]) {
			return i
		}
	}
	return -1
}

// logs: for the points that the message of a round begins with, the drawn scalars that they are multiples by, the second
// one as the remainder when the multiple of the other base is taken off; "" if there is none
func (w *world) logs(r int) [][]string {
	out := [][]string{}
	h := w.group.Gen()
	if w.sc.H != "" {
		h = w.group.ScalarBaseMult(tr.Num(w.sc.H))
	}
	for p := 0; p < w.sc.N; p++ {
		l := []string{"", ""}
		if m := w.net.Sent(r, p, (p+1)%w.sc.N); m != nil && w.sc.N > 1 {
			tr.Guard(func() {
				buf := bytes.NewBuffer(append([]byte{}, m.Data...))
				c1, err := w.group.Decode(buf)
				if err != nil {
					return
				}
				c2, err := w.group.Decode(buf)
				all, mult := w.multiples(p)
				i := w.find(c1, mult)
				if i < 0 {
					return
				}
				l[0] = tr.Hex(all[i])
				if err != nil {
					return
				}
				if j := w.find(w.group.Add(c2, w.group.Neg(w.group.ScalarMult(h, all[i]))), mult); j >= 0 {
					l[1] = tr.Hex(all[j])
				}
			})
		}
		out = append(out, l)
	}
	return out
}

// blinds: the two scalars by which a party blinds a tuple, if they can be found
func (w *world) blinds(o op, key curve.Point) [][]string {
	out := [][]string{}
	for p := 0; p < w.sc.N; p++ {
		l := []string{"", ""}
		if m := w.net.Sent(2, p, (p+1)%w.sc.N); m != nil && w.sc.N > 1 && key != nil {
			tr.Guard(func() {
				buf := bytes.NewBuffer(append([]byte{}, m.Data...))
				if _, err := w.group.Decode(buf); err != nil {
					return
				}
				t, err := w.group.Decode(buf)
				if err != nil {
					return
				}
				u := w.group.ScalarBaseMult(tr.Num(o.U))
				all, mult := w.multiples(p)
				for _, x := range all {
					if j := w.find(w.group.Add(t, w.group.Neg(w.group.ScalarMult(u, x))), mult); j >= 0 {
						l = []string{tr.Hex(x), tr.Hex(all[j])}
						return
					}
				}
			})
		}
		out = append(out, l)
	}
	return out
}

// mta: the ciphertexts of the two rounds of a multiplication, and what they decrypt to
func (w *world) mta(ks []*paillier.PrivateKey) []tr.Ev {
	out := []tr.Ev{}
	for i := 0; i < w.sc.N; i++ {
		for j := 0; j < w.sc.N; j++ {
			q, a := w.net.Sent(1, i, j), w.net.Sent(2, j, i)
			if i == j || q == nil || a == nil {
				continue
			}
			e, f := new(big.Int).SetBytes(q.Data), new(big.Int).SetBytes(a.Data)
			de, err1 := ks[i].Decrypt(e)
			df, err2 := ks[i].Decrypt(f)
			if err1 != nil || err2 != nil {
				de, df = big.NewInt(0), big.NewInt(0)
			}
			out = append(out, tr.Ev{"i": i, "j": j, "key": tr.Hex(ks[i].N), "e": tr.Hex(e), "f": tr.Hex(f), "de": tr.Hex(de), "df": tr.Hex(df)})
		}
	}
	return out
}

// watch records the private messages of a resharing, and where secrets can be read
func (w *world) watch(o op, draws [][]*big.Int, ev tr.Ev) {
	n := w.sc.N
	msgs := w.net.Messages()
	sort.Slice(msgs, func(i, j int) bool {
		a, b := msgs[i], msgs[j]
		return a.R < b.R || a.R == b.R && (a.From < b.From || a.From == b.From && a.To < b.To)
	})
	type pair struct{ eval, rand *big.Int }
	privs := map[[2]int]pair{}
	round := map[[2]int]int{}
	priv := []tr.Ev{}
	for _, m := range msgs {
		if m.Common {
			continue
		}
		e := tr.Ev{"from": m.From, "to": m.To, "r": m.R, "eval": "", "rand": "", "len": len(m.Data)}
		if len(m.Data) >= 4 {
			l := int(binary.LittleEndian.Uint32(m.Data))
			if l >= 0 && l <= len(m.Data)-4 {
				pr := pair{new(big.Int).SetBytes(m.Data[4 : 4+l]), new(big.Int).SetBytes(m.Data[4+l:])}
				e["eval"], e["rand"] = tr.Hex(pr.eval), tr.Hex(pr.rand)
				privs[[2]int{m.From, m.To}] = pr
				round[[2]int{m.From, m.To}] = m.R
			}
		}
		priv = append(priv, e)
	}
	type secret struct {
		x    *big.Int
		what string
		to   int // who may get it
	}
	all := map[int][]secret{}
	one := big.NewInt(1)
	for p := 0; p < n; p++ {
		for i, d := range draws[p] {
			all[p] = append(all[p], secret{d, fmt.Sprintf("draw %d", i), -1}, secret{new(big.Int).Add(d, one), fmt.Sprintf("draw %d + 1", i), -1})
		}
		if ds := w.draws[o.In]; ds != nil {
			for i, d := range ds[p] {
				all[p] = append(all[p], secret{d, fmt.Sprintf("draw %d of the secret", i), -1})
			}
		}
		for q := 0; q < n; q++ {
			if pr, ok := privs[[2]int{p, q}]; ok {
				all[p] = append(all[p], secret{pr.eval, fmt.Sprintf("share for %d", q), q}, secret{pr.rand, fmt.Sprintf("randomizer for %d", q), q})
			}
		}
	}
	found := []tr.Ev{}
	for p, ss := range all {
		for _, s := range ss {
			b := s.x.Bytes()
			if len(b) < 24 {
				continue
			}
			for _, m := range msgs {
				if len(found) >= 10 {
					continue
				}
				if pr, ok := privs[[2]int{m.From, m.To}]; ok && round[[2]int{m.From, m.To}] == m.R {
					// a message that carries a share, which may be the same number as other things
					if s.x.Cmp(pr.eval) == 0 || m.From == p && s.x.Cmp(pr.rand) == 0 {
						continue
					}
				}
				if bytes.Contains(m.Data, b) {
					found = append(found, tr.Ev{"of": p, "what": s.what, "from": m.From, "to": m.To, "r": m.R})
				}
			}
		}
	}
	ev["priv"], ev["found"] = priv, found
	// the first points of the commitments that are published
	firsts := [][]string{}
	for p := 0; p < n; p++ {
		for r, k := range map[int]int{3: o.T, 4: n} {
			if m := w.net.Sent(r, p, (p+1)%n); m != nil && n > 1 {
				for i, c := range w.points(m.Data, 2*k) {
					if i%2 == 0 {
						firsts = append(firsts, c)
					}
				}
			}
		}
	}
	ev["firsts"] = firsts
}

func main() {
	flag.String("kind", "", "ignored")
	in := flag.String("in", "", "scenarios")
	out := flag.String("out", "", "trace")
	skip := flag.Int("skip", 0, "number of scenarios to skip")
	limit := flag.Int("limit", 0, "number of the last scenario")
	flag.Parse()
	w := tr.Create(*out)
	id := 0
	tr.Lines(*in, func(raw []byte) {
		id++
		if id <= *skip || (*limit > 0 && id > *limit) {
			return
		}
		fmt.Println(id)
		var sc scenario
		if err := json.Unmarshal(raw, &sc); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(2)
		}
		w.Put(tr.Ev{"op": "reset", "id": id, "n": sc.N, "h": sc.H})
		wd := &world{sc: sc, net: lockstep.New(sc.N, sc.Shadows, fmt.Sprintf("%s/%d", os.Getenv("VERIF_SEED"), id)), group: curve.NewSecp256k1Group(), w: w, draws: map[string][][]*big.Int{}}
		if sc.H != "" {
			wd.egf = commitment.NewElGamalFactory(wd.group.ScalarBaseMult(tr.Num(sc.H)))
		}
		wd.net.Edit(wd.edit)
		for range wd.net.Members {
			wd.vars = append(wd.vars, map[string]value{})
		}
		for _, o := range sc.Ops {
			wd.step(o)
		}
	})
	w.Put(tr.Ev{"op": "end"})
	w.Close()
}

// edit knows changes that keep a message well-formed
func (w *world) edit(act string, arg int, d []byte, m *lockstep.Message) []byte {
	switch act {
	case "share", "rand", "both": // of the private message
		if len(d) < 4 {
			return d
		}
		l := int(binary.LittleEndian.Uint32(d))
		if l < 0 || l > len(d)-4 {
			return d
		}
		x, y := new(big.Int).SetBytes(d[4:4+l]), new(big.Int).SetBytes(d[4+l:])
		if act != "rand" {
			x.Add(x, big.NewInt(int64(arg)))
			x.Mod(x, arith.Q)
		}
		if act != "share" {
			y.Add(y, big.NewInt(int64(arg)))
			y.Mod(y, arith.Q)
		}
		out := make([]byte, 4, 100)
		binary.LittleEndian.PutUint32(out, uint32(len(x.Bytes())))
		return append(append(out, x.Bytes()...), y.Bytes()...)
	case "growdata", "growproof", "border": // of a commitment: two lengths, and what they are the lengths of
		if len(d) < 8 {
			return d
		}
		a, b := int(binary.LittleEndian.Uint32(d)), int(binary.LittleEndian.Uint32(d[4:]))
		if a < 0 || b < 0 || 8+a+b != len(d) {
			return d
		}
		first, second := append([]byte{}, d[8:8+a]...), append([]byte{}, d[8+a:]...)
		switch act {
		case "growdata":
			first = append(first, bytes.Repeat([]byte{7}, arg)...)
		case "growproof":
			second = append(second, bytes.Repeat([]byte{7}, arg)...)
		case "border":
			if a+arg < 0 || a+arg > a+b {
				return d
			}
			all := d[8:]
			first, second = all[:a+arg], all[a+arg:]
		}
		out := make([]byte, 8)
		binary.LittleEndian.PutUint32(out, uint32(len(first)))
		binary.LittleEndian.PutUint32(out[4:], uint32(len(second)))
		return append(append(out, first...), second...)
	case "modpow": // a number that is no ciphertext under the key of who asks: a power of the modulus, or that minus it
		if len(w.keys) == 0 || m.R > 2 {
			return d
		}
		owner := m.From
		if m.R == 2 {
			owner = m.To
		}
		k := arg
		if k < 0 {
			k = -k
		}
		x := new(big.Int).Exp(w.keys[owner].N, big.NewInt(int64(k)), nil)
		if arg < 0 {
			x.Sub(x, w.keys[owner].N)
		}
		return x.Bytes()
	case "swaptwo": // share and randomizer exchanged
		if len(d) < 4 {
			return d
		}
		l := int(binary.LittleEndian.Uint32(d))
		if l < 0 || l > len(d)-4 {
			return d
		}
		out := make([]byte, 4, 100)
		binary.LittleEndian.PutUint32(out, uint32(len(d)-4-l))
		return append(append(out, d[4+l:]...), d[4:4+l]...)
	case "neg", "plus", "neutral", "double": // the point at an offset
		if arg > len(d) {
			return d
		}
		buf := bytes.NewBuffer(append([]byte{}, d[arg:]...))
		p, err := w.group.Decode(buf)
		if err != nil {
			return d
		}
		switch act {
		case "neg":
			p = w.group.Neg(p)
		case "plus":
			p = w.group.Add(p, w.group.Gen())
		case "double":
			p = w.group.Add(p, p)
		case "neutral":
			p = w.group.Neutral()
		}
		out := &bytes.Buffer{}
		out.Write(d[:arg])
		if err := w.group.Encode(p, out); err != nil {
			return d
		}
		out.Write(buf.Bytes())
		return out.Bytes()
	}
	fmt.Fprintln(os.Stderr, "HARNESS unknown action", act)
	os.Exit(2)
	return nil
}
