// Command htecdsa executes histories of the signing protocol against an in-memory network, and records what the parties
// return and publish.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"unsafe"

	"a.verif/harness/lockstep"
	"a.verif/harness/pts"
	"a.verif/harness/tr"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

type op struct {
	Op    string              `json:"op"`
	T     int                 `json:"t"`
	Msg   string              `json:"msg"`
	Who   []int               `json:"who"` // the parties that take part; nil: all
	Draws map[string][]string `json:"draws"`
	Net   []lockstep.Rule     `json:"net"`
}

type scenario struct {
	N   int  `json:"n"`
	Ops []op `json:"ops"`
}

// numbers finds r and s in a signature.
func numbers(sig *tecdsa.Signature) (r, s string) {
	v := reflect.ValueOf(sig).Elem()
	var found []string
	names := map[string]string{}
	t := reflect.TypeOf((*big.Int)(nil))
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		var x *big.Int
		switch {
		case f.Type() == t:
			x = *(**big.Int)(unsafe.Pointer(f.UnsafeAddr()))
		case f.Type() == t.Elem():
			x = (*big.Int)(unsafe.Pointer(f.UnsafeAddr()))
		default:
			continue
		}
		h := "nil"
		if x != nil {
			h = tr.Hex(x)
		}
		found = append(found, h)
		names[v.Type().Field(i).Name] = h
	}
	for _, n := range [][2]string{{"r", "s"}, {"R", "S"}} {
		if a, ok := names[n[0]]; ok {
			if b, ok := names[n[1]]; ok {
				return a, b
			}
		}
	}
	if len(found) < 2 {
		fmt.Fprintln(os.Stderr, "HARNESS a signature has no two numbers")
		os.Exit(2)
	}
	return found[0], found[1]
}

// parts finds the shares of the four secrets of the newest presignature of a party, by the names of the protocol: what
// cannot be found is left out.
func parts(proto *tecdsa.Protocol) map[string]string {
	out := map[string]string{}
	if proto == nil {
		return out
	}
	q := reflect.ValueOf(proto).Elem().FieldByName("presig")
	if !q.IsValid() || q.Kind() != reflect.Slice || q.Len() == 0 {
		return out
	}
	ps := q.Index(q.Len() - 1)
	if ps.Kind() == reflect.Ptr {
		ps = ps.Elem()
	}
	if ps.Kind() != reflect.Struct {
		return out
	}
	for _, name := range []string{"k", "rho", "eta", "tau"} {
		f := ps.FieldByName(name)
		if f.Kind() == reflect.Ptr {
			f = f.Elem()
		}
		if f.Kind() != reflect.Struct {
			continue
		}
		sh := f.FieldByName("skShare")
		if !sh.IsValid() || sh.Type() != reflect.TypeOf((*big.Int)(nil)) || !sh.CanAddr() {
			continue
		}
		if x := *(**big.Int)(unsafe.Pointer(sh.UnsafeAddr())); x != nil {
			out[name] = tr.Hex(x)
		}
	}
	return out
}

type world struct {
	n     int
	net   *lockstep.Net
	group curve.Group
	proto []*tecdsa.Protocol
	w     *tr.Writer
}

func (w *world) heading(r, k int) [][][]string {
	out := [][][]string{}
	for p := 0; p < w.n; p++ {
		h := [][]string{}
		if m := w.net.Sent(r, p, (p+1)%w.n); m != nil {
			h = pts.Heading(w.group, m.Data, k)
		}
		out = append(out, h)
	}
	return out
}

func (w *world) number(r int) []string {
	out := []string{}
	for p := 0; p < w.n; p++ {
		x := ""
		if m := w.net.Sent(r, p, (p+1)%w.n); m != nil {
			x = tr.Hex(new(big.Int).SetBytes(m.Data))
		}
		out = append(out, x)
	}
	return out
}

func (w *world) step(o op) {
	ev := tr.Ev{"op": o.Op, "t": o.T, "msg": o.Msg}
	who := map[int]bool{}
	for p := 0; p < w.n; p++ {
		who[p] = o.Who == nil
	}
	for _, p := range o.Who {
		who[p] = true
	}
	for _, m := range w.net.Members {
		m.Rand().Plan(lockstep.Nums(o.Draws[fmt.Sprint(m.Idx)]), 0)
	}
	errs := make([]error, w.n)
	outs := make([]tr.Ev, w.n)
	panics := w.net.Run(o.Net, func(m *lockstep.Member) {
		out := tr.Ev{"r": "nil", "s": "nil", "in": who[m.Pid]}
		outs[m.Pid] = out
		if !who[m.Pid] {
			return
		}
		if o.Op != "init" && w.proto[m.Pid] == nil {
			out["in"] = false
			return
		}
		var err error
		switch o.Op {
		case "init":
			w.proto[m.Pid], err = tecdsa.Init(uint16(m.Pid), uint16(w.n), m.Server)
			if err != nil {
				w.proto[m.Pid] = nil
			}
		case "presign":
			err = w.proto[m.Pid].Presign(uint16(o.T))
		case "sign":
			var sig *tecdsa.Signature
			msg := tr.Num(o.Msg)
			sig, err = w.proto[m.Pid].Sign(msg)
			if msg.Cmp(tr.Num(o.Msg)) != 0 {
				out["r"] = "message changed"
			} else if err == nil && sig != nil {
				out["r"], out["s"] = numbers(sig)
			} else if sig != nil {
				out["r"] = "signature and error"
			}
		default:
			fmt.Fprintln(os.Stderr, "HARNESS unknown operation", o.Op)
			os.Exit(2)
		}
		errs[m.Pid] = err
	})
	res := []tr.Ev{}
	draws := [][]string{}
	for p, m := range w.net.Members {
		e := lockstep.Outcome(errs[p], panics[p])
		for k, v := range outs[p] {
			e[k] = v
		}
		e["rounds"] = m.Entered
		res = append(res, e)
		d := []string{}
		for _, x := range m.Rand().Log {
			d = append(d, tr.Hex(x))
		}
		draws = append(draws, d)
	}
	ev["net"], ev["res"], ev["draws"] = w.net.Applied, res, draws
	switch o.Op {
	case "init":
		ev["first"], ev["second"] = w.heading(2, 1), w.heading(4, 1)
	case "presign":
		ev["comms"] = [][][][]string{w.heading(1, 2), w.heading(2, 2), w.heading(3, 2), w.heading(4, 2)}
		roles := [][]string{}
		for _, name := range []string{"k", "rho", "eta", "tau"} {
			shares := []string{}
			for p := range w.proto {
				if x, ok := parts(w.proto[p])[name]; ok {
					shares = append(shares, x)
				}
			}
			roles = append(roles, shares)
		}
		ev["roles"] = roles
		ev["coefs"] = [][][][]string{w.heading(7, 2*o.T), w.heading(13, 2*o.T), w.heading(19, 2*o.T), w.heading(25, 2*o.T)}
	case "sign":
		ev["nonces"], ev["taus"], ev["ss"] = w.heading(1, 1), w.number(2), w.number(3)
	}
	w.w.Put(ev)
}

func main() {
	flag.String("kind", "", "ignored")
	in := flag.String("in", "", "scenarios")
	out := flag.String("out", "", "trace")
	skip := flag.Int("skip", 0, "number of scenarios to skip")
	limit := flag.Int("limit", 0, "number of the last scenario")
	flag.Parse()
	w := tr.Create(*out)
	id := 0
	tr.Lines(*in, func(raw []byte) {
		id++
		if id <= *skip || (*limit > 0 && id > *limit) {
			return
		}
		fmt.Println(id)
		var sc scenario
		if err := json.Unmarshal(raw, &sc); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(2)
		}
		w.Put(tr.Ev{"op": "reset", "id": id, "n": sc.N})
		wd := &world{n: sc.N, net: lockstep.New(sc.N, nil, fmt.Sprintf("%s/t%d", os.Getenv("VERIF_SEED"), id)), group: curve.NewSecp256k1Group(), proto: make([]*tecdsa.Protocol, sc.N), w: w}
		for _, o := range sc.Ops {
			wd.step(o)
		}
	})
	w.Put(tr.Ev{"op": "end"})
	w.Close()
}
