package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	gosync "sync"
	"sync/atomic"
	"time"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// offer is an incoming connection. It says greet and then, if that is the greeting of a party, its frames of all rounds.
type offer struct {
	Greet  []int  `json:"greet"`
	End    string `json:"end"`    // "", "eof", "err": after the greeting
	Settle int    `json:"settle"` // ms between the moment its greeting was read and the next offer
}

// dial is an attempt to reach a party that fails while it is being greeted
type dialFault struct {
	On string `json:"on"`
	At int    `json:"at"`
}

type connectScenario struct {
	N      int           `json:"n"`
	Me     int           `json:"me"`
	Chunk  string        `json:"chunk"`
	Rounds int           `json:"turns"`
	Offers []offer       `json:"offers"`
	Dials  [][]dialFault `json:"dials"` // per party
	Dial   int           `json:"dial"`
	Listen int           `json:"listen"`
	Closes string        `json:"closes"` // whose closing reports an error: "in", "out", "all", "odd"
}

// watched is a connection that remembers that it was closed
type watched struct {
	conn
	taken, closed atomic.Bool
	fails         bool // closing reports an error, though it closes
}

func (w *watched) Close() error {
	w.closed.Store(true)
	err := w.conn.Close()
	if w.fails {
		return errFault
	}
	return err
}

func (w *watched) Read(b []byte) (int, error) {
	if w.closed.Load() {
		return 0, errFault
	}
	return w.conn.Read(b)
}

func offerTag(k, r int) string { return fmt.Sprintf("o%d.%d", k, r) }

func runConnect(sc connectScenario, lead time.Duration, final bool) (evs []tr.Ev, late, hung bool) {
	c := &content{known: map[string][]string{}}
	rec := &recorder{}
	done := make(chan struct{})
	defer close(done)
	ns := &netServer{incoming: make(chan network.Connection), noDial: sc.Dial, noListen: sc.Listen, done: done}
	offers := make([]*watched, len(sc.Offers))
	for k, o := range sc.Offers {
		in := newHalf(-1, sc.Chunk)
		g := []byte{}
		for _, x := range o.Greet {
			g = append(g, byte(x))
		}
		in.push(g)
		if len(g) == 2 && o.End == "" {
			id := int(binary.LittleEndian.Uint16(g))
			for r := 0; r < sc.Rounds; r++ {
				f := frame{ID: id, Rid: hexOf(r), payload: payload{Tag: offerTag(k, r), Len: 20}, Cut: -1}
				in.push(f.bytes(c))
			}
		}
		switch o.End {
		case "eof":
			in.close(nil)
		case "err":
			in.close(errFault)
		}
		offers[k] = &watched{conn: conn{in, newHalf(-1, "")}, fails: sc.Closes == "in" || sc.Closes == "all" || sc.Closes == "odd" && k%2 == 1}
	}
	var mu gosync.Mutex
	dialled := make([][]*watched, sc.N)
	ns.dial = func(pid uint16) (network.Connection, error) {
		if int(pid) >= sc.N {
			rec.put(tr.Ev{"op": "dialled", "q": int(pid)})
			return nil, errFault
		}
		mu.Lock()
		defer mu.Unlock()
		out := newHalf(-1, "")
		k := len(dialled[pid])
		if int(pid) < len(sc.Dials) && k < len(sc.Dials[pid]) {
			out.arm(sc.Dials[pid][k].On, sc.Dials[pid][k].At, 0)
		}
		w := &watched{conn: conn{newHalf(-1, ""), out}, fails: sc.Closes == "out" || sc.Closes == "all" || sc.Closes == "odd" && pid%2 == 1}
		dialled[pid] = append(dialled[pid], w)
		return w, nil
	}
	start := time.Now().Add(lead)
	srv := sync.NewServer(uint16(sc.Me), uint16(sc.N), start, 200*time.Millisecond, ns)
	srv.Start()
	go func() {
		for k, o := range sc.Offers {
			select {
			case ns.incoming <- offers[k]:
				offers[k].taken.Store(true)
			case <-done:
				return
			}
			if o.Settle > 0 {
				for i := 0; i < 2000 && (o.End == "" && readOf(offers[k].in) < len(o.Greet)); i++ {
					time.Sleep(time.Millisecond)
				}
				time.Sleep(time.Duration(o.Settle) * time.Millisecond)
			}
		}
	}()
	fin := make(chan struct{})
	var isLate atomic.Bool
	go func() {
		defer close(fin)
		for r := 0; r < sc.Rounds; r++ {
			got := map[string][]string{}
			var gmu gosync.Mutex
			toSend := [][]byte{c.add(payload{Tag: fmt.Sprintf("mine.%d", r), Len: 7})}
			twice := false
			err := srv.Round(toSend, func(from uint16, data []byte) error {
				gmu.Lock()
				defer gmu.Unlock()
				if _, ok := got[itoa(int(from))]; ok {
					twice = true
				}
				got[itoa(int(from))] = c.name(data)
				return nil
			})
			var re *sync.RoundError
			if err != nil && errors.As(err, &re) && len(re.Missing()) == 0 && r == 0 && !final {
				isLate.Store(true)
				return
			}
			msg := ""
			if err != nil {
				msg = clip(err.Error())
			}
			gmu.Lock()
			list := make([]tr.Ev, 0, len(got))
			for q := 0; q < 65536; q++ {
				if t, ok := got[itoa(q)]; ok {
					list = append(list, tr.Ev{"q": q, "tags": t})
				}
			}
			gmu.Unlock()
			rec.put(tr.Ev{"op": "round", "r": r, "ok": err == nil, "twice": twice, "got": list, "msg": msg})
		}
		srv.Stop()
		// what was refused may be closed a little later
		for i := 0; i < 200 && openOffers(offers); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		in := make([]tr.Ev, 0, len(offers))
		for _, w := range offers {
			in = append(in, tr.Ev{"taken": w.taken.Load(), "closed": w.closed.Load()})
		}
		out := make([][]tr.Ev, sc.N)
		mu.Lock()
		defer mu.Unlock()
		for q := range dialled {
			out[q] = []tr.Ev{}
			for _, w := range dialled[q] {
				b := w.out.taken()
				g := b
				if len(g) > 2 {
					g = g[:2]
				}
				fs, rest := parse(b[len(g):], c)
				gi := []int{}
				for _, x := range g {
					gi = append(gi, int(x))
				}
				out[q] = append(out[q], tr.Ev{"greet": gi, "frames": fs, "rest": len(rest), "closed": w.closed.Load()})
			}
		}
		rec.put(tr.Ev{"op": "stopped", "in": in, "out": out})
	}()
	select {
	case <-fin:
	case <-time.After(patience):
		rec.put(tr.Ev{"op": "hang"})
		return rec.all(), false, true
	}
	return rec.all(), isLate.Load(), false
}

func openOffers(offers []*watched) bool {
	for _, w := range offers {
		if w.taken.Load() && !w.closed.Load() {
			return true
		}
	}
	return false
}

func readOf(h *half) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.nread
}
