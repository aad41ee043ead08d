package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"sort"
	gosync "sync"
	"sync/atomic"
	"time"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// payload is what a party passes for a peer
type payload struct {
	Tag string `json:"tag"`
	Len int    `json:"len"`
}

// bytes of a payload: determined by its tag
func (p payload) bytes() []byte {
	out := []byte{}
	for i := 0; len(out) < p.Len; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d", p.Tag, i)))
		out = append(out, h[:]...)
	}
	return out[:p.Len:p.Len]
}

// content names bytes: the payloads they are (short payloads may be equal), "" for no bytes
type content struct {
	mu    gosync.Mutex
	known map[string][]string
}

func (c *content) add(p payload) []byte {
	b := p.bytes()
	c.mu.Lock()
	defer c.mu.Unlock()
	if p.Len > 0 {
		for _, t := range c.known[string(b)] {
			if t == p.Tag {
				return b
			}
		}
		c.known[string(b)] = append(c.known[string(b)], p.Tag)
	}
	return b
}

func (c *content) name(b []byte) []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(b) == 0 {
		return []string{""}
	}
	if t, ok := c.known[string(b)]; ok {
		return append([]string{}, t...)
	}
	return []string{fmt.Sprintf("unknown bytes, %d of them", len(b))}
}

// frame is what travels
type frame struct {
	ID  int    `json:"id"`
	Rid string `json:"rid"` // hexadecimal
	payload
	Hdr string `json:"hdr"` // a length to announce instead of the true one, hexadecimal
	Cut int    `json:"cut"` // only that many bytes are delivered; negative: all
}

func (f frame) bytes(c *content) []byte {
	p := c.add(f.payload)
	b := make([]byte, 18, 18+len(p))
	l := uint64(10 + len(p))
	if f.Hdr != "" {
		l = tr.Num(f.Hdr).Uint64()
	}
	binary.LittleEndian.PutUint64(b, l)
	binary.LittleEndian.PutUint16(b[8:], uint16(f.ID))
	binary.LittleEndian.PutUint64(b[10:], tr.Num(f.Rid).Uint64())
	b = append(b, p...)
	if f.Cut >= 0 && f.Cut < len(b) {
		b = b[:f.Cut]
	}
	return b
}

// parse cuts frames off a stream
func parse(b []byte, c *content) (frames []tr.Ev, rest []byte) {
	frames = []tr.Ev{}
	for len(b) >= 8 {
		l := binary.LittleEndian.Uint64(b)
		if l > uint64(len(b)-8) {
			break
		}
		f := b[8 : 8+l]
		b = b[8+l:]
		if len(f) < 10 {
			frames = append(frames, tr.Ev{"id": -1, "rid": "0", "got": []string{"no frame"}})
			continue
		}
		frames = append(frames, tr.Ev{"id": int(binary.LittleEndian.Uint16(f)), "rid": fmt.Sprintf("%x", binary.LittleEndian.Uint64(f[2:])), "got": c.name(f[10:])})
	}
	return frames, b
}

type inScript struct {
	Frames []frame `json:"frames"`
	End    string  `json:"end"` // "", "eof", "err": the stream ends after the frames
	Ms     int     `json:"ms"`  // delay
}

type outScript struct {
	On string `json:"on"` // "", "write", "flush" (fail), "block" (slow)
	At int    `json:"at"`
	Ms int    `json:"ms"`
}

type peerScript struct {
	In     inScript  `json:"in"`
	Out    outScript `json:"out"`
	Reject bool      `json:"reject"`
}

type roundScript struct {
	Common bool         `json:"common"`
	Pay    []payload    `json:"pay"` // for every party, or one
	Peers  []peerScript `json:"peers"`
}

type partyRound struct {
	Common bool      `json:"common"`
	Pay    []payload `json:"pay"`
	Ms     int       `json:"ms"`   // before entering
	Dead   bool      `json:"dead"` // closes all connections instead
	Reject []int     `json:"reject"`
}

type scenario struct {
	Kind   string         `json:"kind"`
	N      int            `json:"n"`
	Me     int            `json:"me"`
	Chunk  string         `json:"chunk"`
	Cap    int            `json:"cap"`
	Rounds []roundScript  `json:"rounds"` // open
	Party  [][]partyRound `json:"party"`  // closed: per party, per round
	Start  []int          `json:"start"`  // closed: delay of Start, ms
	Dial   int            `json:"dial"`
	Listen int            `json:"listen"`
	Lead   int            `json:"lead"`
	Dur    int            `json:"dur"` // length of a round, ms
}

type recorder struct {
	mu  gosync.Mutex
	evs []tr.Ev
}

func (r *recorder) put(e tr.Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evs = append(r.evs, e)
}

func (r *recorder) all() []tr.Ev {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]tr.Ev{}, r.evs...)
}

type kept struct {
	b, copy []byte
}

// party runs rounds of one server and records them
type party struct {
	pid  int
	srv  sync.Server
	rec  *recorder
	c    *content
	mu   gosync.Mutex
	kept []kept
	late atomic.Bool // the start time may have passed when the first round was entered
	// no further attempt with a later start time
	final bool
}

func (p *party) round(r int, common bool, pay []payload, reject map[int]bool, start time.Time) {
	toSend := make([][]byte, len(pay))
	for i, x := range pay {
		toSend[i] = p.c.add(x)
	}
	// in every other round the payloads lie one after the other in one piece of memory
	if r%2 == 1 {
		all := []byte{}
		for i := range toSend {
			all = append(all, toSend[i]...)
		}
		off := 0
		for i := range toSend {
			toSend[i] = all[off : off+len(toSend[i])]
			off += len(toSend[i])
		}
	}
	before := make([][]byte, len(toSend))
	for i := range toSend {
		before[i] = append([]byte{}, toSend[i]...)
	}
	p.rec.put(tr.Ev{"op": "enter", "p": p.pid, "r": r})
	err := p.srv.Round(toSend, func(from uint16, data []byte) error {
		e := tr.Ev{"op": "cb", "p": p.pid, "r": r, "from": int(from), "got": p.c.name(data)}
		p.rec.put(e)
		p.mu.Lock()
		p.kept = append(p.kept, kept{data, append([]byte{}, data...)})
		p.mu.Unlock()
		if reject[int(from)] {
			return fmt.Errorf("the callback says no to %d", from)
		}
		return nil
	})
	e := tr.Ev{"op": "ret", "p": p.pid, "r": r, "ok": err == nil, "rerr": true, "missing": []int{}, "msg": "", "same": true}
	if err != nil {
		var re *sync.RoundError
		e["rerr"] = errors.As(err, &re)
		if re != nil {
			m := []int{}
			for _, q := range re.Missing() {
				m = append(m, int(q))
			}
			sort.Ints(m)
			e["missing"] = m
		}
		e["msg"] = clip(err.Error())
		if r == 0 && !p.final && re != nil && len(re.Missing()) == 0 {
			p.late.Store(true)
		}
	}
	for i := range toSend {
		if !bytes.Equal(before[i], toSend[i]) {
			e["same"] = false
		}
	}
	p.rec.put(e)
	// what was passed is the caller's again
	for i := range toSend {
		for j := range toSend[i] {
			toSend[i][j] ^= 0x5a
		}
	}
}

// checkKept: what was handed to the callback stays what it was
func (p *party) checkKept() {
	p.mu.Lock()
	defer p.mu.Unlock()
	bad := 0
	for _, k := range p.kept {
		if !bytes.Equal(k.b, k.copy) {
			bad++
		}
	}
	p.rec.put(tr.Ev{"op": "kept", "p": p.pid, "bad": bad})
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}

func itoa(k int) string { return fmt.Sprint(k) }

func hexOf(k int) string { return fmt.Sprintf("%x", k) }

const patience = 20 * time.Second

func runOpen(sc scenario, lead time.Duration, final bool) (evs []tr.Ev, late, hung bool) {
	c := &content{known: map[string][]string{}}
	rec := &recorder{}
	ins, outs := map[int]*half{}, map[int]*half{}
	done := make(chan struct{})
	defer close(done)
	ns := &netServer{incoming: make(chan network.Connection, sc.N), noDial: sc.Dial, noListen: sc.Listen, done: done}
	for q := 0; q < sc.N; q++ {
		if q == sc.Me {
			continue
		}
		ins[q], outs[q] = newHalf(-1, sc.Chunk), newHalf(-1, "")
		ins[q].push([]byte{byte(q), byte(q >> 8)})
	}
	// connections come in descending order
	for q := sc.N - 1; q >= 0; q-- {
		if q != sc.Me {
			ns.incoming <- &conn{ins[q], newHalf(-1, "")}
		}
	}
	ns.dial = func(pid uint16) (network.Connection, error) {
		return &conn{newHalf(-1, ""), outs[int(pid)]}, nil
	}
	start := time.Now().Add(lead)
	p := &party{pid: sc.Me, final: final, rec: rec, c: c, srv: sync.NewServer(uint16(sc.Me), uint16(sc.N), start, time.Duration(sc.Dur)*time.Millisecond, ns)}
	p.srv.Start()
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		hello := map[int]int{}
		stream := map[int][]byte{}
		for r, rd := range sc.Rounds {
			reject := map[int]bool{}
			for q, ps := range rd.Peers {
				if q == sc.Me {
					continue
				}
				if ps.Reject {
					reject[q] = true
				}
				at := ps.Out.At
				if r == 0 && hello[q] == 0 && ps.Out.On != "" {
					// the greeting does not belong to the round: wait for it
					for i := 0; i < 2000 && outsLen(outs[q]) < 2; i++ {
						time.Sleep(time.Millisecond)
					}
				}
				hello[q] = 1
				outs[q].arm(ps.Out.On, at, time.Duration(ps.Out.Ms)*time.Millisecond)
				b := []byte{}
				for _, f := range ps.In.Frames {
					b = append(b, f.bytes(c)...)
				}
				go func(q int, in inScript, b []byte) {
					time.Sleep(time.Duration(in.Ms) * time.Millisecond)
					if len(b) > 0 {
						ins[q].push(b)
					}
					switch in.End {
					case "eof":
						ins[q].close(nil)
					case "err":
						ins[q].close(errFault)
					}
				}(q, ps.In, b)
			}
			p.round(r, rd.Common, rd.Pay, reject, start)
			if p.late.Load() {
				return
			}
			to := map[string]tr.Ev{}
			for q := range outs {
				stream[q] = append(stream[q], outs[q].taken()...)
				b := stream[q]
				if r == 0 {
					// the greeting
					if len(b) >= 2 {
						b = b[2:]
					} else {
						b = nil
					}
				}
				fs, rest := parse(b, c)
				stream[q] = rest
				to[fmt.Sprint(q)] = tr.Ev{"frames": fs, "rest": len(rest)}
			}
			rec.put(tr.Ev{"op": "sent", "r": r, "to": to})
		}
		p.checkKept()
	}()
	select {
	case <-fin:
	case <-time.After(patience):
		rec.put(tr.Ev{"op": "hang"})
		return rec.all(), false, true
	}
	return rec.all(), p.late.Load(), false
}

func outsLen(h *half) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.total)
}

func runClosed(sc scenario, lead time.Duration, final bool) (evs []tr.Ev, late, hung bool) {
	c := &content{known: map[string][]string{}}
	rec := &recorder{}
	done := make(chan struct{})
	defer close(done)
	nets := make([]*netServer, sc.N)
	conns := make([][]*conn, sc.N) // everything a party can close
	var cmu gosync.Mutex
	for i := range nets {
		nets[i] = &netServer{incoming: make(chan network.Connection, sc.N), noDial: sc.Dial, noListen: sc.Listen, done: done}
	}
	for i := range nets {
		i := i
		nets[i].dial = func(pid uint16) (network.Connection, error) {
			a, b := newHalf(sc.Cap, sc.Chunk), newHalf(sc.Cap, sc.Chunk)
			mine, theirs := &conn{b, a}, &conn{a, b}
			cmu.Lock()
			conns[i] = append(conns[i], mine)
			conns[pid] = append(conns[pid], theirs)
			cmu.Unlock()
			nets[pid].incoming <- theirs
			return mine, nil
		}
	}
	start := time.Now().Add(lead)
	ps := make([]*party, sc.N)
	var wg gosync.WaitGroup
	for i := 0; i < sc.N; i++ {
		ps[i] = &party{pid: i, final: final, rec: rec, c: c, srv: sync.NewServer(uint16(i), uint16(sc.N), start, time.Duration(sc.Dur)*time.Millisecond, nets[i])}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i < len(sc.Start) {
				time.Sleep(time.Duration(sc.Start[i]) * time.Millisecond)
			}
			ps[i].srv.Start()
			for r, pr := range sc.Party[i] {
				time.Sleep(time.Duration(pr.Ms) * time.Millisecond)
				if pr.Dead {
					// dies once it is connected
					if r == 0 {
						time.Sleep(time.Until(start))
					}
					rec.put(tr.Ev{"op": "dead", "p": i, "r": r})
					cmu.Lock()
					for _, cn := range conns[i] {
						cn.Close()
					}
					cmu.Unlock()
					return
				}
				reject := map[int]bool{}
				for _, q := range pr.Reject {
					reject[q] = true
				}
				ps[i].round(r, pr.Common, pr.Pay, reject, start)
				if ps[i].late.Load() {
					return
				}
			}
		}(i)
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	anyLate := func() bool {
		for _, p := range ps {
			if p.late.Load() {
				return true
			}
		}
		return false
	}
	deadline := time.After(patience)
	for {
		select {
		case <-fin:
			if anyLate() {
				return nil, true, false
			}
			for _, p := range ps {
				p.checkKept()
			}
			for i, p := range ps {
				if i < len(sc.Party) && !sc.Party[i][len(sc.Party[i])-1].Dead {
					p.srv.Stop()
				}
			}
			return rec.all(), false, false
		case <-time.After(200 * time.Millisecond):
			if anyLate() {
				return nil, true, false
			}
		case <-deadline:
			rec.put(tr.Ev{"op": "hang"})
			return rec.all(), false, true
		}
	}
}

func main() {
	flag.String("kind", "", "ignored")
	in := flag.String("in", "", "scenarios")
	out := flag.String("out", "", "trace")
	skip := flag.Int("skip", 0, "number of scenarios to skip")
	limit := flag.Int("limit", 0, "number of the last scenario")
	flag.Parse()
	w := tr.Create(*out)
	id, hangs, lates := 0, 0, 0
	// the servers report to the standard error
	tr.Lines(*in, func(raw []byte) {
		id++
		if id <= *skip || (*limit > 0 && id > *limit) || hangs >= 2 {
			return
		}
		fmt.Println(id)
		var sc scenario
		if err := json.Unmarshal(raw, &sc); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(2)
		}
		head := tr.Ev{"op": "reset", "id": id, "sc": json.RawMessage(raw)}
		lead := sc.Lead
		if lead == 0 {
			lead = 15
		}
		for k := 0; ; k++ {
			var evs []tr.Ev
			var late, hung bool
			d := time.Duration(lead<<(2*uint(k))) * time.Millisecond
			// a start time that had passed before the first round began proves nothing: again with a later one, unless
			// that has been of no use before
			final := k == 4 || lates >= 3
			if sc.Kind == "connect" {
				var cs connectScenario
				if err := json.Unmarshal(raw, &cs); err != nil {
					fmt.Fprintln(os.Stderr, "HARNESS", err)
					os.Exit(2)
				}
				evs, late, hung = runConnect(cs, d, final)
			} else if sc.Kind == "open" {
				evs, late, hung = runOpen(sc, d, final)
			} else {
				evs, late, hung = runClosed(sc, d, final)
			}
			if late {
				continue
			}
			if final {
				lates++
			}
			w.Put(head)
			for _, e := range evs {
				w.Put(e)
			}
			if hung {
				hangs++
			}
			break
		}
	})
	w.Put(tr.Ev{"op": "end"})
	w.Close()
}
