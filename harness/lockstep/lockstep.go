// Package lockstep runs several parties against an in-memory implementation of sync.Server in which a round happens
// when all parties that are still running have entered it. Messages can be dropped, changed, or replaced.
package lockstep

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	gosync "sync"
	"time"

	"a.verif/harness/rnd"
	"a.verif/harness/tr"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// Rule changes messages of an operation.
type Rule struct {
	R    int    `json:"r"` // round of the operation, from 1; 0: all
	From int    `json:"from"`
	To   int    `json:"to"` // -1: everybody
	Act  string `json:"act"`
	Arg  int    `json:"arg"`
	Data string `json:"data"`
}

// Message is what one party got from another in a round.
type Message struct {
	R, From, To int
	Data        []byte
	Common      bool // the sender passed one message for everybody
}

// Member is a party, or a second execution of a party whose messages can replace those of the first.
type Member struct {
	Idx, Pid int
	Shadow   bool
	Server   *Server
	stream   *rnd.Stream
	net      *Net

	arrived, done bool
	round         int
	out           [][]byte // per recipient
	common        bool
	hist          [][][]byte // what was passed in the rounds of the operation
	Entered       int        // rounds entered in the operation
}

// Rand is the randomness of a member.
func (m *Member) Rand() *rnd.Stream { return m.stream }

// Net connects the members.
type Net struct {
	mu      gosync.Mutex
	cond    *gosync.Cond
	N       int
	Members []*Member
	gen     int
	rules   []Rule
	Applied []Rule // what changed a message of the operation, one recipient each
	edit    func(act string, arg int, data []byte, m *Message) []byte
	box     map[[3]int]*Message // round, from, to: what arrives
	sent    map[[3]int]*Message // what was passed
	refused map[[3]int]bool
}

// Server implements sync.Server for one party.
type Server struct {
	net *Net
	own *Member
}

// New creates n parties and shadows of some of them.
func New(n int, shadows []int, seed string) *Net {
	net := &Net{N: n}
	net.cond = gosync.NewCond(&net.mu)
	add := func(pid int, shadow bool) {
		m := &Member{Idx: len(net.Members), Pid: pid, Shadow: shadow, net: net}
		m.Server = &Server{net, m}
		m.stream = rnd.NewStream(fmt.Sprintf("%s/%d", seed, m.Idx))
		net.Members = append(net.Members, m)
	}
	for i := 0; i < n; i++ {
		add(i, false)
	}
	for _, p := range shadows {
		add(p, true)
	}
	return net
}

// Edit installs a function that knows further actions.
func (net *Net) Edit(f func(act string, arg int, data []byte, m *Message) []byte) { net.edit = f }

// Start does nothing.
func (s *Server) Start() {}

// Stop does nothing.
func (s *Server) Stop() {}

// Run executes an operation at all members and returns when all of them have finished it. A panic is reported.
func (net *Net) Run(rules []Rule, f func(m *Member)) (panics []string) {
	net.mu.Lock()
	net.rules, net.Applied = rules, []Rule{}
	net.box, net.sent, net.refused = map[[3]int]*Message{}, map[[3]int]*Message{}, map[[3]int]bool{}
	for _, m := range net.Members {
		m.arrived, m.done, m.round, m.out, m.hist, m.Entered = false, false, 0, nil, nil, 0
	}
	net.mu.Unlock()
	panics = make([]string, len(net.Members))
	var wg gosync.WaitGroup
	for _, m := range net.Members {
		wg.Add(1)
		go func(m *Member) {
			defer wg.Done()
			defer rnd.Bind(m)()
			panics[m.Idx] = tr.Guard(func() { f(m) })
			net.mu.Lock()
			m.done = true
			net.advance()
			net.mu.Unlock()
		}(m)
	}
	wg.Wait()
	return panics
}

// Messages of the operation, as they were passed to the server.
func (net *Net) Messages() []*Message {
	out := []*Message{}
	for _, m := range net.sent {
		if m.From != m.To {
			out = append(out, m)
		}
	}
	return out
}

// Sent is what a party passed for another one in a round, or nil.
func (net *Net) Sent(r, from, to int) *Message { return net.sent[[3]int{r, from, to}] }

// advance delivers a round when everybody who is running has entered it. The lock is held.
func (net *Net) advance() {
	some := false
	for _, m := range net.Members {
		if m.done {
			continue
		}
		if !m.arrived {
			return
		}
		some = true
	}
	if !some {
		return
	}
	r := 0
	for _, m := range net.Members {
		if !m.done && m.round > r {
			r = m.round
		}
	}
	for _, m := range net.Members {
		if m.Shadow || m.done {
			continue
		}
		for to := 0; to < net.N; to++ {
			if to == m.Pid && net.N > 1 {
				continue
			}
			var d []byte
			if m.common {
				d = m.out[0]
			} else if to < len(m.out) {
				d = m.out[to]
			}
			msg := &Message{r, m.Pid, to, append([]byte{}, d...), m.common}
			net.sent[[3]int{r, m.Pid, to}] = msg
			if to == m.Pid {
				continue // alone: what is said to nobody
			}
			got := &Message{r, m.Pid, to, append([]byte{}, d...), m.common}
			net.box[[3]int{r, m.Pid, to}] = got
		}
	}
	for _, ru := range net.rules {
		if ru.R != 0 && ru.R != r {
			continue
		}
		for to := 0; to < net.N; to++ {
			if to == ru.From || (ru.To >= 0 && ru.To != to) {
				continue
			}
			key := [3]int{r, ru.From, to}
			msg := net.box[key]
			if msg == nil {
				continue
			}
			before := append([]byte{}, msg.Data...)
			net.apply(ru, key, msg)
			if net.box[key] == nil || ru.Act == "refuse" || !bytes.Equal(before, msg.Data) {
				done := ru
				done.R, done.To = r, to
				net.Applied = append(net.Applied, done)
			}
		}
	}
	for _, m := range net.Members {
		m.arrived = false
	}
	net.gen++
	net.cond.Broadcast()
}

func (net *Net) of(m *Member, r, to int) []byte {
	if r < 1 || r > len(m.hist) {
		return nil
	}
	out := m.hist[r-1]
	if len(out) == 1 {
		return out[0]
	}
	if to < len(out) {
		return out[to]
	}
	return nil
}

func (net *Net) apply(ru Rule, key [3]int, msg *Message) {
	d := msg.Data
	if ru.Act == "shadow" && (ru.Arg < 0 || net.N+ru.Arg >= len(net.Members)) || ru.Act == "other" && (ru.Arg < 0 || ru.Arg >= net.N) {
		fmt.Fprintln(os.Stderr, "HARNESS no such member")
		os.Exit(2)
	}
	switch ru.Act {
	case "drop":
		delete(net.box, key)
		return
	case "refuse":
		net.refused[[3]int{key[0], key[1], key[2]}] = true
		return
	case "empty":
		d = nil
	case "cut":
		k := ru.Arg
		if k < 0 {
			k += len(d)
		}
		if k >= 0 && k < len(d) {
			d = d[:k]
		}
	case "zeros":
		d = make([]byte, ru.Arg)
	case "add":
		d = append(d, tr.Num(ru.Data).Bytes()...)
	case "flip":
		if len(d) > 0 {
			k := ru.Arg
			if k < 0 {
				k += 8 * len(d)
			}
			if k >= 0 {
				k %= 8 * len(d)
				d[k/8] ^= 1 << uint(k%8)
			}
		}
	case "scale": // a bit at a relative place, in thousandths
		if len(d) > 0 {
			k := ru.Arg * (8*len(d) - 1) / 1000
			d[k/8] ^= 1 << uint(k%8)
		}
	case "set":
		d = tr.Num(ru.Data).Bytes()
	case "shadow":
		d = append([]byte{}, net.of(net.Members[net.N+ru.Arg], key[0], key[2])...)
	case "other":
		d = append([]byte{}, net.of(net.Members[ru.Arg], key[0], key[2])...)
	case "prev":
		d = append([]byte{}, net.of(net.Members[key[1]], key[0]-ru.Arg, key[2])...)
	default:
		if net.edit != nil {
			d = net.edit(ru.Act, ru.Arg, d, msg)
		}
	}
	msg.Data = d
}

// Round implements sync.Server.
func (s *Server) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	m := s.own
	if b, ok := rnd.Bound().(*Member); ok {
		m = b
	}
	net := m.net
	net.mu.Lock()
	m.round++
	m.Entered++
	out := make([][]byte, len(toSend))
	for i := range toSend {
		out[i] = append([]byte{}, toSend[i]...)
	}
	if len(toSend) != 1 && len(toSend) < net.N {
		net.mu.Unlock()
		panic("index out of range: not enough messages were passed to Round")
	}
	m.out, m.common = out, len(out) == 1
	m.hist = append(m.hist, out)
	m.arrived = true
	gen, r := net.gen, m.round
	net.advance()
	for net.gen == gen {
		net.cond.Wait()
	}
	in := make([]*Message, net.N)
	failed := make([]bool, net.N)
	for q := 0; q < net.N; q++ {
		if q == m.Pid {
			continue
		}
		in[q] = net.box[[3]int{r, q, m.Pid}]
		if in[q] == nil || net.refused[[3]int{r, m.Pid, q}] {
			failed[q] = true
		}
	}
	net.mu.Unlock()
	for q := 0; q < net.N; q++ {
		if in[q] != nil {
			if err := check(uint16(q), append([]byte{}, in[q].Data...)); err != nil {
				failed[q] = true
			}
		}
	}
	missing := []int{}
	for q := range failed {
		if failed[q] {
			missing = append(missing, q)
		}
	}
	if len(missing) == 0 {
		return nil
	}
	return roundError(net.N, m.Pid, missing)
}

var (
	errMu   gosync.Mutex
	errors_ = map[string]error{}
)

// roundError obtains the error of a failed round from a real server whose connections deliver just what leads to it.
func roundError(n, pid int, missing []int) error {
	errMu.Lock()
	defer errMu.Unlock()
	key := fmt.Sprint(n, pid, missing)
	if e := errors_[key]; e != nil {
		return e
	}
	bad := map[int]bool{}
	for _, q := range missing {
		bad[q] = true
	}
	lead := 3 * time.Millisecond
	for k := 0; k < 6; k++ {
		ns := &canned{conns: make(chan network.Connection, n)}
		for q := 0; q < n; q++ {
			if q == pid {
				continue
			}
			b := []byte{byte(q), byte(q >> 8)}
			if !bad[q] {
				b = append(b, 10, 0, 0, 0, 0, 0, 0, 0, byte(q), byte(q>>8), 0, 0, 0, 0, 0, 0, 0, 0)
			}
			ns.conns <- &cannedConn{in: b}
		}
		srv := sync.NewServer(uint16(pid), uint16(n), time.Now().Add(lead), time.Second, ns)
		srv.Start()
		err := srv.Round([][]byte{{}}, func(uint16, []byte) error { return nil })
		var re *sync.RoundError
		if errors.As(err, &re) && len(re.Missing()) > 0 {
			errors_[key] = err
			return err
		}
		lead *= 4
	}
	panic("no round error could be obtained")
}

type canned struct{ conns chan network.Connection }

func (c *canned) Dial(uint16) (network.Connection, error) { return &cannedConn{}, nil }
func (c *canned) Listen() (network.Connection, error)     { return <-c.conns, nil }
func (c *canned) Stop()                                   {}

type cannedConn struct{ in []byte }

func (c *cannedConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *cannedConn) Write(p []byte) (int, error) { return len(p), nil }
func (c *cannedConn) Flush() error                { return nil }
func (c *cannedConn) Close() error                { return nil }

// Outcome describes an error of an operation.
func Outcome(err error, panicked string) tr.Ev {
	e := tr.Ev{"ok": err == nil && panicked == "", "panic": panicked, "err": "", "rerr": false, "missing": []int{}}
	if err != nil {
		e["err"] = clip(err.Error())
		var re *sync.RoundError
		if errors.As(err, &re) {
			e["rerr"] = true
			m := []int{}
			for _, q := range re.Missing() {
				m = append(m, int(q))
			}
			e["missing"] = m
		}
	}
	return e
}

func clip(s string) string {
	if len(s) > 160 {
		return s[:160]
	}
	return s
}

// Nums parses numbers; "" stands for nil.
func Nums(ss []string) []*big.Int {
	out := make([]*big.Int, len(ss))
	for i, s := range ss {
		if s != "" {
			out[i] = tr.Num(s)
		}
	}
	return out
}
