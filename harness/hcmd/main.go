// Command hcmd runs the two programs of the tree, the generator of keys and the signer, in directories of its own, and
// records what they did.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"a.verif/harness/tr"
)

type entry struct {
	Key  string `json:"key"`
	Addr string `json:"addr"`
	Raw  string `json:"raw"` // instead of a key and an address
}

type pkfile struct {
	Blob   string `json:"blob"` // the encoded private key, in hexadecimal
	Pid    string `json:"pid"`
	Raw    string `json:"raw"` // instead of an encoded private key
	Absent bool   `json:"absent"`
	Empty  bool   `json:"empty"`
}

type scenario struct {
	Kind   string      `json:"kind"`
	Arg    string      `json:"arg"`
	N      int         `json:"n"`
	Lines  []string    `json:"lines"` // of the file of addresses
	Ending string      `json:"ending"`
	Files  bool        `json:"files"` // is there a file of addresses?
	Keys   [][3]string `json:"keys"`
	Read   []int       `json:"read"`
	PK     pkfile      `json:"pk"`
	Com    []entry     `json:"com"`
	NoCom  bool        `json:"nocom"`
	T      int         `json:"t"`
	Sigs   int         `json:"sigs"`
}

var gen, signer, parser string

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS", err)
		os.Exit(2)
	}
}

// run executes a program in a directory; log is what it said, there or in its log file.
func run(dir, program string, limit time.Duration, env []string, args ...string) tr.Ev {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, program, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var said bytes.Buffer
	c.Stdout, c.Stderr = &said, &said
	err := c.Run()
	code := 0
	if err != nil {
		code = -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		} else {
			fail(err)
		}
	}
	log, _ := os.ReadFile(filepath.Join(dir, "aleph.log"))
	text := said.String() + string(log)
	crashed := strings.Contains(text, "goroutine ") && (strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "SIG"))
	return tr.Ev{"code": code, "crashed": crashed, "said": strings.TrimSpace(text) != "", "hung": ctx.Err() != nil, "log": text}
}

func brief(e tr.Ev) tr.Ev {
	t := e["log"].(string)
	if len(t) > 600 {
		t = t[:300] + " ... " + t[len(t)-300:]
	}
	e["log"] = t
	return e
}

func lines(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) == 0 {
		return []string{}
	}
	return strings.Split(strings.TrimRight(string(b), "\n"), "\n")
}

// generate runs the generator of keys; the event tells the keys that were made, and the files.
func generate(dir string, sc scenario) tr.Ev {
	args := []string{sc.Arg}
	env := []string{"VERIF_KEYLOG=" + filepath.Join(dir, "made.log")}
	if sc.Files {
		fail(os.WriteFile(filepath.Join(dir, "addresses"), []byte(strings.Join(sc.Lines, "\n")+sc.Ending), 0600))
		args = append(args, "addresses")
	}
	if len(sc.Keys) > 0 {
		b, _ := json.Marshal(sc.Keys)
		fail(os.WriteFile(filepath.Join(dir, "plan.json"), b, 0600))
		env = append(env, "VERIF_KEYS="+filepath.Join(dir, "plan.json"))
	}
	e := brief(run(dir, gen, 60*time.Second, env, args...))
	made := [][]string{}
	for _, l := range lines(filepath.Join(dir, "made.log")) {
		var k []string
		if json.Unmarshal([]byte(l), &k) == nil {
			made = append(made, k)
		}
	}
	names := []string{}
	fs, err := os.ReadDir(dir)
	fail(err)
	for _, f := range fs {
		switch f.Name() {
		case "made.log", "plan.json", "addresses":
		default:
			names = append(names, f.Name())
		}
	}
	sort.Strings(names)
	e["made"], e["names"] = made, names
	e["op"], e["arg"], e["n"], e["files"], e["lines"] = "gen", sc.Arg, sc.N, sc.Files, append([]string{}, sc.Lines...)
	return e
}

// start lets the signer read its files, stopping it before the protocol by a start time it cannot read.
func start(dir, pk, com string) tr.Ev {
	none := tr.Ev{"ok": false, "panic": "", "numbers": []string{}, "texts": []string{}, "ints": []int{}}
	e := tr.Ev{}
	os.Remove(filepath.Join(dir, "aleph.log"))
	os.Remove(filepath.Join(dir, "tcp.log"))
	for k, v := range brief(run(dir, signer, 60*time.Second, []string{"VERIF_TCP=" + filepath.Join(dir, "tcp.log")},
		"-pk", pk, "-keys_addrs", com, "-startTime", "never", "-roundDuration", "1s")) {
		e[k] = v
	}
	e["net"], e["local"], e["addrs"] = false, "", []string{}
	ports := []int{}
	if l := lines(filepath.Join(dir, "tcp.log")); len(l) > 0 {
		var x struct {
			Local string
			Addrs []string
		}
		fail(json.Unmarshal([]byte(l[0]), &x))
		e["net"], e["local"], e["addrs"] = true, x.Local, append([]string{}, x.Addrs...)
		for _, a := range x.Addrs {
			port := -1
			if _, p, err := net.SplitHostPort(a); err == nil {
				if k, err := strconv.Atoi(p); err == nil && k < 1<<30 {
					port = k
				}
			}
			ports = append(ports, port)
		}
	}
	e["ports"] = ports
	e["hook"], e["member"], e["committee"] = false, none, none
	if parser != "" {
		out := filepath.Join(dir, "parsed.json")
		os.Remove(out)
		run(dir, parser, 60*time.Second, []string{"VERIF_PARSE=" + out, "VERIF_PK=" + pk, "VERIF_KEYS_ADDRS=" + com})
		var x struct{ Member, Committee tr.Ev }
		if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &x) == nil {
			e["hook"], e["member"], e["committee"] = true, x.Member, x.Committee
		}
	}
	return e
}

func refuse(dir string, sc scenario) tr.Ev {
	b64 := func(h string) string {
		b, err := hex.DecodeString(h)
		fail(err)
		return base64.StdEncoding.EncodeToString(b)
	}
	if !sc.PK.Absent {
		text := ""
		if !sc.PK.Empty {
			text = sc.PK.Raw
			if text == "" {
				text = b64(sc.PK.Blob)
			}
			text += " " + sc.PK.Pid + "\n"
		}
		fail(os.WriteFile(filepath.Join(dir, "my.pk"), []byte(text), 0600))
	}
	if !sc.NoCom {
		text := ""
		for _, x := range sc.Com {
			if x.Raw != "" {
				text += x.Raw + "\n"
			} else {
				text += b64(x.Key) + "|" + x.Addr + "\n"
			}
		}
		fail(os.WriteFile(filepath.Join(dir, "committee"), []byte(text), 0600))
	}
	e := start(dir, "my.pk", "committee")
	e["op"] = "refuse"
	return e
}

// ports finds free addresses, where no other scenario and no outgoing connection of the system looks for them.
func ports(id, try, n int) []string {
	out := []string{}
	for k := 0; len(out) < n; k++ {
		a := fmt.Sprintf("127.0.0.1:%d", 9000+((id%60)*3+try)*100+k)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			out = append(out, a)
		} else if k > 90 {
			fail(err)
		}
	}
	return out
}

// protocol runs a committee to the end. The time of a round is the assumption of the protocol, so a run that fails is
// repeated with more of it.
func protocol(id int, dir string, sc scenario) tr.Ev {
	e := tr.Ev{"op": "run", "n": sc.N, "t": sc.T, "sigs": sc.Sigs}
	for try, round := range []time.Duration{2 * time.Second, 5 * time.Second} {
		d := filepath.Join(dir, fmt.Sprintf("try%d", try))
		fail(os.Mkdir(d, 0700))
		g := generate(d, scenario{Arg: strconv.Itoa(sc.N), N: sc.N, Files: true, Lines: ports(id, try, sc.N), Ending: "\n"})
		if g["code"] != 0 || g["crashed"] == true {
			e["res"], e["gen"] = []tr.Ev{}, false
			return e
		}
		begin := time.Now().Add(time.Duration(2*try+2) * time.Second).Truncate(time.Second).UTC()
		res := make([]tr.Ev, sc.N)
		var wg sync.WaitGroup
		for p := 0; p < sc.N; p++ {
			home := filepath.Join(d, fmt.Sprintf("home%d", p))
			fail(os.Mkdir(home, 0700))
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				x := run(home, signer, 60*time.Second, nil,
					"-pk", filepath.Join(d, fmt.Sprintf("%d.pk", p)), "-keys_addrs", filepath.Join(d, "keys_addrs"),
					"-startTime", strings.ReplaceAll(begin.Format(time.UnixDate), " ", "-"), "-roundDuration", round.String(),
					"-threshold", strconv.Itoa(sc.T), "-sigNumber", strconv.Itoa(sc.Sigs))
				log := x["log"].(string)
				x["presigned"], x["signed"] = 0, 0
				x["errors"] = strings.Count(strings.ToLower(log), "error")
				for _, l := range strings.Split(log, "\n") {
					if !strings.Contains(l, " took ") {
						continue
					}
					if strings.Contains(l, "presignature") {
						x["presigned"] = x["presigned"].(int) + 1
					} else if strings.Contains(l, "Signing") {
						x["signed"] = x["signed"].(int) + 1
					}
				}
				x["done"] = strings.Contains(log, "All done!")
				res[p] = brief(x)
			}(p)
		}
		wg.Wait()
		e["res"], e["gen"] = res, true
		good := true
		for _, x := range res {
			good = good && x["done"] == true && x["errors"] == 0
		}
		if good || sc.Sigs < 1 || sc.T < 1 || sc.T > sc.N {
			break
		}
	}
	return e
}

func main() {
	flag.String("kind", "", "ignored")
	in := flag.String("in", "", "scenarios")
	out := flag.String("out", "", "trace")
	skip := flag.Int("skip", 0, "number of scenarios to skip")
	limit := flag.Int("limit", 0, "number of the last scenario")
	flag.StringVar(&gen, "gen", "", "the generator of keys")
	flag.StringVar(&signer, "signer", "", "the signer")
	flag.StringVar(&parser, "parser", "", "the signer, changed so that it writes what it reads")
	flag.Parse()
	w := tr.Create(*out)
	id := 0
	base, err := os.MkdirTemp("", "hcmd")
	fail(err)
	defer os.RemoveAll(base)
	tr.Lines(*in, func(raw []byte) {
		id++
		if id <= *skip || (*limit > 0 && id > *limit) {
			return
		}
		fmt.Println(id)
		var sc scenario
		if err := json.Unmarshal(raw, &sc); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS", err)
			os.Exit(2)
		}
		w.Put(tr.Ev{"op": "reset", "id": id, "n": sc.N, "kind": sc.Kind})
		dir := filepath.Join(base, strconv.Itoa(id))
		fail(os.Mkdir(dir, 0700))
		defer os.RemoveAll(dir)
		switch sc.Kind {
		case "gen":
			w.Put(generate(dir, sc))
			for _, p := range sc.Read {
				e := start(dir, fmt.Sprintf("%d.pk", p), "keys_addrs")
				e["op"], e["pid"] = "read", p
				w.Put(e)
			}
		case "refuse":
			e := refuse(dir, sc)
			var echo map[string]interface{}
			json.Unmarshal(raw, &echo)
			e["pk"], e["com"], e["nocom"] = echo["pk"], echo["com"], sc.NoCom
			w.Put(e)
		case "run":
			w.Put(protocol(id, dir, sc))
		default:
			fmt.Fprintln(os.Stderr, "HARNESS unknown kind", sc.Kind)
			os.Exit(2)
		}
	})
	w.Put(tr.Ev{"op": "end"})
	w.Close()
}
