// Command hcrypto executes scenarios on the curve, commitment and zkpok packages and records what happened.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"math/big"
	"os"
	"sync"

	"a.verif/harness/tr"

	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// firstUse is the first that the packages see in this process: several goroutines, each with objects of its own. It must
// not matter to any of them that the others are there.
func firstUse() {
	const n = 4
	var wg sync.WaitGroup
	start := make(chan struct{})
	res := make([][]byte, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			var buf bytes.Buffer
			must := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			g := curve.NewSecp256k1Group()
			h := g.ScalarBaseMult(big.NewInt(77))
			f := commitment.NewElGamalFactory(h)
			must(g.Encode(g.Add(g.Neg(g.Gen()), g.ScalarMult(h, big.NewInt(5))), &buf))
			c, d := f.Create(big.NewInt(7), big.NewInt(11)), f.Create(big.NewInt(0), big.NewInt(3))
			must(c.Encode(&buf))
			d.Compose(c, d)
			must(d.Encode(&buf))
			buf.Write(g.Order().Bytes())
			know, err := zkpok.NewZKEGKnow(f, c, big.NewInt(7), big.NewInt(11))
			must(err)
			must(know.Verify(f, c))
			refresh, err := zkpok.NewZKEGRefresh(f, c, d, big.NewInt(3))
			must(err)
			must(refresh.Verify(f, c, d))
			res[i] = buf.Bytes()
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range res {
		if !bytes.Equal(res[i], res[0]) {
			panic("goroutines with their own objects have different results")
		}
	}
}

func main() {
	kind := flag.String("kind", "", "kind of scenarios")
	in := flag.String("in", "", "scenarios")
	out := flag.String("out", "", "trace")
	skip := flag.Int("skip", 0, "number of scenarios to skip")
	flag.Parse()
	run := map[string]func([]byte, *tr.Writer, int){
		"curve":  runCurve,
		"commit": runCommit,
		"proof":  runProof,
		"wire":   runWire,
	}[*kind]
	if run == nil {
		fmt.Fprintln(os.Stderr, "unknown kind", *kind)
		os.Exit(2)
	}
	w := tr.Create(*out)
	id := 0
	first := true
	tr.Lines(*in, func(raw []byte) {
		id++
		if id <= *skip {
			return
		}
		// if the process dies, the last id says where
		fmt.Println(id)
		w.Flush()
		if first && os.Getenv("GORACE") != "" {
			firstUse()
		}
		first = false
		run(raw, w, id)
	})
	w.Put(tr.Ev{"op": "end"})
	w.Close()
}
