// Command plain runs sorty, as it is built from the repository, on many inputs and records what
// the calls did, for a specification to judge. Inputs are functions of the case number only.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"

	"vh/gen"
)

// Rec is one recorded call, see spec/TraceCalls.tla
type Rec struct {
	Op    string `json:"op"`
	Case  int64  `json:"case"`
	Build string `json:"build"`
	Ty    string `json:"ty,omitempty"`
	Pat   int    `json:"pat"`
	MG    int    `json:"mg"`
	NaN   int    `json:"nan"`
	Key   []int  `json:"key"`
	Perm  []int  `json:"perm"`
	G     bool   `json:"g"`
	B     bool   `json:"b"`
	Same  bool   `json:"same"`
	Ret   int    `json:"ret"`
	OOB   int    `json:"oob"`
	Swaps int    `json:"swaps"`
	Pan   string `json:"pan"`
	Lens  []int  `json:"lens"`
	N     []int  `json:"n,omitempty"`
	K     []int  `json:"k,omitempty"`
	R     []int  `json:"r,omitempty"`
	Neg   bool   `json:"neg"`
	Calls int    `json:"calls"`
	Fn    string `json:"fn,omitempty"`
	Type  any    `json:"type,omitempty"`
	Bytes int    `json:"bytes"`
	Len   int    `json:"len"`
	Empty bool   `json:"empty"`
	At    []int  `json:"at,omitempty"`
	// the process was refused to start
	Refused bool `json:"refused"`
}

var (
	lib           *gen.Lib
	out           *bufio.Writer
	enc           *json.Encoder
	outMu         sync.Mutex
	budget        int // elements left for judgement by TLC
	used, allowed int
	cases         int
	elems         int
	judged        int
	susp          int
	wal           *os.File
	prop          string
	cur           int64
	types         map[string]int
	maxLen        int
	feats         = map[string]int{}
)

func emit(r *Rec, suspicious bool) {
	outMu.Lock()
	defer outMu.Unlock()
	n := len(r.Key) + 20
	if suspicious {
		susp++
		suspicious = susp <= 40
	}
	if !suspicious && used+n > allowed {
		return
	}
	used += n
	judged++
	r.Build = lib.Name
	if r.Key == nil {
		r.Key = []int{}
	}
	if r.Perm == nil {
		r.Perm = []int{}
	}
	if r.Lens == nil {
		r.Lens = []int{}
	}
	if err := enc.Encode(r); err != nil {
		panic(err)
	}
	if suspicious {
		out.Flush()
	}
}

func main() {
	flag.StringVar(&prop, "prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 5, "time")
	outF := flag.String("out", "", "records")
	walF := flag.String("wal", "", "current case")
	one := flag.String("case", "", "run one case only")
	gens := flag.String("gen", "", "cases from a specification")
	childF := flag.Int64("child", 0, "started by another process")
	maxCases := flag.Int("cases", 1<<30, "maximum number of cases")
	flag.IntVar(&budget, "budget", 500000, "elements to record")
	flag.Parse()

	lib = newLib()
	go watch()
	if *childF != 0 {
		child(*childF)
		return
	}
	types = map[string]int{}
	f, err := os.Create(*outF)
	if err != nil {
		panic(err)
	}
	out = bufio.NewWriterSize(f, 1<<20)
	enc = json.NewEncoder(out)
	if *walF != "" {
		if wal, err = os.Create(*walF); err != nil {
			panic(err)
		}
	}
	allowed = budget
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))

	run := func(c int64) {
		cur = c
		if wal != nil {
			b := []byte(strconv.FormatInt(c, 10) + "          ")
			wal.WriteAt(b, 0)
		}
		runCase(c)
		cases++
	}
	switch {
	case *one != "":
		c, err := strconv.ParseInt(*one, 10, 64)
		if err != nil {
			panic(err)
		}
		allowed = 1 << 30
		if c < 0 {
			specCases(*gens, c)
		} else {
			run(c)
		}
	default:
		if *gens != "" {
			specCases(*gens, 0)
		}
		// spread what is recorded over the time
		start := time.Now()
		for i := int64(0); i < int64(*maxCases) && time.Now().Before(deadline); i++ {
			frac := time.Since(start).Seconds() / *secs
			allowed = int(float64(budget) * (0.1 + frac))
			run(*seed<<32 + i + 1)
		}
	}
	out.Flush()
	f.Close()
	st, _ := json.Marshal(map[string]any{"cases": cases, "elements": elems, "judged": judged, "suspicious": susp,
		"types": types, "maxlen": maxLen, "features": feats})
	fmt.Println(string(st))
}

func rngFor(c int64) *rand.Rand { return gen.Rng(c) }
