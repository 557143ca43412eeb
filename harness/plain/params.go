package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"time"

	"vh/gen"
)

// params are tuning values a process starts with
type params struct {
	mg                     uint64
	ins, insfc, rec, recfc int
}

const small = 1 << 30 // TLC's integers are small

// randomParams are near the limits of what is allowed, or far from them
func randomParams(rng *rand.Rand) (p params) {
	d := func() int { return []int{-1, 0, 0, 1, 1, 1, 1, 2, 5, 30}[rng.Intn(10)] }
	p.insfc = 8 + d()
	p.ins = p.insfc + d()
	p.recfc = 2*p.ins + d()
	p.rec = p.recfc + d()
	p.mg = []uint64{0, 1, 2, 3, 4, 8, 100, 4095, 4096, 4097, 4098, 1 << 20, 1<<63 - 1, 1<<64 - 1}[rng.Intn(14)]
	if rng.Intn(3) > 0 {
		p.mg = 1 + p.mg%9
	}
	if rng.Intn(6) == 0 { // anything
		for _, v := range []*int{&p.ins, &p.insfc, &p.rec, &p.recfc} {
			switch rng.Intn(5) {
			case 0:
				*v = -*v
			case 1:
				*v = 0
			case 2:
				*v = rng.Intn(2000)
			case 3:
				*v = 1<<20 + rng.Intn(small/4)
			}
		}
	}
	return
}

// startCase starts a process with p. If it starts, it sorts.
func startCase(p params, rng *rand.Rand, cs int64) {
	ctx, cancel := context.WithTimeout(context.Background(), 70*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-prop", prop, "-child", strconv.FormatInt(rng.Int63(), 10))
	cmd.Env = append(os.Environ(), fmt.Sprintf("VH_PARAMS=%d,%d,%d,%d,%d", p.mg, p.ins, p.insfc, p.rec, p.recfc), "GOTRACEBACK=single")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	r := &Rec{Op: "start", Case: cs, MG: small, Lens: []int{p.ins, p.insfc, p.rec, p.recfc}}
	if p.mg < small {
		r.MG = int(p.mg)
	}
	sc := bufio.NewScanner(&o)
	sc.Buffer(make([]byte, 1<<16), 1<<26)
	r.Refused = true
	bad, recs := false, []*Rec{}
	for sc.Scan() {
		x := &Rec{}
		switch {
		case sc.Text() == "started":
			r.Refused = false
		case json.Unmarshal(sc.Bytes(), x) == nil:
			x.Case, x.MG, x.Lens = cs, r.MG, r.Lens
			recs = append(recs, x)
			elems += len(x.Key)
			types[x.Ty]++
		}
	}
	good := 0 < p.mg && p.mg < 4097 && p.rec > p.recfc && p.recfc > 2*p.ins && p.ins > p.insfc && p.insfc > 8
	emit(r, r.Refused == good)
	if good {
		feats["good parameters"]++
	} else {
		feats["bad parameters"]++
	}
	if !good { // nothing is promised then
		return
	}
	if err != nil && !r.Refused {
		op := "crash"
		if ctx.Err() != nil || bytes.Contains(e.Bytes(), []byte("HANG in the library")) {
			op = "hang"
		}
		emit(&Rec{Op: op, Case: cs, Ty: string(e.Bytes()[:min(500, e.Len())])}, true)
		bad = true
	}
	for _, x := range recs {
		emit(x, bad || !goodSort(x))
	}
}

// child sorts with the parameters the process has started with
func child(seed int64) {
	fmt.Println("started")
	rng := gen.Rng(seed)
	enc := json.NewEncoder(os.Stdout)
	for i := 0; i < 6; i++ {
		ty := gen.Types[rng.Intn(len(gen.Types))]
		ins, rec := lib.Ins, lib.Rec
		if gen.IsFC(ty) {
			ins, rec = lib.InsFC, lib.RecFC
		}
		n := rng.Intn(1000)
		switch x := []int{ins, 2 * ins, rec, 2 * (rec + 1), 4 * rec, 8 * rec}[rng.Intn(6)]; {
		case x < 3000:
			n = max(0, x+rng.Intn(9)-4)
		}
		d := gen.New(ty, gen.Keys(n, rng.Intn(gen.Patterns+6), rng), rng)
		pan := protect(func() { d.Sort(lib) })
		r := &Rec{Op: "sort", Ty: ty, NaN: 1, Key: d.Key, Pan: pan, Perm: d.Perm()}
		r.G, r.B, _ = d.Same()
		if d.Calls != nil {
			r.OOB = d.Calls()
		}
		if enc.Encode(r) != nil {
			os.Exit(3)
		}
	}
}
