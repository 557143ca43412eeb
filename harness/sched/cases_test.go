package sched

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"vh/gen"
	"vh/vrt"
)

var propTypes = map[string][]string{
	"C06": gen.Lsws,
	"C10": {"int32", "int64", "uint32", "uint64", "float32", "float64", "string", "bytes", "lenS", "lenB", "ptr"},
	"C01": {"int32", "int64", "uint32", "uint64"}, "C02": {"float32", "float64"}, "C03": {"string", "bytes"},
	"C04": {"lenS", "lenB"}, "C05": {"lsw"}, "C17": {"ptr"},
}

// how many of twelve cases of a property are about starting goroutines
var forks = map[string]int{"C18": 4, "C06": 3, "C07": 8, "C09": 5, "C10": 3, "C12": 4}

func typesOf() []string {
	if t := propTypes[*prop]; t != nil {
		return t
	}
	return gen.Core
}

func tune(rng *rand.Rand) {
	switch rng.Intn(5) {
	case 0, 1, 2:
		lt.Tune(10, 9, 22, 21)
	case 3:
		lt.Tune(11+rng.Intn(5), 9+rng.Intn(2), 33+rng.Intn(10), 32)
	default:
		lt.Tune(12, 10, 26, 25)
	}
}

func makeData(ty string, n int, nan int, rng *rand.Rand) *gen.Data {
	key := gen.Keys(n, rng.Intn(gen.Patterns+14), rng)
	if *prop != "C18" && (ty == "float32" || ty == "float64") && nan != 0 && rng.Intn(3) == 0 {
		gen.WithNaNs(key, rng)
	}
	return gen.New(ty, key, rng)
}

func strategy(p *plan, rng *rand.Rand) {
	c := &p.cfg
	c.Seed = rng.Int63()
	c.Record = true
	c.Switch = []int{1, 3, 10, 40, 200}[rng.Intn(5)]
	c.Depth = 1 + rng.Intn(6)
	n := 0
	for _, d := range p.jobs {
		n += d.N
	}
	c.Steps = 20 + n*(5+rng.Intn(25))
	c.Strategy = []string{"random", "random", "rr", "pct", "pct", "starve", "sync", "sync"}[rng.Intn(8)]
}

func runCase(t *testing.T, cs int64) {
	rng := gen.Rng(cs)
	p := &plan{lib: lt, cs: cs, nan: rng.Intn(2)*2 - 1}
	tune(rng)
	tys := typesOf()
	ty := tys[rng.Intn(len(tys))]
	if rng.Intn(25) == 0 && *prop != "C16" {
		p.lib = lc
	}
	rec := func(ty string) int {
		if gen.IsFC(ty) {
			return p.lib.RecFC
		}
		return p.lib.Rec
	}
	length := func(ty string) int {
		r := rec(ty)
		b := 2 * (r + 1)
		if *prop == "C18" && rng.Intn(6) == 0 {
			return b
		}
		switch x := rng.Intn(20); {
		case x < 6:
			return b + rng.Intn(6)
		case x < 11:
			return b + rng.Intn(r)
		case x < 15:
			return b + rng.Intn(3*r)
		case x < 18:
			return b + rng.Intn(5*r)
		default:
			if p.lib == lc {
				return b + rng.Intn(r)
			}
			return b + rng.Intn(12*r)
		}
	}
	p.mg = []uint64{2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 20, 1 << 40}[rng.Intn(13)]
	switch *prop {
	case "C08":
		c08Case(p, ty, rng)
	case "C11":
		switch rng.Intn(4) {
		case 0:
			issCase(t, p, ty, rng)
			return
		case 1: // next to each other
			p.whole = makeData(ty, length(ty)+rng.Intn(2*rec(ty)), p.nan, rng)
			a := 0
			for i := 2 + rng.Intn(2); i > 0; i-- {
				b := p.whole.N
				if i > 1 {
					b = a + rng.Intn(p.whole.N-a+1)
				}
				p.jobs = append(p.jobs, p.whole.Part(a, b))
				p.iss = append(p.iss, rng.Intn(8) == 0)
				a = b
			}
			strategy(p, rng)
			run(t, p)
			return
		}
		for i := 2 + rng.Intn(3); i > 0; i-- {
			if rng.Intn(2) == 0 {
				ty = tys[rng.Intn(len(tys))]
			}
			n := length(ty)
			switch rng.Intn(4) {
			case 0:
				n = rng.Intn(2 * rec(ty))
			}
			p.jobs = append(p.jobs, makeData(ty, n, p.nan, rng))
		}
		if rng.Intn(4) == 0 {
			p.mg = uint64(rng.Intn(2))
		}
	case "C13":
		issCase(t, p, ty, rng)
		return
	case "C16":
		killerCase(t, p, ty, rng)
		return
	case "C21":
		obeyCase(t, p, ty, rng)
		return
	case "C20":
		workCase(t, p, ty, rng)
		return
	default:
		p.jobs = append(p.jobs, makeData(ty, length(ty), p.nan, rng))
	}
	strategy(p, rng)
	if p.lib == lt && rng.Intn(12) < forks[*prop] {
		// many decisions about goroutines: long evenly divided input, few goroutines allowed,
		// switching at synchronising operations
		d := p.jobs[0]
		n := rec(d.Ty)*(6+rng.Intn(12)) + rng.Intn(rec(d.Ty))
		p.jobs[0] = gen.New(d.Ty, gen.Keys(n, 0, rng), rng)
		p.mg = []uint64{2, 3, 3, 3, 3, 3, 4, 5}[rng.Intn(8)]
		p.cfg.Strategy = "sync"
	}
	if *prop == "C12" || (*prop == "C18" && rng.Intn(4) == 0) || (*prop == "C09" || *prop == "C07") && rng.Intn(8) == 0 {
		vals := []uint64{0, 1, 2, 3, 4, 5, 7, 1 << 40, 1<<64 - 1}
		if rng.Intn(3) == 0 {
			vals = []uint64{0, 1, 2}
		}
		p.mg = vals[rng.Intn(len(vals))]
		k := 1 + rng.Intn(6)
		at := 0
		for i := 0; i < k; i++ {
			at += 1 + rng.Intn(1+p.cfg.Steps/k)
			p.cfg.MGTimes = append(p.cfg.MGTimes, at)
			p.cfg.MGVals = append(p.cfg.MGVals, vals[rng.Intn(len(vals))])
		}
	}
	if rng.Intn(40) == 0 && len(p.jobs) == 1 && p.lib == lt && len(p.cfg.MGTimes) == 0 {
		explore(t, p, 60, rng)
		return
	}
	run(t, p)
}

// issCase checks overlapping parts of one collection, which is permitted at the same time
func issCase(t *testing.T, p *plan, ty string, rng *rand.Rand) {
	n := 2 + rng.Intn(40)
	key := gen.Keys(n, 6, rng)
	if rng.Intn(3) > 0 {
		for i, m := 0, 1+rng.Intn(n); i < n; i++ {
			key[i] = key[i] * m / n
		}
	}
	if (ty == "float32" || ty == "float64") && rng.Intn(2) == 0 {
		for i := rng.Intn(n); i > 0; i-- {
			if p.nan < 0 {
				key[i-1] = gen.NaN
			} else {
				key[n-i] = gen.NaN
			}
		}
	}
	if rng.Intn(2) == 0 {
		i, k := rng.Intn(n), rng.Intn(n)
		key[i], key[k] = key[k], key[i]
	}
	p.whole = gen.New(ty, key, rng)
	for i := 2 + rng.Intn(2); i > 0; i-- {
		a := rng.Intn(n/2 + 1)
		p.jobs = append(p.jobs, p.whole.Part(a, a+rng.Intn(n-a+1)))
		p.iss = append(p.iss, true)
	}
	strategy(p, rng)
	run(t, p)
}

// obeyCase changes MaxGor during a long call
func obeyCase(t *testing.T, p *plan, ty string, rng *rand.Rand) {
	p.lib = lt
	r := lt.Rec
	if gen.IsFC(ty) {
		r = lt.RecFC
	}
	if rng.Intn(8) == 0 { // no more limits, when ranges divide evenly
		n := min(r*(100+rng.Intn(81)), 4000)
		p.jobs = append(p.jobs, gen.New(ty, gen.Keys(n, 6, rng), rng))
		p.asc = true
		strategy(p, rng)
		if rng.Intn(2) > 0 {
			p.cfg.Strategy = "sync"
		}
		p.mg = []uint64{2, 2, 2, 3, 4}[rng.Intn(5)]
		p.cfg.MGTimes = []int{1 + rng.Intn(4*n)}
		p.cfg.MGVals = []uint64{1 << 40}
		run(t, p)
		return
	}
	if rng.Intn(2) == 0 { // more are allowed soon
		n := 4*(r+1) + rng.Intn(10*r)
		p.jobs = append(p.jobs, gen.New(ty, gen.Keys(n, rng.Intn(gen.Patterns+30), rng), rng))
		strategy(p, rng)
		if rng.Intn(3) > 0 {
			p.cfg.Strategy = "lead"
		}
		p.mg = 2
		p.cfg.MGTimes = []int{1 + rng.Intn(n/2)}
		p.cfg.MGVals = []uint64{[]uint64{3, 3, 4, 5, 20, 1 << 40, 1<<64 - 1}[rng.Intn(7)]}
	} else { // less are allowed
		n := r*(6+rng.Intn(20)) + rng.Intn(r)
		p.jobs = append(p.jobs, gen.New(ty, gen.Keys(n, rng.Intn(gen.Patterns+60), rng), rng))
		strategy(p, rng)
		switch rng.Intn(3) {
		case 0:
			p.cfg.Strategy = "lead"
		case 1:
			p.cfg.Strategy = "sync"
		}
		p.mg = []uint64{3, 4, 5, 8, 20, 1 << 40}[rng.Intn(6)]
		at := 0
		for i := 1 + rng.Intn(2); i > 0; i-- {
			at += 1 + rng.Intn(4*n)
			p.cfg.MGTimes = append(p.cfg.MGTimes, at)
			p.cfg.MGVals = append(p.cfg.MGVals, []uint64{0, 1, 1, 2, 3}[rng.Intn(5)])
		}
	}
	run(t, p)
}

// explore runs all schedules of synchronising operations, as far as max goes
func explore(t *testing.T, p *plan, max int, rng *rand.Rand) {
	p.cfg.Strategy = "script"
	d0 := p.jobs[0]
	sd := rng.Int63()
	var script []int
	for i := 0; i < max; i++ {
		d := gen.New(d0.Ty, d0.Key, gen.Rng(sd))
		p.jobs = []*gen.Data{d}
		p.cfg.Script = script
		ch := run(t, p)
		st.DFS++
		// next: last choice that has another alternative
		j := len(ch) - 1
		for ; j >= 0; j-- {
			if ch[j].Took+1 < len(ch[j].Ready) {
				break
			}
		}
		if j < 0 {
			st.DFSDone++
			return
		}
		// after some runs jump to an early choice to see different parts of the tree
		if rng.Intn(6) == 0 {
			for k := rng.Intn(j + 1); k <= j; k++ {
				if ch[k].Took+1 < len(ch[k].Ready) {
					j = k
					break
				}
			}
		}
		script = nil
		for k := 0; k < j; k++ {
			script = append(script, -1-ch[k].Took)
		}
		script = append(script, -2-ch[j].Took)
	}
}

func c08Case(p *plan, ty string, rng *rand.Rand) {
	if rng.Intn(3) == 0 {
		p.lib = lc
	}
	r := p.lib.Rec
	if gen.IsFC(ty) {
		r = p.lib.RecFC
	}
	b := 2 * (r + 1)
	n := 0
	switch rng.Intn(6) {
	case 0, 1: // longest that must not be concurrent
		n = b - 1 - rng.Intn(4)
	case 2:
		n = rng.Intn(b)
	case 3:
		n = b - 1
	default: // MaxGor ≤ 1, any length; or the channel bound
		n = b + rng.Intn(6*r)
		if p.lib == lc {
			n = b + rng.Intn(20)
		}
		if rng.Intn(3) > 0 {
			p.mg = uint64(rng.Intn(2))
		}
	}
	p.jobs = append(p.jobs, makeData(ty, n, p.nan, rng))
}

// SpecScript is a schedule from the specification: goroutines in the order they take
// synchronising steps
type SpecScript struct {
	Script []int `json:"script"`
	MG     int   `json:"mg"`
	Parts  int   `json:"parts"`
}

func fromSpec(t *testing.T, file string, end time.Time, only int64) {
	f, err := os.Open(file)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	lt.Tune(10, 9, 22, 21)
	tys := typesOf()
	for i := int64(1); sc.Scan() && time.Now().Before(end); i++ {
		var x SpecScript
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			t.Fatal(err)
		}
		if only != 0 && only != -i {
			continue
		}
		if wal != nil {
			wal.WriteAt([]byte(strconv.FormatInt(-i, 10)+"          "), 0)
		}
		st.Spec++
		rng := gen.Rng(i + *seed*1000003)
		ty := tys[int(i)%len(tys)]
		p := &plan{lib: lt, cs: -i, nan: 1, mg: uint64(x.MG)}
		r := lt.Rec
		if gen.IsFC(ty) {
			r = lt.RecFC
		}
		n := x.Parts*(r+1) + rng.Intn(r)
		if n < 2*(r+1) {
			n = 2 * (r + 1)
		}
		p.jobs = []*gen.Data{makeData(ty, n, 1, rng)}
		p.cfg = vrt.Config{Seed: 1, Strategy: "script", Script: x.Script, ByID: true, Record: true}
		run(t, p)
	}
}

// families are the patterns of ordinary inputs, see WorkBound in the specification
var families = []int{1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 22, 23, 24, 25}

// workCase sorts a long ordinary input with default thresholds
func workCase(t *testing.T, p *plan, ty string, rng *rand.Rand) {
	p.lib = lc
	n := []int{100, 700, 2000, 5000, 20000}[rng.Intn(5)]
	f := families[rng.Intn(len(families))]
	if rng.Intn(30) == 0 {
		n = 60000
	}
	n += rng.Intn(n)
	key := gen.Keys(n, f, rng)
	p.jobs = append(p.jobs, gen.New(ty, key, rng))
	p.mg = []uint64{1, 2, 3, 3, 8}[rng.Intn(5)]
	p.cfg = vrt.Config{Seed: rng.Int63(), Strategy: "solo", Budget: 2 * n * (10*lg(n) + 60)}
	run(t, p)
}
