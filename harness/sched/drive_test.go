package sched

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"vh/gen"
	"vh/vrt"
)

var (
	prop     = flag.String("prop", "C07", "property")
	seed     = flag.Int64("seed", 1, "seed")
	secs     = flag.Float64("secs", 5, "time")
	outF     = flag.String("out", "", "traces")
	walF     = flag.String("wal", "", "current case")
	one      = flag.String("case", "", "one case")
	scripts  = flag.String("scripts", "", "schedules from the specification")
	evBudget = flag.Int("budget", 60000, "events to record")
	maxCases = flag.Int("cases", 1<<40, "maximum number of cases")
)

// call is one call of the library within a schedule
type call struct {
	C    int    `json:"c"`
	F    string `json:"f"`
	Ty   string `json:"ty"`
	N    int    `json:"n"`
	Lo   int    `json:"lo"` // locations of the elements
	Hi   int    `json:"hi"`
	Glo  int    `json:"glo"` // with guards
	Ghi  int    `json:"ghi"`
	Rec  int    `json:"rec"`
	MG   int    `json:"mg"`
	NaN  int    `json:"nan"`
	Key  []int  `json:"key"`
	Perm []int  `json:"perm"`
	OOB  int    `json:"oob"`
	G    bool   `json:"g"`
	B    bool   `json:"b"`
	Asc  bool   `json:"asc"` // was in order, without equal elements
	Iss  bool   `json:"iss"` // only checks whether it is sorted
	Ret  int    `json:"ret"`
	Same bool   `json:"same"` // elements were not moved, for iss
	d    *gen.Data
}

type trace struct {
	Case  int64   `json:"case"`
	Build string  `json:"build"`
	Strat string  `json:"strat"`
	MG0   int     `json:"mg0"`
	Lens  []int   `json:"lens"`
	Acc   int     `json:"acc"` // element accesses
	Calls []*call `json:"calls"`
	NG    int     `json:"ng"` // goroutines
	NO    int     `json:"no"` // synchronisation objects
	NL    int     `json:"nl"` // locations of collections: 1..nl
	Ev    []any   `json:"ev"`
	Pan   string  `json:"pan"`
}

// plan says what to run
type plan struct {
	lib   *gen.Lib
	jobs  []*gen.Data
	nan   int
	mg    uint64
	cfg   vrt.Config
	full  bool // compare results
	cs    int64
	depth bool
	asc   bool      // the only input is in order, without equal elements
	iss   []bool    // is the job to check, or to sort
	whole *gen.Data // jobs are parts of it
}

type stats struct {
	Cases   int            `json:"cases"`
	Steps   int            `json:"steps"`
	Events  int            `json:"events"`
	Judged  int            `json:"judged"`
	Dist    int            `json:"distinct"`
	Susp    int            `json:"suspicious"`
	SuspEv  int            `json:"suspicious events"`
	Types   map[string]int `json:"types"`
	Strats  map[string]int `json:"strategies"`
	Spawns  map[int]int    `json:"spawns"`
	MaxG    int            `json:"maxgoroutines"`
	Kept    int            `json:"maxkept"` // percents of what C21 allows
	MaxWork map[string]int `json:"maxworking"`
	Depth   map[string]int `json:"maxdepth"`
	Unclean int            `json:"unclean"`
	DFS     int            `json:"dfs"`
	Spec    int            `json:"from specification"`
	DFSDone int            `json:"dfscomplete"`
	Rel     float64        `json:"maxdepthbylog"`
}

var (
	st = stats{Types: map[string]int{}, Strats: map[string]int{}, Spawns: map[int]int{}, MaxWork: map[string]int{},
		Depth: map[string]int{}}
	enc     *json.Encoder
	outW    *bufio.Writer
	wal     *os.File
	used    int
	allowed int
	seen    = map[uint64]bool{}
	lastSes *vrt.S
)

func TestDrive(t *testing.T) {
	if *outF == "" {
		t.Skip()
	}
	f, err := os.Create(*outF)
	if err != nil {
		t.Fatal(err)
	}
	outW = bufio.NewWriterSize(f, 1<<20)
	enc = json.NewEncoder(outW)
	if *walF != "" {
		if wal, err = os.Create(*walF); err != nil {
			t.Fatal(err)
		}
	}
	debug.SetGCPercent(-1)
	finish := func() {
		outW.Flush()
		f.Close()
		b, _ := json.Marshal(st)
		fmt.Printf("STATS %s\n", b)
	}
	exitNow = func() {
		finish()
		os.Exit(0)
	}
	go watch()
	if *one != "" {
		c, err := strconv.ParseInt(*one, 10, 64)
		if err != nil {
			t.Fatal(err)
		}
		allowed = 1 << 40
		if c < 0 {
			fromSpec(t, *scripts, time.Now().Add(time.Hour), c)
		} else {
			runCase(t, c)
		}
	} else {
		start := time.Now()
		end := start.Add(time.Duration(*secs * float64(time.Second)))
		allowed = *evBudget / 5
		if *scripts != "" {
			fromSpec(t, *scripts, end, 0)
		}
		for i := int64(1); i <= int64(*maxCases) && time.Now().Before(end); i++ {
			allowed = int(float64(*evBudget) * (0.2 + time.Since(start).Seconds() / *secs))
			if wal != nil {
				wal.WriteAt([]byte(strconv.FormatInt(*seed<<32+i, 10)+"      "), 0)
			}
			runCase(t, *seed<<32+i)
		}
	}
	finish()
}

var exitNow func()

var running atomic.Pointer[vrt.S]

// watch ends the process if a schedule makes no step for a long time: there is a loop without any
// access or synchronisation, which the budget of steps cannot end
func watch() {
	var last *vrt.S
	steps := 0
	for i := 0; ; i++ { // not by the clock, all processes could have been stopped for a while
		time.Sleep(time.Second)
		s := running.Load()
		if s == nil || s != last || s.Steps() != steps {
			if last = s; s != nil {
				steps = s.Steps()
			}
			i = 0
		} else if i > 40 {
			gen.Hang()
		}
	}
}

// run runs a plan once and records it
func run(t *testing.T, p *plan) (choices []vrt.Choice) {
	tr := &trace{Case: p.cs, Build: p.lib.Name, Strat: p.cfg.Strategy, MG0: clamp(p.mg),
		Lens: []int{p.lib.Ins, p.lib.InsFC, p.lib.Rec, p.lib.RecFC}}
	var evs []vrt.Ev
	var pans []string
	unclean := false
	steps := 0
	p.lib.SetMG(p.mg)
	p.lib.SetNaN(p.nan)
	p.cfg.SetMG = p.lib.SetMG
	p.cfg.Ignore = []string{"MaxGor", "NaNoption", "MaxLenIns", "MaxLenInsFC", "MaxLenRec", "MaxLenRecFC"}
	if p.cfg.Budget == 0 {
		n := 0
		for _, d := range p.jobs {
			n += d.N
		}
		p.cfg.Budget = 20*n*n + 200000
	}
	synctest.Test(t, func(t *testing.T) {
		p.cfg.Uses = len(p.jobs) > 1
		s := vrt.New(p.cfg)
		lastSes = s
		base := 0
		if w := p.whole; w != nil {
			if w.Lsw != nil {
				base = s.Locs(w.N)
				tr.NL = base + w.N - 1
			} else {
				base = s.Region(w.Mem, w.Size, w.N+2*w.Pad, 1, reflect.TypeOf(w.Arg).Elem())
				tr.NL = base + w.N + 2*w.Pad - 1
				base += w.Pad
			}
		}
		for i, d := range p.jobs {
			rec := p.lib.Rec
			if gen.IsFC(d.Ty) {
				rec = p.lib.RecFC
			}
			c := &call{C: i + 1, Ty: d.Ty, N: d.N, Rec: rec, MG: clamp(p.mg), NaN: p.nan, Key: d.Key, Asc: p.asc, d: d, F: "SortSlice"}
			if i < len(p.iss) {
				c.Iss = p.iss[i]
			}
			if d.Lsw != nil {
				c.F = "Sort"
				if d.Whole != nil {
					c.Glo = base + d.Off
				} else {
					c.Glo = s.Locs(d.N)
				}
				c.Lo, c.Hi, c.Ghi = c.Glo, c.Glo+d.N-1, c.Glo+d.N-1
				lo := c.Lo
				d.Hook = func(i, k, r, q, phase int) {
					s.Yield()
					if phase == 0 {
						s.Access(lo+i, false)
						s.Access(lo+k, false)
					} else {
						s.Access(lo+r, true)
						s.Access(lo+q, true)
					}
				}
			} else {
				if len(d.Ty) > 3 && d.Ty[:3] == "len" {
					c.F = "SortLen"
				}
				if d.Whole != nil {
					c.Glo = base + d.Off
				} else {
					c.Glo = s.Region(d.Mem, d.Size, d.N+2*d.Pad, i+1, reflect.TypeOf(d.Arg).Elem())
				}
				c.Lo = c.Glo + d.Pad
				c.Hi = c.Lo + d.N - 1
				c.Ghi = c.Hi + d.Pad
			}
			tr.Calls = append(tr.Calls, c)
			s.Call(i+1, func() {
				s.Event("begin", s.Cur(), c.C)
				if c.Iss {
					c.Ret = d.Iss(p.lib)
				} else {
					d.Sort(p.lib)
				}
				s.Ret(c.C, s.Depth())
			})
			tr.NL = max(tr.NL, c.Ghi)
		}
		running.Store(s)
		s.Run()
		evs = s.Finish()
		running.Store(nil)
		pans = s.Panics
		unclean = s.Unclean()
		steps = s.Steps()
		tr.Acc = s.Touches()
		choices = s.Choices
		tr.NO = s.Objs()
		s.Close()
		if unclean { // goroutines remain that cannot be ended: this process is done
			finishTrace(tr, evs, pans, p, steps)
			st.Unclean++
			exitNow()
		}
	})
	finishTrace(tr, evs, pans, p, steps)
	if st.Cases%50 == 0 {
		runtime.GC()
	}
	return
}

func clamp(v uint64) int {
	if v > 1000000 {
		return 1000000
	}
	return int(v)
}

func finishTrace(tr *trace, evs []vrt.Ev, pans []string, p *plan, steps int) {
	st.Cases++
	st.Steps += steps
	st.Strats[p.cfg.Strategy]++
	for _, s := range pans {
		tr.Pan += s
	}
	if len(tr.Pan) > 3000 {
		tr.Pan = tr.Pan[:3000]
	}
	for _, c := range tr.Calls {
		c.Perm = c.d.Perm()
		c.G, c.B, c.Same = c.d.Same()
		if c.d.Calls != nil {
			c.OOB = c.d.Calls()
		}
		st.Types[c.Ty]++
	}
	sp := 0
	h := fnv.New64a()
	for _, e := range evs {
		var x []any
		x = append(x, e.K)
		switch e.K {
		case "seg":
			tr.NG = max(tr.NG, e.A[0])
			x = append(x, e.A[0])
			var k [3][]int
			for i := 1; i < len(e.A); i += 2 {
				loc := e.A[i]
				if loc < 0 {
					loc = tr.NL - loc
				}
				for b := 0; b < 3; b++ {
					if e.A[i+1]>>b&1 == 1 {
						k[b] = append(k[b], loc)
					}
				}
			}
			for b := range k {
				x = append(x, intervals(k[b]))
			}
		default:
			for _, v := range e.A {
				x = append(x, v)
			}
			if e.K == "spawn" {
				sp++
			}
			if (e.K == "spawn" || e.K == "root") && len(e.A) == 2 {
				g := e.A[1]
				if e.K == "root" {
					g = e.A[0]
				}
				tr.NG = max(tr.NG, g)
			}
		}
		fmt.Fprint(h, x)
		tr.Ev = append(tr.Ev, x)
	}
	st.Spawns[min(sp, 40)]++
	st.MaxG = max(st.MaxG, sp+len(tr.Calls))
	st.Events += len(evs)
	bad := screen(tr, evs, p)
	fmt.Fprint(h, tr.Calls[0].Ty, bad, tr.Acc)
	if *prop == "C18" || *prop == "C20" || *prop == "C21" { // results are not judged
		for _, c := range tr.Calls {
			c.Key, c.Perm = []int{}, []int{}
		}
	}
	d := !seen[h.Sum64()]
	if d {
		if len(seen) < 2000000 {
			seen[h.Sum64()] = true
		}
		st.Dist++
	}
	if bad {
		st.Susp++
	}
	if bad && len(evs) > 4000 {
		tr.Ev = shorten(tr.Ev)
		if (*prop == "C18" || *prop == "C21") && len(tr.Ev) < len(evs) {
			return // it needs all accesses
		}
	}
	cost := len(tr.Ev)
	for _, c := range tr.Calls {
		cost += len(c.Key) / 4
	}
	if bad {
		st.SuspEv += len(tr.Ev)
	}
	if (bad && st.Susp <= 30 && (st.SuspEv < 80000 || len(tr.Ev) < 3000)) || (d && used+cost <= allowed && len(evs) < 5000 && !(p.asc && len(evs) > 1200)) {
		used += cost
		st.Judged++
		if err := enc.Encode(tr); err != nil {
			panic(err)
		}
		if bad {
			outW.Flush()
		}
	}
}

// shorten leaves out accesses of a very long schedule that does not end as it should, since judging is
// expensive: what remains can only be accused of less
func shorten(ev []any) (r []any) {
	end := false
	for _, e := range ev {
		switch e.([]any)[0] {
		case "over", "stuck", "panic":
			end = true
		}
	}
	if !end {
		return ev
	}
	k := 0
	for _, e := range ev {
		if e.([]any)[0] == "seg" {
			if k++; k > 1500 {
				continue
			}
		}
		r = append(r, e)
	}
	return
}

// intervals of locations, flattened: lo, hi, lo, hi, ...
func intervals(l []int) []int {
	sort.Ints(l)
	r := []int{}
	for _, x := range l {
		if n := len(r); n > 0 && r[n-1] == x-1 {
			r[n-1] = x
		} else if n == 0 || r[n-1] != x {
			r = append(r, x, x)
		}
	}
	return r
}

// screen does, roughly, what TraceGor.tla does, to choose what TLC has to see. It decides nothing.
func screen(tr *trace, evs []vrt.Ev, p *plan) (bad bool) {
	type sg struct {
		g, clk, call int
		k            map[int]int
	}
	ng := tr.NG + 1
	vc := make([][]int, ng)
	objs := map[int][]int{}
	by := map[int]int{}
	cl := make([]int, ng)
	work := make([]bool, ng)
	mg := clamp(p.mg)
	mgm := make([]int, len(tr.Calls)+1)
	mgl := make([]int, len(tr.Calls)+1)
	root := make([]int, len(tr.Calls)+1)
	begun := make([]bool, len(tr.Calls)+1)
	depthN := make([]int, len(tr.Calls)+1)
	retd := make([]bool, len(tr.Calls)+1)
	nchan := make([]int, len(tr.Calls)+1)
	var segs []sg
	fresh := func(g int) {
		vc[g] = make([]int, ng)
		vc[g][g] = 1
	}
	join := func(a, b []int) {
		for i, x := range b {
			if x > a[i] {
				a[i] = x
			}
		}
	}
	for _, e := range evs {
		switch e.K {
		case "root":
			fresh(e.A[0])
			cl[e.A[0]] = e.A[1]
			root[e.A[1]] = e.A[0]
		case "spawn":
			a, b := e.A[0], e.A[1]
			fresh(b)
			join(vc[b], vc[a])
			vc[a][a]++
			cl[b] = cl[a]
			c := tr.Calls[cl[a]-1]
			if mgm[c.C] <= 1 || c.N < 2*(c.Rec+1) {
				bad = true
			}
		case "chan":
			c := tr.Calls[cl[e.A[0]]-1]
			nchan[c.C]++
			if mgm[c.C] <= 1 || c.N < 2*(c.Rec+1) || nchan[c.C] > 1 {
				bad = true
			}
		case "use":
			c := cl[e.A[0]]
			if by[e.A[1]] > 0 && by[e.A[1]] != c {
				bad = true
			}
			if e.A[2] == 1 {
				by[e.A[1]] = c
			}
		case "rel":
			o := objs[e.A[1]]
			if o == nil {
				o = make([]int, ng)
				objs[e.A[1]] = o
			}
			join(o, vc[e.A[0]])
			vc[e.A[0]][e.A[0]]++
		case "acq":
			if o := objs[e.A[1]]; o != nil {
				join(vc[e.A[0]], o)
			}
		case "setmg":
			mg = e.A[0]
			for c := range mgm {
				if begun[c] && !retd[c] {
					mgm[c] = max(mgm[c], mg)
					mgl[c] = min(mgl[c], mg)
				}
			}
		case "begin":
			mgm[e.A[1]] = mg
			mgl[e.A[1]] = mg
			begun[e.A[1]] = true
		case "work":
			work[e.A[0]] = true
			w := 0
			for g, b := range work {
				if b && cl[g] == cl[e.A[0]] {
					w++
				}
			}
			if w > max(1, mgm[cl[e.A[0]]]) {
				bad = true
			}
			k := fmt.Sprint("mg", min(mgm[cl[e.A[0]]], 9))
			st.MaxWork[k] = max(st.MaxWork[k], w)
		case "idle":
			work[e.A[0]] = false
		case "seg":
			g := e.A[0]
			n := sg{g, vc[g][g], cl[g], map[int]int{}}
			c := tr.Calls[cl[g]-1]
			if retd[c.C] {
				bad = true
			}
			for i := 1; i < len(e.A); i += 2 {
				l := e.A[i]
				n.k[l] = e.A[i+1]
				if l > 0 && (l < c.Lo || l > c.Hi) {
					bad = true
				}
			}
			for _, o := range segs {
				if o.g == g || o.clk <= vc[g][o.g] {
					continue
				}
				for l, k := range n.k {
					ok := o.k[l]
					if ok != 0 && ((k&2 != 0 && ok != 0) || (ok&2 != 0 && k != 0)) {
						bad = true
					}
				}
			}
			segs = append(segs, n)
		case "ret":
			g, c := e.A[0], e.A[1]
			retd[c] = true
			depthN[c] = max(depthN[c], e.A[2])
			for _, o := range segs {
				if o.call == c && o.g != g && o.clk > vc[g][o.g] {
					bad = true
				}
			}
		case "exit":
			c := cl[e.A[0]]
			depthN[c] = max(depthN[c], e.A[1])
		case "stuck", "over", "panic", "raw", "setting":
			bad = true
		}
	}
	if *prop == "C18" {
		// see Sharing in the specification
		tou := map[int]map[int]bool{}
		for _, s := range segs {
			if tou[s.g] == nil {
				tou[s.g] = map[int]bool{}
			}
			for l := range s.k {
				if l > 0 {
					tou[s.g][l] = true
				}
			}
		}
		help := map[int]int{}
		for g, l := range tou {
			if c := cl[g]; g != root[c] && len(l) > 0 {
				help[c]++
				if 2*len(l) <= tr.Calls[c-1].Rec {
					bad = true
				}
			}
		}
		for _, c := range tr.Calls {
			if c.N >= 2*(c.Rec+1) && mgl[c.C] >= 2 && help[c.C] == 0 {
				bad = true
			}
		}
	}
	if *prop == "C21" {
		bad = bad || disobeyed(tr, evs)
	}
	if *prop == "C20" && tr.Acc > tr.Calls[0].N*(10*lg(tr.Calls[0].N)+60) {
		bad = true
	}
	for _, c := range tr.Calls {
		if depthN[c.C] > 3*(lg(c.N)+6) {
			bad = true
		}
		st.Rel = max(st.Rel, float64(depthN[c.C])/float64(lg(c.N)+6))
		k := fmt.Sprint(c.Ty)
		st.Depth[k] = max(st.Depth[k], depthN[c.C])
		if !retd[c.C] || c.OOB > 0 || !c.G || !c.B {
			bad = true
		}
		sn := make([]bool, c.N+1)
		if c.Iss {
			s := true
			for i := 1; i < c.N; i++ {
				if gen.Less(c.Key[i], c.Key[i-1], c.NaN) {
					s = false
				}
			}
			if !c.Same || s != (c.Ret == 0) || !s && !(c.Ret > 0 && c.Ret < c.N && gen.Less(c.Key[c.Ret], c.Key[c.Ret-1], c.NaN)) {
				bad = true
			}
			continue
		}
		for i, q := range c.Perm {
			if q < 1 || sn[q] || (i > 0 && c.Perm[i-1] > 0 && gen.Less(c.Key[q-1], c.Key[c.Perm[i-1]-1], c.NaN)) {
				bad = true
				break
			}
			sn[q] = true
		}
	}
	return
}

// disobeyed: see Obey in the specification
func disobeyed(tr *trace, evs []vrt.Ev) bool {
	ng := tr.NG + 1
	cl, born, last := make([]int, ng), make([]int, ng), make([]int, ng)
	var sp, sm []int
	bg := make([]int, len(tr.Calls)+1)
	for i, e := range evs {
		switch i++; e.K {
		case "root":
			cl[e.A[0]], born[e.A[0]] = e.A[1], i
		case "begin":
			bg[e.A[1]] = i
		case "spawn":
			cl[e.A[1]], born[e.A[1]], last[e.A[0]] = cl[e.A[0]], i, i
			sp = append(sp, i)
		case "seg":
			for j := 1; j < len(e.A); j += 2 {
				if e.A[j] > 0 && e.A[j+1]&3 != 0 {
					last[e.A[0]] = i
				}
			}
		case "setmg":
			sm = append(sm, i)
		}
	}
	busy := func(g, c, i int) bool { return cl[g] == c && born[g] <= i && last[g] > i }
	for _, s := range sp {
		c := cl[evs[s-1].A[0]]
		i := 0
		for _, x := range sm {
			if x < s {
				i = x
			}
		}
		if i == 0 || i <= bg[c] {
			continue
		}
		first := map[int]bool{}
		for _, x := range sp {
			if p := evs[x-1].A[0]; x > i && x <= s && cl[p] == c {
				first[p] = true
			}
		}
		b, both := 0, 0
		for g := range cl {
			if busy(g, c, s) {
				b++
				if busy(g, c, i) {
					both++
				}
			}
		}
		if b > max(1, evs[i-1].A[0], both)+len(first) {
			return true
		}
	}
	if c := tr.Calls[0]; len(tr.Calls) == 1 && c.Asc && tr.MG0 >= 2 && len(sm) == 1 && evs[sm[0]-1].A[0] >= c.N {
		seen, cnt := map[int]bool{}, make([]int, ng)
		for i := len(evs) - 1; i >= sm[0]; i-- {
			if e := evs[i]; e.K == "seg" {
				for j := 1; j < len(e.A); j += 2 {
					if l := e.A[j]; l > 0 && e.A[j+1]&3 != 0 && !seen[l] {
						seen[l] = true
						cnt[e.A[0]]++
					}
				}
			}
		}
		st.Kept = max(st.Kept, 100*slices.Max(cnt)/keptBound(c.N, c.Rec))
		if slices.Max(cnt) > keptBound(c.N, c.Rec) {
			return true
		}
	}
	if c := tr.Calls[0]; len(tr.Calls) == 1 && c.N >= 4*(c.Rec+1) && tr.MG0 >= 2 {
		since := 0
		if tr.MG0 < 3 {
			since = -1
		}
		for _, i := range sm {
			switch v := evs[i-1].A[0]; {
			case v < 2:
				return false
			case v < 3:
				since = -1
			case since < 0:
				since = evs[i-1].A[1]
			}
		}
		if since >= 0 && 2*since <= c.N {
			if len(sp) < 3 {
				return true
			}
			d := 0
			for i, e := range evs[:sp[2]-1] {
				if (e.K == "acq" || e.K == "rel") && e.A[0] == evs[sp[2]-1].A[0] {
					d = i + 1
				}
			}
			return d > last[1]
		}
	}
	return false
}

func keptBound(n, rec int) int { return 3 * (lg(n/rec) + 3) * (rec + 1) }

func lg(n int) (r int) {
	for ; n > 1; n /= 2 {
		r++
	}
	return
}

var _ = io.EOF
var _ = rand.Int
