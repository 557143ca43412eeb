package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"vh/gen"
)

var propTypes = map[string][]string{
	"C01": gen.Ints, "C02": gen.Floats, "C03": gen.Strs, "C04": gen.Lens, "C05": gen.Lsws,
	"C06": gen.Lsws, "C09": gen.Core, "C11": gen.Core, "C12": gen.Core, "C13": gen.Types, "C17": gen.Ptrs,
	"C10": {"int32", "int64", "uint32", "uint64", "float32", "float64", "string", "bytes", "lenS", "lenB", "lenI", "lenZ", "ptr", "uptr"},
}

// tune chooses thresholds
func tune(rng *rand.Rand) {
	if lib.SetLens == nil {
		return
	}
	switch rng.Intn(4) {
	case 0:
		lib.Tune(10, 9, 22, 21)
	case 1:
		lib.Tune(11+rng.Intn(10), 9+rng.Intn(2), 43+rng.Intn(20), 42)
	case 2:
		insfc := 9 + rng.Intn(30)
		ins := insfc + 1 + rng.Intn(30)
		recfc := 2*ins + 1 + rng.Intn(100)
		lib.Tune(ins, insfc, recfc+1+rng.Intn(100), recfc)
	default:
		lib.Tune(12, 10, 26, 25)
	}
}

// length chooses the number of elements
func length(ty string, rng *rand.Rand) int {
	ins, rec := lib.Ins, lib.Rec
	if gen.IsFC(ty) {
		ins, rec = lib.InsFC, lib.RecFC
	}
	near := func(x int) int {
		x += rng.Intn(7) - 3
		if x < 0 {
			x = 0
		}
		return x
	}
	switch r := rng.Intn(100); {
	case r < 8:
		return rng.Intn(9)
	case r < 16:
		return rng.Intn(ins + 8)
	case r < 26:
		return near(ins)
	case r < 34:
		return near(2 * ins)
	case r < 48:
		return near(rec)
	case r < 66:
		return near(2 * (rec + 1))
	case r < 80:
		return rng.Intn(3*rec + 10)
	case r < 92:
		return rng.Intn(8*rec + 10)
	case r < 99:
		return near(4*rec) + rng.Intn(8*rec)
	default:
		if lib.SetLens == nil && rng.Intn(16) == 0 { // beyond 16 bits
			if word == 64 && rng.Intn(4) == 0 {
				return 1<<20 - 100 + rng.Intn(1500000)
			}
			return 1<<16 - 100 + rng.Intn(200000)
		}
		return rng.Intn(60 * rec)
	}
}

// number of bits of an int
const word = 32 << (^uint(0) >> 63)

func maxGor(rng *rand.Rand) int {
	switch rng.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3, 4:
		return 2
	case 5, 6:
		return 3
	case 7:
		return 4
	case 8:
		return 5 + rng.Intn(10)
	}
	return 4096
}

type job struct {
	d       *gen.Data
	pat, mg int
	nan     int
	cs      int64
}

func newJob(ty string, rng *rand.Rand, cs int64) job {
	n := length(ty, rng)
	if lib.SetLens == nil && cs&0xffffffff == 2 { // once in each process
		n = 300000 + rng.Intn(100000)
		if word == 64 {
			n += 1 << 20
		}
	}
	pat := rng.Intn(gen.Patterns + 6)
	key := gen.Keys(n, pat, rng)
	nan := 1
	if ty == "float32" || ty == "float64" || ty == "Nfloat64" {
		nan = rng.Intn(3) - 1
		if nan != 0 && rng.Intn(3) > 0 {
			gen.WithNaNs(key, rng)
		}
	}
	return job{d: gen.New(ty, key, rng), pat: pat, nan: nan, cs: cs}
}

func lensOf() []int { return []int{lib.Ins, lib.InsFC, lib.Rec, lib.RecFC} }

// calls of the library, and when something happened last
var (
	inside   atomic.Int64
	happened atomic.Int64
)

func enter() { inside.Add(1); happened.Add(1) }
func leave() { inside.Add(-1); happened.Add(1) }

// watch ends the process if no call returns for a long time
func watch() {
	last := int64(0)
	for i := 0; ; i++ { // not by the clock, all processes could have been stopped for a while
		time.Sleep(time.Second)
		if h := happened.Load(); h != last || inside.Load() == 0 {
			last, i = h, 0
		} else if i > 40 {
			gen.Hang()
		}
	}
}

// protect calls f, returns text of a panic
func protect(f func()) (pan string) {
	enter()
	defer func() {
		leave()
		if x := recover(); x != nil {
			pan = fmt.Sprint(x)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	f()
	return
}

// sortJob sorts and records
func sortJob(j job) {
	d := j.d
	pan := protect(func() { d.Sort(lib) })
	r := &Rec{Op: "sort", Case: j.cs, Ty: d.Ty, Pat: j.pat, MG: j.mg, NaN: j.nan, Key: d.Key, Lens: lensOf(), Pan: pan}
	r.Perm = d.Perm()
	r.G, r.B, _ = d.Same()
	if d.Calls != nil {
		r.OOB = d.Calls()
	}
	good := goodSort(r)
	if d.N > 20000 {
		parts(r, good)
	}
	emit(r, !good)
	note(d, j)
}

// parts reduces the record of a long call to some positions: random ones, and if something looks
// wrong, those where it does
func parts(r *Rec, good bool) {
	n := len(r.Key)
	if len(r.Perm) != n {
		return
	}
	at := map[int]bool{}
	add := func(i int) {
		for j := max(0, i-2); j <= min(n-1, i+2); j++ {
			at[j] = true
		}
	}
	add(0)
	add(n - 1)
	rng := gen.Rng(r.Case)
	for i := 0; i < 100; i++ {
		add(rng.Intn(n))
	}
	if !good {
		where := make([]int, n+1)
		bad := 0
		for i, p := range r.Perm {
			switch {
			case bad > 20:
			case p < 1 || p > n:
				add(i)
				bad++
				continue
			case where[p] > 0:
				add(i)
				add(where[p] - 1)
				bad++
			case i > 0 && r.Perm[i-1] > 0 && gen.Less(r.Key[p-1], r.Key[r.Perm[i-1]-1], r.NaN):
				add(i)
				bad++
			}
			if p >= 1 && p <= n {
				where[p] = i + 1
			}
		}
	}
	r.Op, r.Len = "part", n
	r.At = make([]int, 0, len(at))
	for i := range at {
		r.At = append(r.At, i+1)
	}
	sort.Ints(r.At)
	perm, key := make([]int, len(r.At)), make([]int, len(r.At))
	for i, a := range r.At {
		perm[i] = r.Perm[a-1]
		if p := perm[i]; p >= 1 && p <= n {
			key[i] = r.Key[p-1]
		}
	}
	r.Perm, r.Key = perm, key
}

func note(d *gen.Data, j job) {
	outMu.Lock()
	elems += d.N
	types[d.Ty]++
	if d.N > maxLen {
		maxLen = d.N
	}
	rec := lib.Rec
	if gen.IsFC(d.Ty) {
		rec = lib.RecFC
	}
	switch {
	case d.N < 2:
		feats["trivial"]++
	case j.mg > 1 && d.N >= 2*(rec+1):
		feats["concurrent"]++
	case d.N > rec:
		feats["long"]++
	default:
		feats["short"]++
	}
	outMu.Unlock()
}

// goodSort only chooses what TLC sees first: verdicts are TLC's
func goodSort(r *Rec) bool {
	if r.Pan != "" || !r.G || !r.B || r.OOB != 0 || len(r.Perm) != len(r.Key) {
		return false
	}
	seen := make([]bool, len(r.Key)+1)
	for i, p := range r.Perm {
		if p < 1 || p >= len(seen) || seen[p] {
			return false
		}
		seen[p] = true
		if i > 0 && gen.Less(r.Key[p-1], r.Key[r.Perm[i-1]-1], r.NaN) {
			return false
		}
	}
	return true
}

func runCase(cs int64) {
	rng := rngFor(cs)
	if prop == "C19" {
		startCase(randomParams(rng), rng, cs)
		return
	}
	tune(rng)
	switch prop {
	case "C13":
		issCase(rng, cs)
		return
	case "C14":
		searchCase(rng, cs)
		return
	case "C15":
		acceptCases(rng, cs)
		return
	case "C16":
		heapCase(rng, cs)
		return
	case "C17":
		if lib.SetLens == nil && rng.Intn(10) == 0 {
			gcCase(rng, cs)
			return
		}
	case "C11":
		groupCase(rng, cs)
		return
	case "C12":
		liveCase(rng, cs)
		return
	}
	tys := propTypes[prop]
	j := newJob(tys[rng.Intn(len(tys))], rng, cs)
	j.mg = maxGor(rng)
	lib.SetMG(uint64(j.mg))
	lib.SetNaN(j.nan)
	if prop == "C06" { // IsSorted must not ask for swaps
		issJob(j)
		j.d.Hook = nil
	}
	sortJob(j)
}

// issJob records IsSorted of j
func issJob(j job) {
	d := j.d
	swaps := 0
	if d.Lsw != nil {
		d.Hook = func(i, k, r, s, phase int) {
			if phase == 0 && r != s {
				swaps++
			}
		}
	}
	r := &Rec{Op: "iss", Case: j.cs, Ty: d.Ty, Pat: j.pat, NaN: j.nan, Key: d.Key, Lens: lensOf()}
	r.Pan = protect(func() { r.Ret = d.Iss(lib) })
	r.G, r.B, r.Same = d.Same()
	r.Swaps = swaps
	if d.Calls != nil {
		r.OOB = d.Calls()
	}
	good := goodIss(r)
	if d.N > 20000 {
		issParts(r)
	}
	emit(r, !good)
	note(d, j)
}

func goodIss(r *Rec) bool {
	if r.Pan != "" || !r.G || !r.B || !r.Same || r.Swaps != 0 || r.OOB != 0 {
		return false
	}
	s := true
	for i := 1; i < len(r.Key); i++ {
		if gen.Less(r.Key[i], r.Key[i-1], r.NaN) {
			s = false
		}
	}
	if s {
		return r.Ret == 0
	}
	return r.Ret > 0 && r.Ret < len(r.Key) && gen.Less(r.Key[r.Ret], r.Key[r.Ret-1], r.NaN)
}

// issParts reduces the record to the place of the verdict, the first descents and some others
func issParts(r *Rec) {
	n := len(r.Key)
	at := map[int]bool{}
	add := func(i int) { // i and the one before
		if 0 < i && i < n {
			at[i], at[i-1] = true, true
		}
	}
	add(r.Ret)
	add(1)
	add(n - 1)
	rng := gen.Rng(r.Case)
	for i := 0; i < 20; i++ {
		add(1 + rng.Intn(n-1))
	}
	for i, m := 1, 0; i < n && m < 10; i++ {
		if gen.Less(r.Key[i], r.Key[i-1], r.NaN) {
			add(i)
			m++
		}
	}
	r.Op, r.Len = "isspart", n
	r.At = make([]int, 0, len(at))
	for i := range at {
		r.At = append(r.At, i+1)
	}
	sort.Ints(r.At)
	key := make([]int, len(r.At))
	for i, a := range r.At {
		key[i] = r.Key[a-1]
	}
	r.Key = key
}

func issCase(rng *rand.Rand, cs int64) {
	tys := propTypes[prop]
	ty := tys[rng.Intn(len(tys))]
	isF := ty == "float32" || ty == "float64" || ty == "Nfloat64"
	if rng.Intn(3) == 0 {
		ty = []string{"float32", "float64"}[rng.Intn(2)]
		isF = true
	}
	n := rng.Intn(12)
	switch rng.Intn(6) {
	case 0:
		n = rng.Intn(100)
	case 1:
		n = rng.Intn(1500)
		if rng.Intn(12) == 0 {
			n *= 20
			if rng.Intn(4) == 0 { // beyond 16 bits
				n = 1<<16 - 50 + rng.Intn(200000)
			}
		}
	}
	key := make([]int, n)
	x := 0
	m := []int{1, 2, 3, 10}[rng.Intn(4)]
	for i := range key { // sorted
		key[i] = x
		if rng.Intn(m) == 0 {
			x++
		}
	}
	nan := 1
	if isF {
		nan = rng.Intn(3) - 1
		if nan != 0 && n > 0 {
			c := rng.Intn(n + 1)
			switch rng.Intn(5) {
			case 0: // where they belong
				for i := 0; i < c; i++ {
					if nan < 0 {
						key[i] = gen.NaN
					} else {
						key[n-1-i] = gen.NaN
					}
				}
			case 1: // at the other end
				for i := 0; i < c; i++ {
					if nan > 0 {
						key[i] = gen.NaN
					} else {
						key[n-1-i] = gen.NaN
					}
				}
			case 2:
				gen.WithNaNs(key, rng)
			case 3: // belong, and some more
				for i := 0; i < c; i++ {
					if nan < 0 {
						key[i] = gen.NaN
					} else {
						key[n-1-i] = gen.NaN
					}
				}
				key[rng.Intn(n)] = gen.NaN
			}
		}
	}
	if n > 1 {
		switch rng.Intn(8) {
		case 0: // swap neighbours
			i := rng.Intn(n - 1)
			key[i], key[i+1] = key[i+1], key[i]
		case 1: // first or last pair
			key[0], key[1] = key[1], key[0]
		case 2:
			key[n-1], key[n-2] = key[n-2], key[n-1]
		case 3:
			i, k := rng.Intn(n), rng.Intn(n)
			key[i], key[k] = key[k], key[i]
		case 4:
			rng.Shuffle(n, func(i, k int) { key[i], key[k] = key[k], key[i] })
		}
	}
	lib.SetNaN(nan)
	lib.SetMG(3)
	issJob(job{d: gen.New(ty, key, rng), nan: nan, cs: cs})
}

// groupCase sorts several inputs at the same time
func groupCase(rng *rand.Rand, cs int64) {
	mg := maxGor(rng)
	nan := rng.Intn(2)*2 - 1
	lib.SetMG(uint64(mg))
	lib.SetNaN(nan)
	var wg sync.WaitGroup
	g := 2 + rng.Intn(5)
	crowd := rng.Intn(10) == 0
	if crowd {
		g = 30 + rng.Intn(150)
	}
	same := rng.Intn(2) == 0
	switch rng.Intn(5) {
	case 0:
		panicCase(rng)
		mg = min(mg, 2)
		lib.SetMG(uint64(mg))
		lib.SetNaN(nan)
	case 1:
		nestedCase(rng, cs, mg, nan)
		return
	}
	ty := gen.Core[rng.Intn(len(gen.Core))]
	start := make(chan int)
	for i := 0; i < g; i++ {
		if !same {
			ty = gen.Core[rng.Intn(len(gen.Core))]
		}
		most := 1 << 30
		if crowd {
			most = 5000
		}
		j := groupJob(ty, rng, cs, mg, nan, most)
		sr := rng.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			sortJob(j)
			r := gen.Rng(sr)
			n := r.Intn(100)
			k := r.Intn(n + 1)
			recordSearch(cs, uint64(n), uint64(k))
		}()
	}
	close(start)
	wg.Wait()
}

// groupJob is for calls with the same parameters
func groupJob(ty string, rng *rand.Rand, cs int64, mg, nan, most int) job {
	j := newJob(ty, rng, cs)
	for j.nan == 0 || j.d.N > most {
		j = newJob(ty, rng, 0)
	}
	j.cs = cs
	if j.nan != nan { // NaNs only matter to floats
		for i, k := range j.d.Key {
			if k == gen.NaN {
				j.d.Key[i] = 0
			}
		}
		j.d = gen.New(ty, j.d.Key, rng)
		j.nan = nan
	}
	j.mg = mg
	return j
}

// nestedCase calls the library in a lesswap and in the predicate of a search
func nestedCase(rng *rand.Rand, cs int64, mg, nan int) {
	inner := make(chan job, 6)
	for i := cap(inner); i > 0; i-- {
		ty := gen.Core[rng.Intn(len(gen.Core))]
		j := groupJob(ty, rng, cs, mg, nan, 3000)
		inner <- j
	}
	next := func() {
		select {
		case j := <-inner:
			sortJob(j)
			j.d.Hook = nil
			recordSearch(cs, uint64(j.d.N), uint64(j.d.N/3))
		default:
		}
	}
	gap := int64(1 + rng.Intn(3000))
	var count atomic.Int64
	outer := groupJob("lsw", rng, cs, mg, nan, 1<<30)
	outer.d.Hook = func(i, k, r, s, phase int) {
		if phase == 0 && count.Add(1)%gap == 0 {
			next()
		}
	}
	sortJob(outer)
	outer.d.Hook = nil
	n := 1 + rng.Intn(100)
	k := rng.Intn(n + 1)
	got := 0
	pan := protect(func() {
		got = lib.Search(n, func(i int) bool {
			next()
			return i >= k
		})
	})
	r := &Rec{Op: "search", Case: cs, N: limbs(uint64(n)), K: limbs(uint64(k)), Pan: pan, Neg: got < 0}
	r.R = limbs(uint64(max(got, 0)))
	emit(r, got != k || pan != "")
}

// panicCase ends some calls by a panic of the user's function; those to come must not notice.
// On the calling goroutine only, or nothing could recover.
func panicCase(rng *rand.Rand) {
	lib.SetMG(uint64(rng.Intn(2)))
	for i := 1 + rng.Intn(4); i > 0; i-- {
		ty := gen.Lsws[rng.Intn(len(gen.Lsws))]
		d := gen.New(ty, gen.Keys(length(ty, rng), rng.Intn(gen.Patterns), rng), rng)
		left := 1 + rng.Intn(20*d.N+20)
		if rng.Intn(3) == 0 {
			left = 1 + rng.Intn(20)
		}
		d.Hook = func(i, k, r, s, phase int) {
			if left--; left <= 0 {
				panic("user")
			}
		}
		switch rng.Intn(4) {
		case 0:
			protect(func() { d.Iss(lib) })
		case 1:
			protect(func() {
				lib.Search(d.N, func(i int) bool {
					if left -= d.N/10 + 1; left <= 0 {
						panic("user")
					}
					return false
				})
			})
		default:
			protect(func() { d.Sort(lib) })
		}
	}
}

// liveCase changes MaxGor all the time
func liveCase(rng *rand.Rand, cs int64) {
	j := newJob(gen.Core[rng.Intn(len(gen.Core))], rng, cs)
	if j.nan == 0 {
		j.nan = 1
	}
	lib.SetNaN(j.nan)
	vals := []uint64{0, 1, 2, 3, 4, 8, 1 << 40, 1<<64 - 1}
	lib.SetMG(vals[rng.Intn(len(vals))])
	j.mg = -1
	var stop atomic.Bool
	done := make(chan int)
	sr := rng.Int63()
	go func() {
		r := gen.Rng(sr)
		for !stop.Load() {
			lib.SetMG(vals[r.Intn(len(vals))])
			for i := r.Intn(2000); i > 0; i-- {
				_ = i
			}
			if r.Intn(10) == 0 {
				runtime.Gosched()
			}
		}
		close(done)
	}()
	sortJob(j)
	stop.Store(true)
	<-done
}

func limbs(x uint64) []int {
	l := make([]int, 5)
	for i := range l {
		l[i] = int(x & 0x7fff)
		x >>= 15
	}
	return l
}

func recordSearch(cs int64, n, k uint64) {
	r := &Rec{Op: "search", Case: cs, N: limbs(n), K: limbs(k)}
	ret := 0
	r.Pan = protect(func() {
		ret = lib.Search(int(n), func(i int) bool {
			r.Calls++
			if r.Calls > 100000 {
				panic("too many calls")
			}
			if i < 0 || i >= int(n) {
				r.OOB++
			}
			return i >= int(k)
		})
	})
	if ret < 0 {
		r.Neg = true
		ret = 0
	}
	r.R = limbs(uint64(ret))
	emit(r, r.Neg || uint64(ret) != k || r.OOB != 0 || r.Pan != "" || r.Calls > 4*(bits.Len64(n)+2))
}

func searchCase(rng *rand.Rand, cs int64) {
	const max = uint64(^uint(0) >> 1) // of int
	if cs&0xffffffff == 1 {           // everything small
		for n := uint64(0); n <= 70; n++ {
			for k := uint64(0); k <= n; k++ {
				recordSearch(cs, n, k)
				types["search"]++
			}
		}
		for b := uint(3); b < 64; b++ {
			for _, n := range []uint64{1<<b - 2, 1<<b - 1, 1 << b, 1<<b + 1, 1<<b + 1<<(b-1)} {
				if n > max {
					continue
				}
				for _, k := range []uint64{0, 1, 2, n / 4, n/2 - 1, n / 2, n/2 + 1, n - n/4, n - 2, n - 1, n} {
					recordSearch(cs, n, k)
					types["search"]++
				}
			}
		}
		return
	}
	n := (rng.Uint64() & max) >> uint(rng.Intn(63))
	if rng.Intn(4) == 0 {
		n = max - n%1000
	}
	k := n
	if n > 0 {
		switch rng.Intn(4) {
		case 0:
			k = rng.Uint64() % (n + 1)
		case 1:
			k = (rng.Uint64() >> uint(rng.Intn(64))) % (n + 1)
		case 2:
			k = n - (rng.Uint64()>>uint(rng.Intn(64)))%(n+1)
		default:
			k = (n/2 + uint64(rng.Intn(5))) % (n + 1)
		}
	}
	types["search"]++
	elems++
	recordSearch(cs, n, k)
}

// heapCase measures what sorting allocates
func heapCase(rng *rand.Rand, cs int64) {
	ty := gen.Core[rng.Intn(len(gen.Core))]
	n := []int{1000, 5000, 30000, 200000}[rng.Intn(4)]
	mg := []int{0, 1, 1, 2, 3, 8}[rng.Intn(6)]
	key := gen.Keys(n, []int{1, 1, 1, 3, 6, 7}[rng.Intn(6)], rng)
	nan := 1
	best := -1
	lib.SetMG(uint64(mg))
	lib.SetNaN(nan)
	var m0, m1 runtime.MemStats
	for t := 0; t < 3; t++ {
		d := gen.New(ty, key, rng)
		runtime.ReadMemStats(&m0)
		pan := protect(func() { d.Sort(lib) })
		runtime.ReadMemStats(&m1)
		if pan != "" {
			emit(&Rec{Op: "heap", Case: cs, Ty: ty, MG: mg, Len: n, Pan: pan}, true)
			return
		}
		b := int(m1.TotalAlloc - m0.TotalAlloc)
		if best < 0 || b < best {
			best = b
		}
	}
	elems += n
	types[ty]++
	emit(&Rec{Op: "heap", Case: cs, Ty: ty, MG: mg, Len: n, Bytes: best, Lens: lensOf()}, best > 32768)
}

type node struct {
	token uint64
	next  *node
	pad   [4]uint64
}

// gcCase sorts pointers while garbage is being collected, objects are only reachable through the slice
func gcCase(rng *rand.Rand, cs int64) {
	var stop atomic.Bool
	done := make(chan int)
	go func() {
		for !stop.Load() {
			runtime.GC()
		}
		close(done)
	}()
	mg := 1 + rng.Intn(4)
	lib.SetMG(uint64(mg))
	n := 500 + rng.Intn(20000)
	if rng.Intn(3) == 0 {
		n = 2 + rng.Intn(400)
	}
	bad := 0
	end := time.Now().Add(400 * time.Millisecond)
	for rounds := 0; time.Now().Before(end); rounds++ {
		un := rng.Intn(2) == 0
		ps := make([]*node, n)
		us := make([]unsafePtr, n)
		p := rng.Perm(n)
		for _, i := range p {
			v := &node{token: uint64(i)*2654435761 + 7}
			v.next = &node{token: uint64(i)}
			if un {
				us[i] = unsafePtr(v)
			} else {
				ps[i] = v
			}
		}
		pan := protect(func() {
			if un {
				lib.SortSlice(us)
			} else {
				lib.SortSlice(ps)
			}
		})
		r := &Rec{Op: "sort", Case: cs, Ty: "gc", MG: mg, NaN: 1, Pan: pan, G: true, B: true, Lens: lensOf()}
		// junk that takes the place of lost objects
		junk := make([]*node, 200)
		for i := range junk {
			junk[i] = &node{token: ^uint64(0)}
		}
		seen := make([]bool, n)
		for i := 0; i < n; i++ {
			v := ps[i]
			if un {
				v = (*node)(us[i])
			}
			ok := v != nil && v.next != nil && v.next.token < uint64(n) && v.token == v.next.token*2654435761+7 && !seen[v.next.token]
			if ok {
				seen[v.next.token] = true
			} else {
				r.B = false
			}
			if i > 0 {
				w := ps[i-1]
				if un {
					w = (*node)(us[i-1])
				}
				if uintptr(unsafePtr(v)) < uintptr(unsafePtr(w)) {
					bad++
				}
			}
		}
		runtime.KeepAlive(junk)
		r.Key = []int{0, 1}
		r.Perm = []int{1, 2}
		if bad > 0 {
			r.Perm = []int{2, 1}
		}
		outMu.Lock()
		elems += n
		types["gc"]++
		feats["gc rounds"]++
		outMu.Unlock()
		emit(r, !r.B || bad > 0 || pan != "")
	}
	stop.Store(true)
	<-done
}
