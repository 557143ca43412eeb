package sched

import (
	"math/rand"
	"sort"
	"testing"

	"vh/gen"
	"vh/vrt"
)

// Inputs for which partitions are as uneven as wanted. They are made by simulating sampling and
// partitioning as they are in sorty: of each range, the samples and some more elements are given
// the lowest (or highest) values that are still free, which moves just them to one side.
// Only the strength of the check depends on how close the simulation is to the code.

type killer struct {
	val    []int // by original position, 0: not decided
	at     []int // original position of what is at a position now
	lw, hg int   // next low and high value
	lsw    bool
	odd    bool // odd number of samples, pivot is the middle one
	rng    *rand.Rand
}

func minMaxSample(n, s int) (first, step, last int) {
	step = n / s
	s--
	span := s * step
	tail := n - span
	if tail > s && tail>>1 > (step+1)>>1 {
		step++
		span += s
		tail -= s
	}
	first = tail >> 1
	return first, step, first + span
}

func minMaxFour(n int) (first, step int) {
	ff := []int{0, 0, -1, 0, 0, 1, 1, 0}
	sf := []int{0, 0, 1, 1, 0, 0, 0, 1}
	return n>>3 + ff[n&7], n>>2 + sf[n&7]
}

func (k *killer) v(i int) int { return k.val[k.at[i]] }
func (k *killer) swap(i, j int) {
	k.at[i], k.at[j] = k.at[j], k.at[i]
}

// one level on [lo,hi) with ns samples and a side of s elements, returns the split position
func (k *killer) level(lo, hi, ns, s int, high, four bool) int {
	n := hi - lo
	first, step, _ := minMaxSample(n, ns)
	if four {
		first, step = minMaxFour(n)
	}
	need := ns / 2
	if k.odd {
		need++
	}
	mine := func(i int) bool { return high && k.v(i) > 0 || !high && k.v(i) < 0 }
	have, total := 0, 0
	for i := lo; i < hi; i++ {
		if mine(i) {
			total++
		}
	}
	var free []int
	pos := make([]int, ns)
	for j := range pos {
		p := lo + first + j*step
		pos[j] = p
		if mine(p) {
			have++
		} else if k.v(p) == 0 {
			free = append(free, p)
		}
	}
	var low []int
	for _, p := range free {
		if have < need {
			low = append(low, p)
			have++
			total++
		}
	}
	isS := map[int]bool{}
	for _, p := range pos {
		isS[p] = true
	}
	assign := func(p int) {
		if high {
			k.val[k.at[p]] = k.hg
			k.hg -= 4
		} else {
			k.val[k.at[p]] = k.lw
			k.lw += 4
		}
	}
	for t := 0; total < s && t < 4*n; t++ {
		p := lo + k.rng.Intn(n)
		if k.v(p) == 0 && !isS[p] {
			assign(p)
			total++
		}
	}
	for _, p := range low {
		assign(p)
	}
	if !k.odd { // the other middle sample, must be next
		for _, p := range pos {
			if k.v(p) == 0 {
				assign(p)
				break
			}
		}
	}
	if k.lsw {
		return k.partLsw(lo, hi, pos)
	}
	var sv []int
	for _, p := range pos {
		sv = append(sv, k.v(p))
	}
	sort.Ints(sv)
	pv := sv[ns/2]
	if !k.odd {
		pv = (sv[ns/2-1] + sv[ns/2]) >> 1
	}
	return k.partOne(lo, hi, pv)
}

func (k *killer) partOne(lo, hi, pv int) int {
	l, h := lo, hi-1
	for l < h {
		if pv <= k.v(h) {
			if pv < k.v(l) {
				for {
					h--
					if h <= l {
						return l
					}
					if k.v(h) <= pv {
						break
					}
				}
				k.swap(l, h)
			}
		} else {
			for pv > k.v(l) {
				l++
				if h <= l {
					return l + 1
				}
			}
			k.swap(l, h)
		}
		l++
		h--
	}
	if l == h && k.v(h) < pv {
		l++
	}
	return l
}

func (k *killer) partLsw(lo, hi int, pos []int) int {
	var o []int
	for _, p := range pos {
		o = append(o, k.at[p])
	}
	sort.SliceStable(o, func(i, j int) bool { return k.val[o[i]] < k.val[o[j]] })
	for j, p := range pos {
		k.at[p] = o[j]
	}
	hi--
	k.swap(pos[0], lo)
	k.swap(hi, pos[len(pos)-1])
	pv := pos[len(pos)/2]
	less := func(a, b int) bool { return k.v(a) < k.v(b) }
	l, h := lo+1, hi-1
	for ; l < h; l, h = l+1, h-1 {
		if less(h, pv) {
			for !less(pv, l) {
				l++
				if l >= h {
					return l + 1
				}
			}
			k.swap(h, l)
		} else if less(pv, l) {
			for {
				h--
				if l >= h {
					return l
				}
				if less(h, pv) {
					k.swap(h, l)
					break
				}
			}
		}
	}
	if l == h && h != pv && less(h, pv) {
		l++
	}
	return l
}

// killerKeys returns ranks of n elements. side: 0 smallest possible sides, 1 just more than ins,
// 2 just more than rec (as long as possible), 3 any of these
func killerKeys(ty string, n, ins, rec, side, dir int, rng *rand.Rand) []int {
	k := &killer{val: make([]int, n), at: make([]int, n), lw: -1 << 40, hg: 1 << 40, rng: rng}
	for i := range k.at {
		k.at[i] = i
	}
	switch ty {
	case "string", "bytes", "float32", "float64":
		k.odd = true
	case "lsw", "lswDesc", "lswStruct", "ptr", "uptr":
		k.odd, k.lsw = true, true
	}
	lo, hi := 0, n
	for hi-lo > ins {
		ns, four := 6, false
		if hi-lo <= rec {
			ns, four = 4, true
		}
		if k.odd {
			ns--
			four = false
		}
		s := 0
		x := side
		if x == 3 {
			x = rng.Intn(3)
		}
		switch x {
		case 1:
			s = ins + 1
		case 2:
			s = ins + 1
			if hi-lo > 2*rec+2 {
				s = rec + 1
			}
		}
		if k.lsw && s > 0 { // the pivot may go to the other side
			s++
		}
		d := dir == 1
		if dir == 2 {
			d = rng.Intn(2) == 0
		}
		m := k.level(lo, hi, ns, s, d, four)
		if m <= lo || m >= hi {
			break
		}
		if m-lo < hi-m {
			lo = m
		} else {
			hi = m
		}
	}
	var free []int
	for i, v := range k.val {
		if v == 0 {
			free = append(free, i)
		}
	}
	for j, i := range rng.Perm(len(free)) {
		k.val[free[i]] = j + 1 - len(free)/2
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return k.val[idx[a]] < k.val[idx[b]] })
	key := make([]int, n)
	for r, i := range idx {
		key[i] = r + 1
	}
	return key
}

func killerCase(t *testing.T, p *plan, ty string, rng *rand.Rand) {
	p.lib = lt
	switch rng.Intn(6) {
	case 0: // all in short ranges
		lt.Tune(10, 9, 2600, 2590)
	case 1:
		tune(rng)
	default:
		lt.Tune(10, 9, 22, 21)
	}
	n := 100 + rng.Intn(2400)
	if rng.Intn(6) == 0 {
		p.lib = lc
		n = 1000 + rng.Intn(4000)
	}
	ins, rec := p.lib.Ins, p.lib.Rec
	if gen.IsFC(ty) {
		ins, rec = p.lib.InsFC, p.lib.RecFC
	}
	side := rng.Intn(4)
	if side == 0 && rng.Intn(2) == 0 {
		side = 1 + rng.Intn(2)
	}
	var key []int
	if rng.Intn(10) == 0 {
		key = gen.Keys(n, rng.Intn(gen.Patterns+14), rng)
	} else {
		key = killerKeys(ty, n, ins, rec, side, rng.Intn(3), rng)
	}
	p.jobs = []*gen.Data{gen.New(ty, key, rng)}
	if (ty == "lsw" || ty == "ptr") && rng.Intn(2) == 0 {
		s := []int{0, ins + 2, rec + 2, rec + 2, 2*rec + 2}[rng.Intn(5)]
		p.jobs[0] = gen.Adversary(n, s, rng.Intn(2) == 0)
	}
	p.mg = uint64(rng.Intn(2))
	p.cfg = vrt.Config{Seed: rng.Int63(), Strategy: "solo", Switch: 200}
	if rng.Intn(5) == 0 {
		p.mg = uint64(2 + rng.Intn(3))
		p.cfg.Strategy = []string{"random", "sync"}[rng.Intn(2)]
	}
	run(t, p)
}
