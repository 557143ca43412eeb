package gen

import "math/rand"

// samplePos returns where n equidistant samples of slen elements are
func samplePos(slen, n int) []int {
	if slen < 2*n {
		return nil
	}
	step := slen / n
	n1 := n - 1
	span := n1 * step
	tail := slen - span
	if tail > n1 && tail>>1 > (step+1)>>1 {
		step++
		span += n1
		tail -= n1
	}
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, tail>>1+i*step)
	}
	return p
}

// Patterns is the number of patterns of Keys
const Patterns = 26

// Keys returns n ranks of the given pattern
func Keys(n, pattern int, rng *rand.Rand) []int {
	k := make([]int, n)
	if n == 0 {
		return k
	}
	few := func(m int) {
		for i := range k {
			k[i] = rng.Intn(m)
		}
	}
	switch pattern {
	default: // distinct, random
		copy(k, rng.Perm(n))
	case 2:
		few(2)
	case 3:
		few(3)
	case 4:
		few(5)
	case 5:
		m := 2
		for m*m < n {
			m++
		}
		few(m)
	case 6: // sorted
		for i := range k {
			k[i] = i
		}
	case 7: // reversed
		for i := range k {
			k[i] = n - 1 - i
		}
	case 8: // all equal
	case 9: // organ pipe
		for i := range k {
			k[i] = i
			if i > n/2 {
				k[i] = n - i
			}
		}
	case 10: // valley
		for i := range k {
			k[i] = n/2 - i
			if i > n/2 {
				k[i] = i - n/2
			}
		}
	case 11: // saw teeth
		p := 1 + rng.Intn(n)
		for i := range k {
			k[i] = i % p
		}
	case 12: // sorted with some swaps
		for i := range k {
			k[i] = i
		}
		for j := 1 + rng.Intn(4); j > 0; j-- {
			a, b := rng.Intn(n), rng.Intn(n)
			k[a], k[b] = k[b], k[a]
		}
	case 13: // reversed with some swaps
		for i := range k {
			k[i] = n - 1 - i
		}
		for j := 1 + rng.Intn(4); j > 0; j-- {
			a, b := rng.Intn(n), rng.Intn(n)
			k[a], k[b] = k[b], k[a]
		}
	case 14: // sorted head, random tail
		p := rng.Perm(n)
		c := rng.Intn(n + 1)
		for i := range k {
			k[i] = p[i]
			if i < c {
				k[i] = i
			}
		}
	case 15: // low half at the top, each half sorted or random
		for i := range k {
			k[i] = (i + n/2) % n
		}
		if rng.Intn(2) == 0 {
			rng.Shuffle(n/2, func(i, j int) { k[i], k[j] = k[j], k[i] })
		}
	case 16, 17, 18: // zones around a middle rank
		zones(k, rng)
	case 19, 20: // chosen position of first pivot
		split(k, rng)
	case 21: // interleaved
		for i := range k {
			k[i] = i / 2
			if i%2 > 0 {
				k[i] = n - 1 - i/2
			}
		}
	case 22: // one odd element
		o := rng.Intn(n)
		for i := range k {
			k[i] = 1
		}
		k[o] = 2 * rng.Intn(2)
	case 23: // two values, one boundary
		c := rng.Intn(n + 1)
		r := rng.Intn(2)
		for i := range k {
			k[i] = r
			if i < c {
				k[i] = 1 - r
			}
		}
	case 24: // rotated
		c := rng.Intn(n)
		for i := range k {
			k[i] = (i + c) % n
		}
	case 25: // mostly one value
		for i := range k {
			k[i] = 5
			if rng.Intn(10) == 0 {
				k[i] = rng.Intn(11)
			}
		}
	}
	return k
}

// zones fills quarters with lower, equal or higher ranks than the likely pivot
func zones(k []int, rng *rand.Rand) {
	n := len(k)
	fill := func(lo, hi int) {
		switch t := rng.Intn(9); t {
		case 0, 1, 2: // one kind
			for i := lo; i < hi; i++ {
				k[i] = t
			}
		case 3: // low high alternating
			for i := lo; i < hi; i++ {
				k[i] = 2 * (i & 1)
			}
		case 4:
			for i := lo; i < hi; i++ {
				k[i] = rng.Intn(3)
			}
		case 5:
			for i := lo; i < hi; i++ {
				k[i] = 2 * rng.Intn(2)
			}
		case 6: // sorted in itself
			a, b := lo+rng.Intn(hi-lo+1), lo+rng.Intn(hi-lo+1)
			for i := lo; i < hi; i++ {
				k[i] = 0
				if i >= a {
					k[i]++
				}
				if i >= b {
					k[i]++
				}
			}
		case 7: // one odd element
			t := rng.Intn(3)
			for i := lo; i < hi; i++ {
				k[i] = t
			}
			if hi > lo {
				k[lo+rng.Intn(hi-lo)] = rng.Intn(3)
			}
		case 8: // ends differ
			t, u := rng.Intn(3), rng.Intn(3)
			for i := lo; i < hi; i++ {
				k[i] = t
			}
			for j := rng.Intn(3); j >= 0; j-- {
				if lo+j < hi {
					k[lo+j] = u
				}
				if hi-1-j >= lo {
					k[hi-1-j] = rng.Intn(3)
				}
			}
		}
	}
	b := []int{0, n / 4, n / 2, n - n/4, n}
	for z := 0; z < 4; z++ {
		fill(b[z], b[z+1])
	}
	// make sure that the pivot is the middle rank
	for _, ns := range []int{3, 4, 5, 6, 7, 8} {
		if rng.Intn(3) > 0 {
			for _, p := range samplePos(n, ns) {
				if p < n && rng.Intn(8) > 0 {
					k[p] = 1
				}
			}
		}
	}
	if rng.Intn(2) == 0 { // make ranks distinct within each class
		spread(k, 3, rng)
	}
}

// spread turns m classes into distinct ranks, keeping the order of classes
func spread(k []int, m int, rng *rand.Rand) {
	idx := make([][]int, m)
	for i, x := range k {
		idx[x] = append(idx[x], i)
	}
	r := 0
	for _, l := range idx {
		if rng.Intn(3) > 0 {
			rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		for _, i := range l {
			k[i] = r
			r++
		}
	}
}

// split chooses the rank of the first pivot
func split(k []int, rng *rand.Rand) {
	n := len(k)
	ns := 3 + rng.Intn(6)
	pos := samplePos(n, ns)
	copy(k, rng.Perm(n))
	if pos == nil {
		return
	}
	want := []int{ns, ns + 1, 9, 10, 11, 20, 21, 22, 23, 30, 31, 45, 46, 60, 61, n / 4, n / 3, n / 2, 300, 301, 600, 601}
	t := want[rng.Intn(len(want))]
	if rng.Intn(2) == 0 {
		t = n - t
	}
	if t < ns/2 || t+ns > n {
		return
	}
	at := make([]int, n) // rank -> position
	for i, x := range k {
		at[x] = i
	}
	lo := ns / 2
	if ns%2 == 0 && rng.Intn(2) == 0 {
		lo--
	}
	for j, p := range pos {
		r := t - lo + j // ranks t-lo..t-lo+ns-1 for samples
		if r < 0 || r >= n || p >= n {
			return
		}
		o := at[r]
		k[o], k[p] = k[p], k[o]
		at[k[o]], at[k[p]] = o, p
	}
}

// WithNaNs replaces some ranks by NaN
func WithNaNs(k []int, rng *rand.Rand) {
	n := len(k)
	if n == 0 {
		return
	}
	switch rng.Intn(9) {
	case 0: // none
	case 1: // all
		for i := range k {
			k[i] = NaN
		}
	case 2: // all but one
		o := rng.Intn(n)
		for i := range k {
			if i != o {
				k[i] = NaN
			}
		}
	case 3: // one
		k[rng.Intn(n)] = NaN
	case 4: // block at the start
		for i := rng.Intn(n + 1); i > 0; i-- {
			k[i-1] = NaN
		}
	case 5: // block at the end
		for i := rng.Intn(n + 1); i > 0; i-- {
			k[n-i] = NaN
		}
	case 6: // half
		for i := range k {
			if rng.Intn(2) == 0 {
				k[i] = NaN
			}
		}
	case 7: // alternating
		for i := rng.Intn(2); i < n; i += 2 {
			k[i] = NaN
		}
	default: // few
		for i := range k {
			if rng.Intn(10) == 0 {
				k[i] = NaN
			}
		}
	}
}

// Less is the order of ranks under a NaN option, for screening only
func Less(a, b, nan int) bool {
	switch {
	case nan > 0 && (a == NaN || b == NaN):
		return a != NaN
	case nan < 0 && (a == NaN || b == NaN):
		return b != NaN && a == NaN
	}
	return a < b
}
