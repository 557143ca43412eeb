package gen

import "sort"

// Adversary returns a collection for Sort whose order is decided while it is sorted, such that
// parts are as uneven as can be, with side elements in the smaller part. It works against any way
// of choosing pivots: an element that is not decided yet is greater than all that are, except for
// those that are made less than what looks like a pivot. d.Key is known when the call is over.
func Adversary(n, side int, mirror bool) *Data {
	const gap = 1 << 20
	key := make([]int, n)
	d := mk("lsw", key, func(r, p int) lswItem { return lswItem{p, p} }, func(i int) lswItem { return lswItem{i, -i} },
		func(v lswItem) lswItem { return v })
	s := d.Arg.([]lswItem)
	val := make([]int, n) // 0: not decided
	low := make([]int, n) // is greater than this
	step, piv, below := 1, -1, 0
	decide := func(x, y int) bool {
		if val[x] == 0 && val[y] == 0 {
			step++
			val[x] = step*gap + gap - 1
		} else if val[x] == 0 || val[y] == 0 {
			p, q := x, y
			if val[x] == 0 {
				p, q = y, x
			}
			if val[p]%gap == gap-1 {
				if p != piv {
					piv, below = p, 0
				}
				if v := val[p] - gap + 2 + below; below < side && low[q] < v {
					val[q] = v
					below++
				}
			}
		}
		if val[x] == 0 && low[x] < val[y] {
			low[x] = val[y]
		}
		if val[y] == 0 && low[y] < val[x] {
			low[y] = val[x]
		}
		return val[y] == 0 || val[x] != 0 && val[x] < val[y]
	}
	less := func(i, k int) bool {
		if i == k {
			return false
		}
		if mirror {
			i, k = k, i
		}
		return decide(s[i].key, s[k].key)
	}
	lswOf(d, less, func(i, k int) { s[i], s[k] = s[k], s[i] })
	perm := d.Perm
	d.Perm = func() []int {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		v := func(x int) int {
			if val[x] == 0 {
				return int(^uint(0) >> 2)
			}
			return val[x]
		}
		sort.SliceStable(o, func(a, b int) bool { return v(o[a]) < v(o[b]) })
		r := 0
		for i, x := range o {
			if i > 0 && v(x) > v(o[i-1]) {
				r++
			}
			key[x] = r
			if mirror {
				key[x] = n - r
			}
		}
		return perm()
	}
	return d
}
