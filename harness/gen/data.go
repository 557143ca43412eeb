// Package gen makes inputs for sorty from ranks: every element is made for a rank, ranks decide
// the order, and every element can be recognised afterwards.
package gen

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Lib is one build of sorty
type Lib struct {
	Name          string
	SortSlice     func(any)
	SortLen       func(any)
	Sort          func(int, func(i, k, r, s int) bool)
	IsSortedSlice func(any) int
	IsSortedLen   func(any) int
	IsSorted      func(int, func(i, k, r, s int) bool) int
	Search        func(int, func(int) bool) int
	SetMG         func(uint64)
	SetNaN        func(int)
	SetLens       func(ins, insfc, rec, recfc int) // nil if constant
	Ins, InsFC    int
	Rec, RecFC    int
}

// Tune sets the thresholds, if they can be set
func (l *Lib) Tune(ins, insfc, rec, recfc int) {
	if l.SetLens != nil {
		l.SetLens(ins, insfc, rec, recfc)
		l.Ins, l.InsFC, l.Rec, l.RecFC = ins, insfc, rec, recfc
	}
}

// NaN is the rank of NaNs
const NaN = -1

const pad = 4 // guard elements at both ends

// Data is one input
type Data struct {
	Ty    string
	N     int
	Key   []int
	Mem   unsafe.Pointer // all elements including Pad guards at both ends
	Pad   int
	Size  uintptr
	Arg   any                             // what is passed, if it is passed
	Lsw   func(i, k, r, s int) bool       // or the lesswap function
	Sort  func(l *Lib)                    // sorts
	Iss   func(l *Lib) int                // checks
	Perm  func() []int                    // 1-based input position of each element, 0 if it is none
	Same  func() (guard, body, same bool) // guards intact, contents intact, elements not moved
	Calls func() (bad int)                // lesswap calls with indices out of range
	Hook  func(i, k, r, s int, phase int) // lsw: called at phase 0 before, 1 after it is true
	Whole *Data                           // this is a part of
	Off   int                             // beginning there

	byLen bool
	less  func(i, k int) bool
	swap  func(i, k int)
}

// Types lists all kinds of input
var Types = []string{"int", "int32", "int64", "uint", "uint32", "uint64", "uintptr", "float32", "float64",
	"string", "bytes", "ptr", "uptr", "lenS", "lenB", "lenI", "lenZ", "lsw", "lswDesc", "lswStruct",
	"Nint", "Nint32", "Nuint64", "Nfloat64", "Nstring", "Nbytes", "NlenS", "NlenB", "Nptr"}

// By property
var (
	Ints   = []string{"int", "int32", "int64", "uint", "uint32", "uint64", "uintptr", "Nint", "Nint32", "Nuint64"}
	Floats = []string{"float32", "float64", "Nfloat64"}
	Strs   = []string{"string", "bytes", "Nstring", "Nbytes"}
	Lens   = []string{"lenS", "lenB", "lenI", "lenZ", "NlenS", "NlenB"}
	Lsws   = []string{"lsw", "lswDesc", "lswStruct"}
	Ptrs   = []string{"ptr", "uptr", "Nptr"}
	Core   = []string{"int32", "int64", "uint32", "uint64", "float32", "float64", "string", "bytes", "lenS", "lenB", "lsw", "ptr"}
)

// IsFC: does the type use the thresholds for expensive comparisons?
func IsFC(ty string) bool {
	switch ty {
	case "string", "bytes", "lsw", "lswDesc", "lswStruct", "ptr", "uptr", "Nstring", "Nbytes", "Nptr":
		return true
	}
	return false
}

type (
	myInt     int
	mySlice   []myInt
	myI32     int32
	myI32s    []int32
	myU64s    []uint64
	myF64     float64
	myStr     string
	myStrs    []myStr
	myBytes   []byte
	myBytess  []myBytes
	myNode    struct{ a, b int64 }
	myNodePs  []*myNode
	hdr3      struct{ p, l, c uintptr }
	hdr2      struct{ p, l uintptr }
	lswItem   struct{ key, id int }
	lswItemBg struct {
		key  int
		pad  [3]int
		name string
	}
)

func mk[T any, K comparable](ty string, key []int, elem func(rank, pos int) T, guard func(i int) T, id func(T) K) *Data {
	n := len(key)
	full := make([]T, n+2*pad)
	for i := range full {
		if i < pad || i >= n+pad {
			full[i] = guard(i)
		} else {
			full[i] = elem(key[i-pad], i-pad)
		}
	}
	s := full[pad : pad+n]
	ids := make([]K, len(full))
	for i := range full {
		ids[i] = id(full[i])
	}
	d := &Data{Ty: ty, N: n, Key: key, Mem: unsafe.Pointer(&full[0]), Pad: pad, Size: unsafe.Sizeof(full[0]), Arg: s}
	d.Perm = func() []int {
		at := make(map[K][]int32, n)
		for i := n - 1; i >= 0; i-- {
			k := ids[pad+i]
			at[k] = append(at[k], int32(i+1))
		}
		p := make([]int, n)
		for i := range p {
			k := id(s[i])
			if l := at[k]; len(l) > 0 {
				p[i] = int(l[len(l)-1])
				at[k] = l[:len(l)-1]
			}
		}
		return p
	}
	d.Same = func() (g, b, m bool) {
		g, b, m = true, true, true
		for i := range full {
			if id(full[i]) != ids[i] {
				if i < pad || i >= n+pad {
					g = false
				} else {
					m = false
				}
			}
		}
		return
	}
	d.Sort = func(l *Lib) { l.SortSlice(d.Arg) }
	d.Iss = func(l *Lib) int { return l.IsSortedSlice(d.Arg) }
	return d
}

type integers interface {
	~int | ~int32 | ~int64 | ~uint | ~uint32 | ~uint64 | ~uintptr
}

// numbers for ranks 0..m-1 in strictly ascending order, as offsets from the least value of a type
// of the given width
func offsets(m int, bits uint, rng *rand.Rand) []uint64 {
	max := uint64(math.MaxUint64) >> (64 - bits)
	o := make([]uint64, m)
	um := uint64(m)
	lin := func(start uint64) {
		for i := range o {
			o[i] = start + uint64(i)
		}
	}
	switch rng.Intn(10) {
	case 8: // only some of the bits differ
		if sh := uint(rng.Intn(int(bits))); um <= max>>sh {
			base := rng.Uint64() & max
			if r := max - (um<<sh - 1); r != math.MaxUint64 {
				base %= r + 1
			}
			for i := range o {
				o[i] = base + uint64(i)<<sh
			}
			break
		}
		fallthrough
	case 0: // around the middle (zero of signed types)
		lin(max/2 - um/2)
	case 1: // at the low end
		lin(0)
	case 2: // at the high end
		lin(max - (um - 1))
	case 3: // both ends
		for i := range o {
			if uint64(i) < um/2 {
				o[i] = uint64(i)
			} else {
				o[i] = max - (um - 1) + uint64(i)
			}
		}
	case 4: // spread over everything
		st := max / um
		if m > 1 {
			st = max / (um - 1)
		}
		for i := range o {
			o[i] = uint64(i) * st
		}
		if m > 1 {
			o[m-1] = max
		}
	case 5: // small numbers from zero of signed types
		lin(max/2 + 1)
	case 6: // large gaps at powers of two
		if m <= int(bits) {
			for i := range o {
				o[i] = 1<<uint(i) - 1
			}
			break
		}
		fallthrough
	default:
		seen := make(map[uint64]bool, m)
		for i := range o {
			for {
				v := rng.Uint64() & max
				if !seen[v] {
					seen[v] = true
					o[i] = v
					break
				}
			}
		}
		sort.Slice(o, func(i, k int) bool { return o[i] < o[k] })
	}
	return o
}

// word is the number of bits of an int
const word = 32 << (^uint(0) >> 63)

func ranks(key []int) int {
	m := 1
	for _, k := range key {
		if k >= m {
			m = k + 1
		}
	}
	return m
}

func ints[T integers](ty string, key []int, rng *rand.Rand, bits uint, signed bool) *Data {
	m := ranks(key)
	o := offsets(m, bits, rng)
	vals := make([]T, m)
	for i, x := range o {
		if signed {
			x ^= 1 << (bits - 1)
			if bits == 32 {
				x = uint64(int64(int32(uint32(x))))
			}
		}
		vals[i] = T(x)
		if i > 0 && vals[i] <= vals[i-1] {
			panic(fmt.Sprint("gen: ranks of ", ty, vals[i-1], vals[i]))
		}
	}
	gs := rng.Intn(3)
	guard := func(i int) T {
		switch gs {
		case 0:
			return vals[0]
		case 1:
			return vals[m-1]
		}
		return T(rng.Uint64() >> 33)
	}
	return mk(ty, key, func(r, _ int) T { return vals[r] }, guard, func(v T) T { return v })
}

// f64s returns m ascending floats; index of the one that may be either zero, or -1
func f64s(m int, rng *rand.Rand, is32 bool) (v []float64, zero int) {
	v = make([]float64, m)
	zero = -1
	tiny, huge := math.SmallestNonzeroFloat64, math.MaxFloat64
	if is32 {
		tiny, huge = math.SmallestNonzeroFloat32, math.MaxFloat32
	}
	switch rng.Intn(5) {
	case 0: // small integers around zero
		for i := range v {
			v[i] = float64(i - m/2)
		}
	case 4: // neighbours
		if is32 {
			x := float32(math.Ldexp(1+rng.Float64(), rng.Intn(200)-100))
			for i := range v {
				v[i] = float64(x)
				x = math.Nextafter32(x, math.MaxFloat32)
			}
		} else {
			x := math.Ldexp(1+rng.Float64(), rng.Intn(1800)-900)
			for i := range v {
				v[i] = x
				x = math.Nextafter(x, math.MaxFloat64)
			}
		}
		if rng.Intn(2) == 0 { // below zero
			for i, j := 0, m-1; i < j; i, j = i+1, j-1 {
				v[i], v[j] = v[j], v[i]
			}
			for i := range v {
				v[i] = -v[i]
			}
		}
	case 1: // multiples of the least positive number
		for i := range v {
			v[i] = float64(i-m/2) * tiny
		}
	case 2: // everything special
		sp := []float64{math.Inf(-1), -huge, -1e30, -1.5, -1, -tiny, 0, tiny, 1, 1.5, 1e30, huge, math.Inf(1)}
		if m > len(sp) {
			for i := 0; len(sp) < m; i++ {
				sp = append(sp, float64(i)+2)
			}
			sort.Float64s(sp)
		}
		o := rng.Perm(len(sp))[:m]
		sort.Ints(o)
		for i := range v {
			v[i] = sp[o[i]]
		}
	default:
		seen := map[float64]bool{}
		for i := range v {
			for {
				x := (rng.Float64() - 0.5) * math.Pow(10, float64(rng.Intn(60)-30))
				if is32 {
					x = float64(float32(x))
				}
				if x != 0 && !seen[x] {
					seen[x] = true
					v[i] = x
					break
				}
			}
		}
		sort.Float64s(v)
	}
	for i := range v {
		if v[i] == 0 {
			zero = i
		}
		if i > 0 && !(v[i-1] < v[i]) {
			panic(fmt.Sprint("gen: floats ", v[i-1], v[i]))
		}
	}
	return
}

func float64Bits(r int, v []float64, zero int, rng *rand.Rand) float64 {
	switch {
	case r == NaN:
		b := uint64(0x7ff0000000000000) | uint64(rng.Intn(1<<20))
		if rng.Intn(3) > 0 {
			b |= 1 << 51
		} else {
			b |= 1 + uint64(rng.Int63n(1<<51-1)) // signaling
		}
		if rng.Intn(2) == 0 {
			b |= 1 << 63
		}
		return math.Float64frombits(b)
	case r == zero && rng.Intn(2) == 0:
		return math.Copysign(0, -1)
	}
	return v[r]
}

func float32Bits(r int, v []float64, zero int, rng *rand.Rand) float32 {
	switch {
	case r == NaN:
		b := uint32(0x7f800000) | uint32(rng.Intn(1<<20))
		if rng.Intn(3) > 0 {
			b |= 1 << 22
		} else {
			b |= 1 + uint32(rng.Intn(1<<22-1)) // signaling
		}
		if rng.Intn(2) == 0 {
			b |= 1 << 31
		}
		return math.Float32frombits(b)
	case r == zero && rng.Intn(2) == 0:
		return float32(math.Copysign(0, -1))
	}
	return float32(v[r])
}

// strs returns m ascending strings
func strs(m int, rng *rand.Rand) []string {
	seen := map[string]bool{}
	v := make([]string, 0, m)
	alpha := []string{"ab", "\x00\xff", "a\x00", "0123456789abcdef", "\x7f\x80", "\x00\x01", "aA"}[rng.Intn(7)]
	pre := ""
	if rng.Intn(3) == 0 {
		pre = "common/prefix/"[:rng.Intn(14)]
	}
	if m < 3000 && rng.Intn(4) == 0 { // long common start
		l := []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300}[rng.Intn(13)]
		for len(pre) < l {
			pre += alpha[rng.Intn(len(alpha)):][:1]
		}
	}
	max := 2
	for c := len(alpha); c < 4*m; c *= len(alpha) {
		max++
	}
	if rng.Intn(3) == 0 {
		max += 9
	}
	if rng.Intn(2) == 0 {
		seen[""] = true
		v = append(v, "")
	}
	for len(v) < m {
		l := rng.Intn(max + 1)
		b := []byte(pre)
		for i := 0; i < l; i++ {
			b = append(b, alpha[rng.Intn(len(alpha))])
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			v = append(v, string(b))
		} else if rng.Intn(50) == 0 {
			max++
		}
	}
	sort.Strings(v)
	return v
}

// lens returns m ascending lengths ≤ lim
func lens(m, lim int, rng *rand.Rand) []int {
	v := make([]int, m)
	if m > lim/2 || rng.Intn(2) == 0 {
		z := 0
		if m < lim {
			z = rng.Intn(2)
		}
		for i := range v {
			v[i] = i + z
		}
		return v
	}
	seen := map[int]bool{}
	for i := range v {
		for {
			l := rng.Intn(lim + 1)
			if rng.Intn(4) == 0 {
				l = lim - rng.Intn(m+1)
			}
			if !seen[l] {
				seen[l] = true
				v[i] = l
				break
			}
		}
	}
	sort.Ints(v)
	return v
}

var arenaS = string(make([]byte, 1<<20))

func idS(s string) hdr2 { return *(*hdr2)(unsafe.Pointer(&s)) }

// a copy of s with its own memory
func ownS(s string) string { return string(append(make([]byte, 0, len(s)+1), s...)) }

// content check: contents are remembered and compared
func watch(d *Data, same func() bool) {
	old := d.Same
	d.Same = func() (bool, bool, bool) {
		g, _, m := old()
		return g, same(), m
	}
}

// New makes input of a type for the given ranks
func New(ty string, key []int, rng *rand.Rand) *Data {
	n, m := len(key), ranks(key)
	if most := 1 << 12; m > most && strings.Contains(ty, "len") { // there are not that many lengths
		for i, k := range key {
			key[i] = k % most
		}
		m = most
	}
	switch ty {
	case "int":
		return ints[int](ty, key, rng, word, true)
	case "Nint":
		d := ints[myInt](ty, key, rng, word, true)
		d.Arg = mySlice(d.Arg.([]myInt))
		return d
	case "int32":
		return ints[int32](ty, key, rng, 32, true)
	case "Nint32":
		d := ints[int32](ty, key, rng, 32, true)
		d.Arg = myI32s(d.Arg.([]int32))
		return d
	case "int64":
		return ints[int64](ty, key, rng, 64, true)
	case "uint":
		return ints[uint](ty, key, rng, word, false)
	case "uint32":
		return ints[uint32](ty, key, rng, 32, false)
	case "uint64":
		return ints[uint64](ty, key, rng, 64, false)
	case "Nuint64":
		d := ints[uint64](ty, key, rng, 64, false)
		d.Arg = myU64s(d.Arg.([]uint64))
		return d
	case "uintptr":
		return ints[uintptr](ty, key, rng, word, false)
	case "float32":
		v, z := f64s(m, rng, true)
		return mk(ty, key, func(r, _ int) float32 { return float32Bits(r, v, z, rng) },
			func(i int) float32 { return float32(i) }, math.Float32bits)
	case "float64":
		v, z := f64s(m, rng, false)
		return mk(ty, key, func(r, _ int) float64 { return float64Bits(r, v, z, rng) },
			func(i int) float64 { return float64(i) }, math.Float64bits)
	case "Nfloat64":
		v, z := f64s(m, rng, false)
		return mk(ty, key, func(r, _ int) myF64 { return myF64(float64Bits(r, v, z, rng)) },
			func(i int) myF64 { return myF64(i) }, func(x myF64) uint64 { return math.Float64bits(float64(x)) })
	case "string", "Nstring":
		v := strs(m, rng)
		var keep []string
		elem := func(r, _ int) string {
			s := v[r]
			if rng.Intn(3) > 0 {
				s = ownS(s)
			}
			keep = append(keep, s)
			return s
		}
		var d *Data
		if ty == "string" {
			d = mk(ty, key, elem, func(i int) string { return "guard"[:i%5] }, idS)
		} else {
			d = mk(ty, key, func(r, p int) myStr { return myStr(elem(r, p)) }, func(i int) myStr { return myStr("guard"[:i%5]) },
				func(s myStr) hdr2 { return idS(string(s)) })
			d.Arg = myStrs(d.Arg.([]myStr))
		}
		watch(d, func() bool {
			for i, s := range keep {
				if s != v[key[i]] {
					return false
				}
			}
			return true
		})
		return d
	case "bytes", "Nbytes":
		v := strs(m, rng)
		keep := make([][]byte, 0, n)
		elem := func(r, _ int) []byte {
			s := v[r]
			if s == "" && rng.Intn(2) == 0 {
				keep = append(keep, nil)
				return nil
			}
			b := append(make([]byte, 0, len(s)+1+rng.Intn(4)), s...)
			keep = append(keep, b)
			return b
		}
		var d *Data
		if ty == "bytes" {
			d = mk(ty, key, elem, func(i int) []byte { return []byte("guard")[:i%5] }, func(b []byte) hdr3 { return *(*hdr3)(unsafe.Pointer(&b)) })
		} else {
			d = mk(ty, key, func(r, p int) myBytes { return elem(r, p) }, func(i int) myBytes { return []byte("guard")[:i%5] },
				func(b myBytes) hdr3 { return *(*hdr3)(unsafe.Pointer(&b)) })
			d.Arg = myBytess(d.Arg.([]myBytes))
		}
		watch(d, func() bool {
			for i, b := range keep {
				if string(b) != v[key[i]] {
					return false
				}
			}
			return true
		})
		return d
	case "lenS", "NlenS":
		l := lens(m, len(arenaS)/2, rng)
		elem := func(r, p int) string {
			o := rng.Intn(len(arenaS)/2 - 1)
			return arenaS[o : o+l[r]]
		}
		var d *Data
		if ty == "lenS" {
			d = mk(ty, key, elem, func(i int) string { return "guard"[:i%5] }, idS)
		} else {
			d = mk(ty, key, func(r, p int) myStr { return myStr(elem(r, p)) }, func(i int) myStr { return myStr("guard"[:i%5]) },
				func(s myStr) hdr2 { return idS(string(s)) })
			d.Arg = myStrs(d.Arg.([]myStr))
		}
		byLen(d)
		return d
	case "lenB":
		return lenOf[byte](ty, key, lens(m, 1<<16, rng), 1<<17, rng)
	case "NlenB":
		d := lenOf[myNode](ty, key, lens(m, 1<<12, rng), 1<<13, rng)
		return d
	case "lenI":
		return lenOf[int](ty, key, lens(m, 1<<13, rng), 1<<14, rng)
	case "lenZ": // elements without size can be as long as an int permits
		l := lens(m, 1<<13, rng)
		if rng.Intn(2) == 0 {
			l = lens(m, math.MaxInt-1, rng)
		}
		d := mk(ty, key, func(r, _ int) []struct{} {
			if l[r] == 0 && rng.Intn(2) == 0 {
				return nil
			}
			return make([]struct{}, l[r])
		}, func(i int) []struct{} { return make([]struct{}, i) }, func(b []struct{}) hdr3 { return *(*hdr3)(unsafe.Pointer(&b)) })
		byLen(d)
		return d
	case "ptr", "Nptr":
		arr := make([]myNode, 2*m+2)
		off := rng.Intn(2)
		nilLow := rng.Intn(2) == 0
		elem := func(r, _ int) *myNode {
			if nilLow {
				if r == 0 {
					return nil
				}
				r--
			}
			return &arr[2*r+off]
		}
		d := mk(ty, key, elem, func(i int) *myNode { return &arr[0] }, func(p *myNode) *myNode { return p })
		if ty == "Nptr" {
			d.Arg = myNodePs(d.Arg.([]*myNode))
		}
		return d
	case "uptr":
		arr := make([]uint16, m+1)
		return mk(ty, key, func(r, _ int) unsafe.Pointer { return unsafe.Pointer(&arr[r]) },
			func(i int) unsafe.Pointer { return nil }, func(p unsafe.Pointer) unsafe.Pointer { return p })
	case "lsw":
		d := mk(ty, key, func(r, p int) lswItem { return lswItem{r, p} }, func(i int) lswItem { return lswItem{i, -i} },
			func(v lswItem) lswItem { return v })
		s := d.Arg.([]lswItem)
		lswOf(d, func(i, k int) bool { return s[i].key < s[k].key }, func(i, k int) { s[i], s[k] = s[k], s[i] })
		return d
	case "lswDesc": // descending keys: rank r is stored as m-r
		d := mk(ty, key, func(r, p int) int64 { return int64(m-r)<<32 | int64(p) }, func(i int) int64 { return int64(i) },
			func(v int64) int64 { return v })
		s := d.Arg.([]int64)
		lswOf(d, func(i, k int) bool { return s[i]>>32 > s[k]>>32 }, func(i, k int) { s[i], s[k] = s[k], s[i] })
		return d
	case "lswStruct":
		v := strs(m, rng)
		d := mk(ty, key, func(r, p int) lswItemBg { return lswItemBg{key: p, name: v[r]} },
			func(i int) lswItemBg { return lswItemBg{key: -i} }, func(x lswItemBg) int { return x.key })
		s := d.Arg.([]lswItemBg)
		lswOf(d, func(i, k int) bool { return s[i].name < s[k].name }, func(i, k int) { s[i], s[k] = s[k], s[i] })
		return d
	}
	panic("gen: type " + ty)
}

// Part is the view of elements a..b-1, which is all of the collection that the library is given. Slices
// keep their capacity.
func (d *Data) Part(a, b int) *Data {
	v := &Data{Ty: d.Ty, N: b - a, Key: d.Key[a:b], Same: d.Same, Whole: d, Off: a}
	v.Perm = func() []int {
		p := append([]int{}, d.Perm()[a:b]...)
		for i := range p {
			if p[i] -= a; p[i] < 1 || p[i] > b-a {
				p[i] = 0
			}
		}
		return p
	}
	if d.Lsw != nil {
		lswOf(v, func(i, k int) bool { return d.less(a+i, a+k) }, func(i, k int) { d.swap(a+i, a+k) })
		return v
	}
	v.Arg = reflect.ValueOf(d.Arg).Slice(a, b).Interface()
	if d.byLen {
		byLen(v)
	} else {
		v.Sort = func(l *Lib) { l.SortSlice(v.Arg) }
		v.Iss = func(l *Lib) int { return l.IsSortedSlice(v.Arg) }
	}
	return v
}

func byLen(d *Data) {
	d.byLen = true
	d.Sort = func(l *Lib) { l.SortLen(d.Arg) }
	d.Iss = func(l *Lib) int { return l.IsSortedLen(d.Arg) }
}

func lenOf[T any](ty string, key []int, l []int, arena int, rng *rand.Rand) *Data {
	if top := 2*l[len(l)-1] + 16; top > arena {
		arena = top
	}
	a := make([]T, arena)
	d := mk(ty, key, func(r, _ int) []T {
		if l[r] == 0 && rng.Intn(2) == 0 {
			return nil
		}
		o := rng.Intn(arena - l[r])
		c := o + l[r] + rng.Intn(arena-l[r]-o)
		return a[o : o+l[r] : c]
	}, func(i int) []T { return a[:i%5] }, func(b []T) hdr3 { return *(*hdr3)(unsafe.Pointer(&b)) })
	byLen(d)
	return d
}

func lswOf(d *Data, less func(i, k int) bool, swap func(i, k int)) {
	n := d.N
	d.less, d.swap = less, swap
	bad := make(chan int, 1)
	bad <- 0
	count := func() {
		b := <-bad
		bad <- b + 1
	}
	d.Calls = func() int {
		b := <-bad
		bad <- b
		return b
	}
	d.Lsw = func(i, k, r, s int) bool {
		if i|k|r|s < 0 || i >= n || k >= n || r >= n || s >= n {
			count()
			return false
		}
		if d.Hook != nil {
			d.Hook(i, k, r, s, 0)
		}
		if less(i, k) {
			if r != s {
				if d.Hook != nil {
					d.Hook(i, k, r, s, 1)
				}
				swap(r, s)
			}
			return true
		}
		return false
	}
	d.Sort = func(l *Lib) { l.Sort(n, d.Lsw) }
	d.Iss = func(l *Lib) int { return l.IsSorted(n, d.Lsw) }
}
