package main

import (
	"math/rand"
	"reflect"
	"sort"
	"unsafe"

	"vh/gen"
)

type (
	nInt8    int8
	nInt16   int16
	nInt     int
	nInt32   int32
	nInt64   int64
	nUint    uint
	nUint8   uint8
	nUint32  uint32
	nUint64  uint64
	nUintptr uintptr
	nF32     float32
	nF64     float64
	nStr     string
	nBytes   []byte
	nB8s     []nUint8
	nInts    []int
	nUints   []uint
	nNInts   []nInt
	nI32s    []int32
	nI64s    []int64
	nU32s    []uint32
	nU64s    []uint64
	nUptrs   []uintptr
	nF32s    []float32
	nF64s    []float64
	nStrs    []string
	nByteS   [][]byte
	nUP      unsafe.Pointer
	nUPs     []unsafe.Pointer
	nPInt    *int
	nPs      []*string
	nPPs     []nPInt
	nII      [][]int
	nMap     map[int]int
	nStruct  struct{ a []int }
	nBools   []bool
	nI16s    []int16
	nFuncs   []func()
	nIface   interface{ M() }
	nIfaces  []nIface
	nAnys    []any
)

func acceptTypes() []reflect.Type {
	var l []reflect.Type
	add := func(v ...any) {
		for _, x := range v {
			l = append(l, reflect.TypeOf(x).Elem())
		}
	}
	base := []reflect.Type{}
	for _, x := range []any{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0),
		uint64(0), uintptr(0), float32(0), float64(0), complex64(0), complex128(0), "", unsafe.Pointer(nil),
		[2]int{}, [0]int{}, [1]string{}, map[int]int{}, struct{}{}, struct{ a int }{}, (chan int)(nil), (func())(nil), (*int)(nil), (*struct{})(nil),
		(**int)(nil), (*[]int)(nil), (*func())(nil), (*any)(nil), nInt8(0), nInt16(0), nInt(0), nInt32(0), nInt64(0), nUint(0), nUint8(0), nUint32(0),
		nUint64(0), nUintptr(0), nF32(0), nF64(0), nStr(""), nUP(nil), nPInt(nil), nMap{}, nStruct{}} {
		base = append(base, reflect.TypeOf(x))
	}
	base = append(base, reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*nIface)(nil)).Elem())
	for _, b := range base {
		l = append(l, b, reflect.SliceOf(b), reflect.SliceOf(reflect.SliceOf(b)), reflect.SliceOf(reflect.SliceOf(reflect.SliceOf(b))),
			reflect.PointerTo(reflect.SliceOf(b)), reflect.ArrayOf(3, b), reflect.SliceOf(reflect.PointerTo(b)), reflect.SliceOf(reflect.ArrayOf(2, b)),
			reflect.SliceOf(reflect.SliceOf(reflect.PointerTo(b))), reflect.SliceOf(reflect.PointerTo(reflect.SliceOf(b))), reflect.ArrayOf(2, reflect.SliceOf(b)))
	}
	add((*nBytes)(nil), (*[]nBytes)(nil), (*nB8s)(nil), (*[]nB8s)(nil), (*nInts)(nil), (*nUints)(nil), (*nNInts)(nil), (*nI32s)(nil), (*nI64s)(nil),
		(*nU32s)(nil), (*nU64s)(nil), (*nUptrs)(nil), (*nF32s)(nil), (*nF64s)(nil), (*nStrs)(nil), (*nByteS)(nil), (*nUPs)(nil), (*nPs)(nil), (*nPPs)(nil),
		(*nII)(nil), (*nBools)(nil), (*nI16s)(nil), (*nFuncs)(nil), (*nIfaces)(nil), (*nAnys)(nil), (*[]nInts)(nil), (*[]nII)(nil), (*[]nMap)(nil))
	return l
}

// term describes a type for the specification
func term(t reflect.Type, depth int) any {
	if t == nil {
		return map[string]any{"k": "nil"}
	}
	m := map[string]any{"k": t.Kind().String(), "s": t.String()}
	if t.Kind() == reflect.Slice && depth < 3 {
		m["e"] = term(t.Elem(), depth+1)
	}
	return m
}

func fill(v reflect.Value, i int, rng *rand.Rand) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(i%2 == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(rng.Uint64())
		if rng.Intn(2) == 0 {
			x = int64(rng.Intn(7) - 3)
		}
		v.SetInt(x << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := rng.Uint64()
		if rng.Intn(2) == 0 {
			x = uint64(rng.Intn(5))
		}
		v.SetUint(x << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(rng.NormFloat64() * 10)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(rng.Float64(), rng.Float64()))
	case reflect.String:
		b := make([]byte, rng.Intn(6))
		for i := range b {
			b[i] = byte(rng.Intn(4) * 85)
		}
		v.SetString(string(b))
	case reflect.Slice:
		n := rng.Intn(6)
		s := reflect.MakeSlice(v.Type(), n, n+rng.Intn(3))
		for i := 0; i < n; i++ {
			fill(s.Index(i), i, rng)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), i, rng)
		}
	case reflect.Pointer:
		if rng.Intn(5) > 0 {
			v.Set(reflect.New(v.Type().Elem()).Convert(v.Type()))
		}
	case reflect.UnsafePointer:
		v.Set(reflect.ValueOf(unsafe.Pointer(new([2]int))).Convert(v.Type()))
	case reflect.Interface:
		if v.Type().NumMethod() == 0 {
			v.Set(reflect.ValueOf(rng.Intn(9)))
		}
	}
}

func rawBytes(v reflect.Value, i int) string {
	sz := v.Type().Elem().Size()
	if sz == 0 {
		return ""
	}
	p := unsafe.Add(v.UnsafePointer(), uintptr(i)*sz)
	return string(unsafe.Slice((*byte)(p), sz))
}

// rankKeys returns the ranks of elements of a slice
func rankKeys(v reflect.Value, byLen bool) []int {
	n := v.Len()
	less := func(a, b reflect.Value) bool {
		if byLen {
			return a.Len() < b.Len()
		}
		switch a.Kind() {
		case reflect.Int, reflect.Int32, reflect.Int64:
			return a.Int() < b.Int()
		case reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return a.Uint() < b.Uint()
		case reflect.Float32, reflect.Float64:
			return a.Float() < b.Float()
		case reflect.String:
			return a.String() < b.String()
		case reflect.Slice:
			return string(a.Bytes()) < string(b.Bytes())
		case reflect.Pointer, reflect.UnsafePointer:
			return a.Pointer() < b.Pointer()
		}
		return false
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, k int) bool { return less(v.Index(idx[i]), v.Index(idx[k])) })
	key := make([]int, n)
	for r, i := range idx {
		key[i] = r
		if r > 0 && !less(v.Index(idx[r-1]), v.Index(i)) {
			key[i] = key[idx[r-1]]
		}
	}
	return key
}

func documented(t reflect.Type, byLen bool) bool { // only to know whether there is an order
	if t == nil || t.Kind() != reflect.Slice {
		return false
	}
	e := t.Elem()
	switch e.Kind() {
	case reflect.String:
		return true
	case reflect.Slice:
		return byLen || e.Elem().Kind() == reflect.Uint8
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Pointer, reflect.UnsafePointer:
		return !byLen
	}
	return false
}

func acceptCases(rng *rand.Rand, cs int64) {
	lib.SetMG(3)
	lib.SetNaN(1)
	fns := []struct {
		name string
		f    func(any) int
	}{
		{"SortSlice", func(a any) int { lib.SortSlice(a); return -1 }}, {"SortLen", func(a any) int { lib.SortLen(a); return -1 }},
		{"IsSortedSlice", lib.IsSortedSlice}, {"IsSortedLen", lib.IsSortedLen}}
	all := append([]reflect.Type{nil}, acceptTypes()...)
	for fi, fn := range fns {
		byLen := fi%2 == 1
		for _, t := range all {
			isSlice := t != nil && t.Kind() == reflect.Slice
			for _, n := range []int{-1, 0, 1, 2, 3 + rng.Intn(9), 20 + rng.Intn(30), 100} {
				if (!isSlice && n > 0) || (n > 20 && !documented(t, byLen)) || (n >= 100 && rng.Intn(4) > 0) {
					continue
				}
				types[fn.name]++
				r := &Rec{Op: "accept", Case: cs, Fn: fn.name, Type: term(t, 0), MG: 3, NaN: 1}
				var arg any
				var v reflect.Value
				if t != nil {
					if isSlice && n >= 0 {
						full := reflect.MakeSlice(t, n+2, n+4)
						for i := 0; i < n+2; i++ {
							fill(full.Index(i), i, rng)
						}
						v = full.Slice(1, n+1)
					} else {
						v = reflect.New(t).Elem()
						if !isSlice {
							fill(v, 0, rng)
						}
					}
					arg = v.Interface()
				}
				ord := documented(t, byLen)
				var before []string
				if isSlice {
					for i := 0; i < v.Len(); i++ {
						before = append(before, rawBytes(v, i))
					}
				}
				if ord {
					r.Key = rankKeys(v, byLen)
				}
				r.Empty = !ord
				r.Pan = protect(func() { r.Ret = fn.f(arg) })
				r.Same = true
				at := map[string][]int{}
				if isSlice {
					for i, b := range before {
						at[b] = append(at[b], i+1)
					}
					for i, b := range before {
						x := rawBytes(v, i)
						if x != b {
							r.Same = false
						}
						p := 0
						if l := at[x]; len(l) > 0 {
							p = l[0]
							at[x] = l[1:]
						}
						r.Perm = append(r.Perm, p)
					}
				}
				elems++
				emit(r, acceptBad(r, ord, fi < 2))
			}
		}
	}
}

func acceptBad(r *Rec, ord, sorts bool) bool {
	if (r.Pan == "") != ord {
		return true
	}
	if !ord {
		return !r.Same
	}
	if sorts {
		c := *r
		c.G, c.B = true, true
		return !goodSort(&c)
	}
	c := *r
	c.G, c.B = true, true
	return !goodIss(&c)
}

var _ = gen.NaN
