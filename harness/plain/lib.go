package main

import (
	"github.com/jfcg/sorty/v2"

	"vh/gen"
)

func newLib() *gen.Lib {
	return &gen.Lib{
		SortSlice:     sorty.SortSlice,
		SortLen:       sorty.SortLen,
		Sort:          func(n int, f func(i, k, r, s int) bool) { sorty.Sort(n, f) },
		IsSortedSlice: sorty.IsSortedSlice,
		IsSortedLen:   sorty.IsSortedLen,
		IsSorted:      func(n int, f func(i, k, r, s int) bool) int { return sorty.IsSorted(n, f) },
		Search:        sorty.Search,
		SetMG:         func(v uint64) { sorty.MaxGor = v },
		SetNaN:        func(v int) { sorty.NaNoption = sorty.FloatOption(v) },
		SetLens:       setLens,
		Name:          buildName,
		Ins:           sorty.MaxLenIns, InsFC: sorty.MaxLenInsFC, Rec: sorty.MaxLenRec, RecFC: sorty.MaxLenRecFC,
	}
}
