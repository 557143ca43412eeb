// Package sched runs the instrumented copies of sorty (vh/isc: default build, vh/ist: tuneparam
// build) under controlled schedules and records what their goroutines do.
package sched

import (
	"vh/gen"
	sortyc "vh/isc"
	sortyt "vh/ist"
)

func libC() *gen.Lib {
	return &gen.Lib{
		Name:          "isc",
		SortSlice:     sortyc.SortSlice,
		SortLen:       sortyc.SortLen,
		Sort:          func(n int, f func(i, k, r, s int) bool) { sortyc.Sort(n, f) },
		IsSortedSlice: sortyc.IsSortedSlice,
		IsSortedLen:   sortyc.IsSortedLen,
		IsSorted:      func(n int, f func(i, k, r, s int) bool) int { return sortyc.IsSorted(n, f) },
		Search:        sortyc.Search,
		SetMG:         func(v uint64) { sortyc.MaxGor = v },
		SetNaN:        func(v int) { sortyc.NaNoption = sortyc.FloatOption(v) },
		Ins:           sortyc.MaxLenIns, InsFC: sortyc.MaxLenInsFC, Rec: sortyc.MaxLenRec, RecFC: sortyc.MaxLenRecFC,
	}
}

func libT() *gen.Lib {
	return &gen.Lib{
		Name:          "ist",
		SortSlice:     sortyt.SortSlice,
		SortLen:       sortyt.SortLen,
		Sort:          func(n int, f func(i, k, r, s int) bool) { sortyt.Sort(n, f) },
		IsSortedSlice: sortyt.IsSortedSlice,
		IsSortedLen:   sortyt.IsSortedLen,
		IsSorted:      func(n int, f func(i, k, r, s int) bool) int { return sortyt.IsSorted(n, f) },
		Search:        sortyt.Search,
		SetMG:         func(v uint64) { sortyt.MaxGor = v },
		SetNaN:        func(v int) { sortyt.NaNoption = sortyt.FloatOption(v) },
		SetLens: func(ins, insfc, rec, recfc int) {
			sortyt.MaxLenIns, sortyt.MaxLenInsFC, sortyt.MaxLenRec, sortyt.MaxLenRecFC = ins, insfc, rec, recfc
		},
		Ins: sortyt.MaxLenIns, InsFC: sortyt.MaxLenInsFC, Rec: sortyt.MaxLenRec, RecFC: sortyt.MaxLenRecFC,
	}
}

var (
	lc = libC()
	lt = libT()
)
