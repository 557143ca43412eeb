//go:build tuneparam

package main

import "github.com/jfcg/sorty/v2"

const buildName = "tune"

func setLens(ins, insfc, rec, recfc int) {
	sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC = ins, insfc, rec, recfc
}
