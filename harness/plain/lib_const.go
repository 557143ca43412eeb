//go:build !tuneparam

package main

const buildName = "const"

var setLens func(ins, insfc, rec, recfc int)
