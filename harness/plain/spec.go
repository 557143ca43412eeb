package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strconv"

	"vh/gen"
)

// SpecCase is a case generated by a specification (spec/Gen*.tla)
type SpecCase struct {
	Ty   string `json:"ty"`
	Key  []int  `json:"key"`
	NaN  int    `json:"nan"`
	MG   int    `json:"mg"`
	Op   string `json:"op"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Lens []int  `json:"lens"`
}

// specCases runs generated cases
func specCases(file string, only int64) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := int64(1); sc.Scan(); i++ {
		var c SpecCase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		if only != 0 && only != -i {
			continue
		}
		rng := rngFor(-i)
		if c.Op == "start" {
			if wal != nil {
				wal.WriteAt([]byte(strconv.FormatInt(-i, 10)+"          "), 0)
			}
			startCase(params{uint64(c.MG), c.Lens[0], c.Lens[1], c.Lens[2], c.Lens[3]}, rng, -i)
			cases++
			feats["from spec"]++
			continue
		}
		if len(c.Lens) == 4 {
			lib.Tune(c.Lens[0], c.Lens[1], c.Lens[2], c.Lens[3])
		}
		lib.SetMG(uint64(c.MG))
		lib.SetNaN(c.NaN)
		if wal != nil {
			wal.WriteAt([]byte(strconv.FormatInt(-i, 10)+"          "), 0)
		}
		switch c.Op {
		case "search":
			recordSearch(-i, uint64(c.N), uint64(c.K))
			continue
		}
		tys := []string{c.Ty}
		switch all := propTypes[prop]; c.Ty {
		case "", "*":
			tys = all
		case "?":
			tys = []string{all[rng.Intn(len(all))]}
		case "?f":
			tys = []string{gen.Floats[rng.Intn(len(gen.Floats))]}
		}
		for _, ty := range tys {
			key := append([]int{}, c.Key...)
			j := job{d: gen.New(ty, key, rng), mg: c.MG, nan: c.NaN, cs: -i, pat: -1}
			if c.Op == "iss" {
				issJob(j)
			} else {
				sortJob(j)
			}
			cases++
			feats["from spec"]++
		}
	}
	if err := sc.Err(); err != nil {
		panic(err)
	}
}
