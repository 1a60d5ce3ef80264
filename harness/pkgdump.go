package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
)

// JDump is the file written by the -c flag.
type JDump map[string]struct{ Consts JDumpConsts }

type JDumpConsts struct {
	Bools     map[string]bool
	BoolLists map[string][]bool
	Floats    map[string]json.Number
	Ints      map[string]json.Number
	IntLists  map[string][]json.Number
	Strings   map[string]string
}

func (k JDumpConsts) names() []string {
	var l []string
	for n := range k.Bools {
		l = append(l, n)
	}
	for n := range k.BoolLists {
		l = append(l, n)
	}
	for n := range k.Floats {
		l = append(l, n)
	}
	for n := range k.Ints {
		l = append(l, n)
	}
	for n := range k.IntLists {
		l = append(l, n)
	}
	for n := range k.Strings {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// checkPkgs compares dumped constants of packages with expected integers.
func checkPkgs(b []byte, pk map[string]map[string]*big.Int) string {
	var d JDump
	if err := json.Unmarshal(b, &d); err != nil {
		return "constants file is not a complete JSON document: " + err.Error()
	}
	for p, m := range pk {
		k, ok := d[p]
		if !ok {
			if len(m) == 0 {
				continue
			}
			return fmt.Sprintf("package %s is missing in the constants file", p)
		}
		ns := k.Consts.names()
		if len(ns) != len(m) {
			return fmt.Sprintf("package %s: constants file has constants %v, %d are defined", p, ns, len(m))
		}
		for n, v := range m {
			x, ok := k.Consts.Ints[n]
			if !ok {
				return fmt.Sprintf("package %s: constant %s is missing among integers", p, n)
			}
			if x.String() != v.String() {
				return fmt.Sprintf("package %s: constant %s is %s, want %s", p, n, x, v)
			}
		}
	}
	for p := range d {
		if _, ok := pk[p]; !ok {
			return fmt.Sprintf("constants file has unknown package %s", p)
		}
	}
	return ""
}
