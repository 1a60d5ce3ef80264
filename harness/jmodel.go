package main

import (
	"encoding/json"
	"fmt"
)

// Decoded output of the compiler.

type JAccess struct {
	Type                       string
	RegCount, RegWidth         int64
	ItemCount, ItemWidth       int64
	StartAddr, EndAddr         int64
	StartBit, EndBit           int64
	StartRegWidth, EndRegWidth int64
}

type JRange struct{ Start, End int64 }
type JTime struct{ S, Ns int64 }

type JFunc struct {
	Name    string
	Doc     string
	IsArray bool
	Count   int64
}

type JConsts struct {
	Bools     map[string]bool
	BoolLists map[string][]bool
	Floats    map[string]float64
	Ints      map[string]int64
	IntLists  map[string][]int64
	Strings   map[string]string
}

// JElem covers every leaf functionality kind.
type JElem struct {
	JFunc
	Kind                                     string `json:"-"`
	Atomic                                   bool
	InitValue, ReadValue, ResetValue         string
	Range                                    json.RawMessage
	Width                                    int64
	AddEnable                                bool
	Clear, EnableInitValue, EnableResetValue string
	InTrigger, OutTrigger                    string
	Access                                   JAccess
	EnableAccess                             JAccess
	ClearAddr                                *int64
	Size                                     int64
}

type JProc struct {
	JFunc
	Kind     string `json:"-"`
	Delay    *JTime
	Params   []*JElem
	Returns  []*JElem
	CallAddr *int64
	ExitAddr *int64
	StbAddr  int64
}

type JGroup struct {
	JFunc
	Virtual  bool
	Consts   JConsts
	Configs  []*JElem
	Irqs     []*JElem
	Masks    []*JElem
	Params   []*JElem
	Returns  []*JElem
	Statics  []*JElem
	Statuses []*JElem
}

type JSizes struct{ Own, Cumulated, Aligned int64 }

type JBlock struct {
	JFunc
	Align     int64
	Masters   int64
	Reset     string
	Width     int64
	Sizes     JSizes
	AddrSpace JRange
	Consts    JConsts

	Blackboxes []*JElem
	Configs    []*JElem
	Groups     []*JGroup
	Irqs       []*JElem
	Masks      []*JElem
	Procs      []*JProc
	Statics    []*JElem
	Statuses   []*JElem
	Streams    []*JProc
	Subblocks  []*JBlock
}

func decodeBus(b []byte) (*JBlock, error) {
	var j *JBlock
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	if j == nil {
		return nil, fmt.Errorf("output is null")
	}
	j.fix()
	return j, nil
}

func setKind(k string, ls ...[]*JElem) {
	for _, l := range ls {
		for _, e := range l {
			e.Kind = k
		}
	}
}

func (b *JBlock) fix() {
	setKind("blackbox", b.Blackboxes)
	setKind("config", b.Configs)
	setKind("irq", b.Irqs)
	setKind("mask", b.Masks)
	setKind("static", b.Statics)
	setKind("status", b.Statuses)
	for _, p := range b.Procs {
		p.Kind = "proc"
		setKind("param", p.Params)
		setKind("return", p.Returns)
	}
	for _, p := range b.Streams {
		p.Kind = "stream"
		setKind("param", p.Params)
		setKind("return", p.Returns)
	}
	for _, g := range b.Groups {
		setKind("config", g.Configs)
		setKind("irq", g.Irqs)
		setKind("mask", g.Masks)
		setKind("param", g.Params)
		setKind("return", g.Returns)
		setKind("static", g.Statics)
		setKind("status", g.Statuses)
	}
	for _, s := range b.Subblocks {
		s.fix()
	}
}

func (b *JBlock) leaves() []*JElem {
	var r []*JElem
	r = append(r, b.Configs...)
	r = append(r, b.Masks...)
	r = append(r, b.Statics...)
	r = append(r, b.Statuses...)
	r = append(r, b.Irqs...)
	return r
}

func (b *JBlock) walk(f func(b, parent *JBlock, path string)) { b.walk2(f, nil, b.Name) }

func (b *JBlock) walk2(f func(b, parent *JBlock, path string), p *JBlock, path string) {
	f(b, p, path)
	for _, s := range b.Subblocks {
		s.walk2(f, b, path+"."+s.Name)
	}
}

func decodeRange(m json.RawMessage) []JRange {
	if len(m) == 0 || string(m) == "null" {
		return nil
	}
	var s JRange
	if json.Unmarshal(m, &s) == nil {
		return []JRange{s}
	}
	var l []JRange
	if json.Unmarshal(m, &l) == nil {
		return l
	}
	return []JRange{{-999, -999}}
}

func (b *JBlock) id() string {
	for _, s := range b.Statics {
		if s.Name == "ID" {
			return s.InitValue
		}
	}
	return ""
}
