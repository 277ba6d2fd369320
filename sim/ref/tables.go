// Package ref is the reference model: UAX #29 evaluated literally, rule by
// rule, over a whole text and a set of property tables.  It shares no code and
// no data with the repository (the tables come from an independent copy of the
// Unicode 17.0.0 property files, see tools/extract_ucd.py).
package ref

import (
	_ "embed"
	"strconv"
	"strings"
	"sync"
)

// Classes. The numbering is ours.
type Class = uint8

// Grapheme_Cluster_Break
const (
	GOther Class = iota
	GCR
	GLF
	GControl
	GExtend
	GZWJ
	GRI
	GPrepend
	GSpacingMark
	GL
	GV
	GT
	GLV
	GLVT
	NG
)

// InCB
const (
	INone Class = iota
	IConsonant
	ILinker
	IExtend
	NI
)

// Word_Break
const (
	WOther Class = iota
	WCR
	WLF
	WNewline
	WExtend
	WZWJ
	WFormat
	WRI
	WKatakana
	WHebrew
	WALetter
	WSingleQuote
	WDoubleQuote
	WMidNumLet
	WMidLetter
	WMidNum
	WNumeric
	WExtendNumLet
	WSegSpace
	NW
)

// Sentence_Break
const (
	SOther Class = iota
	SCR
	SLF
	SExtend
	SSep
	SFormat
	SSp
	SLower
	SUpper
	SOLetter
	SNumeric
	SATerm
	SSContinue
	SSTerm
	SClose
	NS
)

var GNames = []string{"Other", "CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"}
var INames = []string{"None", "Consonant", "Linker", "Extend"}
var WNames = []string{"Other", "CR", "LF", "Newline", "Extend", "ZWJ", "Format", "Regional_Indicator", "Katakana", "Hebrew_Letter", "ALetter", "Single_Quote", "Double_Quote", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet", "WSegSpace"}
var SNames = []string{"Other", "CR", "LF", "Extend", "Sep", "Format", "Sp", "Lower", "Upper", "OLetter", "Numeric", "ATerm", "SContinue", "STerm", "Close"}

const MaxRune = 0x10FFFF

// Tables assign properties to every code point.
type Tables struct {
	G, I, W, S []Class
	Pict       []bool
}

func NewTables() *Tables {
	n := MaxRune + 1
	return &Tables{make([]Class, n), make([]Class, n), make([]Class, n), make([]Class, n), make([]bool, n)}
}

//go:embed data/ucd17.txt
var ucd17 string

func index(names []string) map[string]Class {
	m := map[string]Class{}
	for i, n := range names {
		m[n] = Class(i)
		m[strings.ReplaceAll(n, "_", "")] = Class(i)
	}
	return m
}

// Unicode17 returns the Unicode 17.0.0 tables.
var Unicode17 = sync.OnceValue(func() *Tables {
	t := NewTables()
	gi, ii, wi, si := index(GNames), index(INames), index(WNames), index(SNames)
	for _, line := range strings.Split(ucd17, "\n") {
		f := strings.Fields(line)
		if len(f) != 4 || f[0][0] == '#' {
			continue
		}
		lo, e1 := strconv.ParseInt(f[1], 16, 32)
		hi, e2 := strconv.ParseInt(f[2], 16, 32)
		if e1 != nil || e2 != nil {
			panic("ucd17: " + line)
		}
		for r := lo; r <= hi; r++ {
			ok := true
			var c Class
			switch f[0] {
			case "GCB":
				c, ok = gi[f[3]]
				t.G[r] = c
			case "InCB":
				c, ok = ii[f[3]]
				t.I[r] = c
			case "WB":
				c, ok = wi[f[3]]
				t.W[r] = c
			case "SB":
				c, ok = si[f[3]]
				t.S[r] = c
			case "ExtPict":
				t.Pict[r] = true
			default:
				ok = false
			}
			if !ok {
				panic("ucd17: " + line)
			}
		}
	}
	return t
})
