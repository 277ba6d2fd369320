// Package ucdgen draws assignments of segmentation properties to code points
// and renders them as Unicode data files.
package ucdgen

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"

	"verif.local/sim/prng"
	"verif.local/sim/ref"
)

// Assignment describes one set of tables, by seed.
type Assignment struct {
	Seed   uint64 `json:"seed"`
	Shape  string `json:"shape"`  // real, shift, sparse, blocks, dense, wide, planes
	Ranges int    `json:"ranges"` // how many ranges are drawn
	Style  uint64 `json:"style"`  // how the files are laid out
	Tests  int    `json:"tests"`  // lines per break test file
	Bulk   bool   `json:"bulk"`   // files are as large as the published ones, or larger
}

type tuple struct {
	g, i, w, s ref.Class
	p          bool
}

var real = sync.OnceValue(func() []tuple {
	t := ref.Unicode17()
	m := map[tuple]bool{}
	for r := rune(0x80); r <= ref.MaxRune; r++ {
		c := at(t, r)
		m[c] = true
	}
	var o []tuple
	for c := range m {
		o = append(o, c)
	}
	sort.Slice(o, func(i, j int) bool { return fmt.Sprint(o[i]) < fmt.Sprint(o[j]) })
	return o
})

func at(t *ref.Tables, r rune) tuple { return tuple{t.G[r], t.I[r], t.W[r], t.S[r], t.Pict[r]} }

func set(t *ref.Tables, r rune, c tuple) {
	if r < 0x80 || r > ref.MaxRune || r >= 0xD800 && r <= 0xDFFF {
		return // ASCII stays as in Unicode; surrogates have no properties
	}
	t.G[r], t.I[r], t.W[r], t.S[r], t.Pict[r] = c.g, c.i, c.w, c.s, c.p
}

var edges = []rune{0x80, 0xBF, 0xC0, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF}

// Tables draws the tables.  Code points get combinations of properties that
// occur in Unicode (outside ASCII), so relations between the properties hold;
// every combination is used at least once.
func (a Assignment) Tables() *ref.Tables {
	r := prng.New(a.Seed)
	u := ref.Unicode17()
	t := ref.NewTables()
	for c := rune(0); c < 0x80; c++ {
		t.G[c], t.I[c], t.W[c], t.S[c], t.Pict[c] = u.G[c], u.I[c], u.W[c], u.S[c], u.Pict[c]
	}
	cs := real()
	if a.Shape == "real" || a.Shape == "shift" {
		d := rune(0)
		if a.Shape == "shift" {
			d = rune(1 + r.Geom(300))
		}
		for c := rune(0x80); c <= ref.MaxRune; c++ {
			if c-d >= 0x80 {
				set(t, c, at(u, c-d))
			}
		}
	}
	place := func() rune {
		switch r.Intn(6) {
		case 0:
			return edges[r.Intn(len(edges))] - rune(r.Intn(3))
		case 1:
			return rune(0x80 + r.Intn(0x780))
		case 2:
			return rune(r.Intn(ref.MaxRune + 1))
		case 3:
			return rune(r.Intn(ref.MaxRune+1)) &^ 63
		default:
			return rune(0x80 + r.Intn(0x1F000))
		}
	}
	length := func() int {
		switch a.Shape {
		case "planes": // up to all of the code space
			return 1 + r.Intn(1<<r.Range(12, 20))
		case "wide":
			return 1 + r.Geom(1<<r.Range(1, 14))
		case "dense":
			return 1 + r.Geom(6)
		case "blocks":
			return 64 * (1 + r.Geom(3))
		}
		return 1 + r.Geom(1<<r.Range(0, 6))
	}
	sub := cs
	if r.P(1, 2) { // few combinations, many equal blocks
		sub = nil
		for n := r.Range(2, 8); n > 0; n-- {
			sub = append(sub, cs[r.Intn(len(cs))])
		}
	}
	start := place()
	for i := 0; i < a.Ranges; i++ {
		n := length()
		lo := start
		switch a.Shape {
		case "dense":
			start += rune(n)
			if start > ref.MaxRune || r.P(1, 400) {
				start = place()
			}
		default:
			start = place()
		}
		if a.Shape == "blocks" {
			lo &^= 63
			if r.P(1, 3) { // copy a block elsewhere, perhaps with one difference
				from := place() &^ 63
				for k := rune(0); k < 64; k++ {
					if from+k <= ref.MaxRune && from+k >= 0x80 {
						set(t, lo+k, at(t, from+k))
					}
				}
				if r.P(1, 2) {
					set(t, lo+rune(r.Intn(64)), cs[r.Intn(len(cs))])
				}
				continue
			}
		}
		c := sub[r.Intn(len(sub))]
		for k := 0; k < n; k++ {
			set(t, lo+rune(k), c)
		}
	}
	for _, c := range cs { // nothing is empty
		for tries := 0; ; tries++ {
			x := place()
			if x < 0x80 || x > ref.MaxRune || x >= 0xD800 && x <= 0xDFFF {
				continue
			}
			set(t, x, c)
			break
		}
	}
	// a combination may have overwritten the last code point of another one
	need := [5]map[int]rune{}
	for i := range need {
		need[i] = map[int]rune{}
	}
	for c := rune(0); c <= ref.MaxRune; c++ {
		need[0][int(t.G[c])] = c
		need[1][int(t.I[c])] = c
		need[2][int(t.W[c])] = c
		need[3][int(t.S[c])] = c
		if t.Pict[c] {
			need[4][1] = c
		}
	}
	for i, n := range []int{int(ref.NG), int(ref.NI), int(ref.NW), int(ref.NS)} {
		for k := 0; k < n; k++ {
			if _, ok := need[i][k]; ok {
				continue
			}
			for x := rune(0xF0000); ; x++ {
				for _, c := range cs {
					if v := []ref.Class{c.g, c.i, c.w, c.s}[i]; int(v) == k {
						set(t, x+rune(100*i+k), c)
						break
					}
				}
				break
			}
		}
	}
	return t
}

const base = "https://www.unicode.org/Public/17.0.0/ucd/"

// File names, relative to the base.
const (
	Emoji    = base + "emoji/emoji-data.txt"
	Core     = base + "DerivedCoreProperties.txt"
	Word     = base + "auxiliary/WordBreakProperty.txt"
	Grapheme = base + "auxiliary/GraphemeBreakProperty.txt"
	Sentence = base + "auxiliary/SentenceBreakProperty.txt"
	WordT    = base + "auxiliary/WordBreakTest.txt"
	GraphT   = base + "auxiliary/GraphemeBreakTest.txt"
	SentT    = base + "auxiliary/SentenceBreakTest.txt"
)

// URLs lists them in the order of the generator's requests.
var URLs = []string{Emoji, Core, Word, WordT, Grapheme, GraphT, Sentence, SentT}

type span struct {
	lo, hi rune
	v      string
}

type layout struct {
	r      *prng.R
	split  int  // now and then (once in so many code points) two adjacent ranges where one would do
	mixed  bool // lines of all values in code point order instead of value by value
	shuf   bool // in no order
	tight  bool // no optional white space
	detail bool // comments and blank lines
	bulk   bool // long comments
}

func (l *layout) spans(value func(rune) string) []span {
	var o []span
	for c := rune(0); c <= ref.MaxRune; c++ {
		v := value(c)
		if v == "" {
			continue
		}
		if n := len(o) - 1; n >= 0 && o[n].v == v && o[n].hi == c-1 && !(l.split > 0 && l.r.P(1, l.split)) {
			o[n].hi = c
			continue
		}
		o = append(o, span{c, c, v})
	}
	return o
}

func (l *layout) write(b *bytes.Buffer, name string, spans []span, count int) {
	fmt.Fprintf(b, "# %s\n# Date: 2025-06-30, 06:11:37 GMT\n# © 2025 Unicode®, Inc.\n#\n", name)
	if l.detail {
		fmt.Fprintf(b, "# Property: x # y ; z\n\n# @missing: 0000..10FFFF; Other\n\n# ================================================\n\n")
	}
	switch {
	case l.shuf:
		l.r.Shuffle(len(spans), func(i, j int) { spans[i], spans[j] = spans[j], spans[i] })
	case !l.mixed:
		order := map[string]int{}
		for _, s := range spans {
			if _, ok := order[s.v]; !ok {
				order[s.v] = len(order)
			}
		}
		sort.SliceStable(spans, func(i, j int) bool { return order[spans[i].v] < order[spans[j].v] })
	}
	last := ""
	for _, s := range spans {
		if s.v != last && last != "" && !l.mixed && !l.shuf && l.detail {
			fmt.Fprintf(b, "\n# Total code points: %d\n\n# ================================================\n\n", count)
		}
		last = s.v
		cp := fmt.Sprintf("%04X..%04X", s.lo, s.hi)
		if s.lo == s.hi && !l.r.P(1, 50) {
			cp = fmt.Sprintf("%04X", s.lo)
		}
		switch {
		case l.bulk:
			fmt.Fprintf(b, "%-14s; %s # Lo  [%d] %s\n", cp, s.v, s.hi-s.lo+1, strings.Repeat("LATIN SMALL LETTER ", 1+l.r.Intn(8)))
		case l.tight:
			fmt.Fprintf(b, "%s;%s# c\n", cp, s.v)
		case l.detail:
			fmt.Fprintf(b, "%-14s; %s # Lo  [%d] A; B..C # D\n", cp, s.v, s.hi-s.lo+1)
		default:
			fmt.Fprintf(b, "%-14s; %s # %d\n", cp, s.v, s.hi-s.lo+1)
		}
	}
	switch l.r.Intn(6) {
	case 0: // the last data line ends with the file
		b.Truncate(b.Len() - 1)
	case 1:
	default:
		fmt.Fprintf(b, "# EOF\n")
	}
}

// Files renders the data files.
func (a Assignment) Files(t *ref.Tables) map[string][]byte {
	r := prng.New(prng.Mix(a.Style, 77))
	out := map[string][]byte{}
	lay := func() *layout {
		l := &layout{r: r, detail: r.P(1, 2), tight: r.P(1, 4)}
		if r.P(1, 2) {
			l.split = prng.Pick(r, []int{24, 24, 20000})
		}
		l.bulk = a.Bulk && r.P(2, 3)
		switch r.Intn(4) {
		case 0:
			l.mixed = true
		case 1:
			l.shuf = true
		}
		return l
	}
	file := func(url, name string, fill func(l *layout) []span) {
		var b bytes.Buffer
		l := lay()
		l.write(&b, name, fill(l), 7)
		out[url] = b.Bytes()
	}
	class := func(names []string, cs []ref.Class) func(l *layout) []span {
		return func(l *layout) []span {
			return l.spans(func(c rune) string {
				if cs[c] == 0 {
					return ""
				}
				return names[cs[c]]
			})
		}
	}
	file(Grapheme, "GraphemeBreakProperty-17.0.0.txt", class(ref.GNames, t.G))
	file(Word, "WordBreakProperty-17.0.0.txt", class(ref.WNames, t.W))
	file(Sentence, "SentenceBreakProperty-17.0.0.txt", class(ref.SNames, t.S))
	file(Emoji, "emoji-data.txt", func(l *layout) []span {
		o := l.spans(func(c rune) string {
			if t.Pict[c] {
				return "Extended_Pictographic"
			}
			return ""
		})
		// other emoji properties, with different extents
		for _, n := range []string{"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Component"} {
			for k := r.Intn(12); k > 0; k-- {
				lo := rune(0xA0 + r.Intn(0x1F000))
				o = append(o, span{lo, lo + rune(r.Intn(20)), n})
			}
		}
		return o
	})
	file(Core, "DerivedCoreProperties-17.0.0.txt", func(l *layout) []span {
		o := l.spans(func(c rune) string {
			if t.I[c] == 0 {
				return ""
			}
			if l.tight {
				return "InCB;" + ref.INames[t.I[c]]
			}
			return "InCB; " + ref.INames[t.I[c]]
		})
		var other []span
		for _, n := range []string{"Alphabetic", "XID_Start", "Grapheme_Extend", "Default_Ignorable_Code_Point"} {
			k := r.Intn(12)
			if a.Bulk {
				k = r.Range(1500, 9000)
			}
			for ; k > 0; k-- {
				lo := rune(0xA0 + r.Intn(0x1F000))
				other = append(other, span{lo, lo + rune(r.Intn(20)), n})
			}
		}
		if a.Bulk || r.P(1, 2) { // as published: Indic_Conjunct_Break last
			return append(other, o...)
		}
		return append(o, other...)
	})
	tests := func(url, name string, k ref.Kind) {
		var b bytes.Buffer
		fmt.Fprintf(&b, "# %s\n# Default %s Break Test\n#\n", name, k)
		for i := 0; i < a.Tests; i++ {
			var rs []rune
			for n := r.Range(1, 5); n > 0; n-- {
				x := rune(0x20 + r.Intn(0x2FF0))
				if r.P(1, 5) {
					x = rune(0x10000 + r.Intn(0x10000))
				}
				rs = append(rs, x)
			}
			text := []byte(string(rs))
			cuts := ref.Analyse(k, t, text, nil).Cuts()
			is := map[int]bool{0: true}
			for _, c := range cuts {
				is[c] = true
			}
			at := 0
			for _, x := range rs {
				m := "×"
				if is[at] {
					m = "÷"
				}
				fmt.Fprintf(&b, "%s %04X ", m, x)
				at += len(string(x))
			}
			fmt.Fprintf(&b, "÷\t#  ÷ [0.2] test %d ÷ [0.3]\n", i)
		}
		fmt.Fprintf(&b, "#\n# Lines: %d\n#\n# EOF\n", a.Tests)
		out[url] = b.Bytes()
	}
	tests(WordT, "WordBreakTest-17.0.0.txt", ref.Words)
	tests(GraphT, "GraphemeBreakTest-17.0.0.txt", ref.Graphemes)
	tests(SentT, "SentenceBreakTest-17.0.0.txt", ref.Sentences)
	return out
}
