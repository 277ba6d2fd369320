// Package textgen draws texts from a seed: rule-shaped fragments, mixtures of
// a few property classes ("swarm" alphabets), ASCII-heavy prose, and damaged
// encodings.
package textgen

import (
	"sort"
	"unicode/utf8"

	"verif.local/sim/prng"
	"verif.local/sim/ref"
)

// Gen knows the code points of each class of a table set.
type Gen struct {
	T     *ref.Tables
	cells [][]rune // code points that agree in all properties
	big   []int    // cells that are rare or large alike
	g     [ref.NG][]rune
	w     [ref.NW][]rune
	s     [ref.NS][]rune
	incb  [ref.NI][]rune
	pict  []rune
	ascii []rune
}

// New indexes the tables; surrogates are never drawn.
func New(t *ref.Tables) *Gen {
	x := &Gen{T: t}
	type key struct {
		g, i, w, s ref.Class
		p          bool
	}
	m := map[key][]rune{}
	for r := rune(0); r <= ref.MaxRune; r++ {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		k := key{t.G[r], t.I[r], t.W[r], t.S[r], t.Pict[r]}
		m[k] = append(m[k], r)
		x.g[k.g] = append(x.g[k.g], r)
		x.w[k.w] = append(x.w[k.w], r)
		x.s[k.s] = append(x.s[k.s], r)
		x.incb[k.i] = append(x.incb[k.i], r)
		if k.p {
			x.pict = append(x.pict, r)
		}
	}
	for _, c := range m {
		x.cells = append(x.cells, c)
	}
	sort.Slice(x.cells, func(i, j int) bool { return x.cells[i][0] < x.cells[j][0] })
	for r := rune(0x20); r < 0x7f; r++ {
		x.ascii = append(x.ascii, r)
	}
	return x
}

// Cells returns the number of distinct property combinations.
func (x *Gen) Cells() int { return len(x.cells) }

// pick prefers low code points now and then, so that 1-, 2-, 3- and 4-byte
// encodings all occur.
func pick(r *prng.R, rs []rune) rune {
	if len(rs) == 0 {
		return 'a'
	}
	switch r.Intn(4) {
	case 0:
		return rs[0]
	case 1:
		n := len(rs)
		if n > 40 {
			n = 40
		}
		return rs[r.Intn(n)]
	}
	return rs[r.Intn(len(rs))]
}

func (x *Gen) W(r *prng.R, cs ...ref.Class) rune { return pick(r, x.w[cs[r.Intn(len(cs))]]) }
func (x *Gen) S(r *prng.R, cs ...ref.Class) rune { return pick(r, x.s[cs[r.Intn(len(cs))]]) }
func (x *Gen) G(r *prng.R, cs ...ref.Class) rune { return pick(r, x.g[cs[r.Intn(len(cs))]]) }
func (x *Gen) I(r *prng.R, c ref.Class) rune     { return pick(r, x.incb[c]) }
func (x *Gen) Pict(r *prng.R) rune               { return pick(r, x.pict) }
func (x *Gen) Cell(r *prng.R) rune               { return pick(r, x.cells[r.Intn(len(x.cells))]) }

func (x *Gen) wIgn(r *prng.R, max int) []rune {
	var o []rune
	for n := r.Intn(max + 1); n > 0; n-- {
		o = append(o, x.W(r, ref.WExtend, ref.WFormat, ref.WZWJ))
	}
	return o
}
func (x *Gen) sIgn(r *prng.R, max int) []rune {
	var o []rune
	for n := r.Intn(max + 1); n > 0; n-- {
		o = append(o, x.S(r, ref.SExtend, ref.SFormat))
	}
	return o
}

func cat(parts ...any) []rune {
	var o []rune
	for _, p := range parts {
		switch v := p.(type) {
		case rune:
			o = append(o, v)
		case []rune:
			o = append(o, v...)
		case string:
			o = append(o, []rune(v)...)
		}
	}
	return o
}

// fragW: word and phrase rule shapes.
func (x *Gen) fragW(r *prng.R) []rune {
	k := 2
	if r.P(1, 2) {
		k = 0
	}
	ign := func() []rune { return x.wIgn(r, k) }
	let := func() rune { return x.W(r, ref.WALetter, ref.WALetter, ref.WHebrew) }
	switch r.Intn(14) {
	case 0: // WB6/7
		return cat(let(), ign(), x.W(r, ref.WMidLetter, ref.WMidNumLet, ref.WSingleQuote), ign(), let())
	case 1: // WB11/12
		return cat(x.W(r, ref.WNumeric), ign(), x.W(r, ref.WMidNum, ref.WMidNumLet, ref.WSingleQuote), ign(), x.W(r, ref.WNumeric))
	case 2: // WB7a-c
		return cat(x.W(r, ref.WHebrew), ign(), x.W(r, ref.WDoubleQuote, ref.WSingleQuote), ign(), x.W(r, ref.WHebrew, ref.WALetter))
	case 3: // WB8-10
		return cat(x.W(r, ref.WNumeric, ref.WALetter), ign(), x.W(r, ref.WNumeric, ref.WALetter))
	case 4:
		return cat(x.W(r, ref.WKatakana), ign(), x.W(r, ref.WKatakana, ref.WExtendNumLet))
	case 5:
		return cat(x.W(r, ref.WALetter, ref.WNumeric, ref.WKatakana), ign(), x.W(r, ref.WExtendNumLet), ign(), x.W(r, ref.WALetter, ref.WNumeric, ref.WKatakana))
	case 6:
		var o []rune
		for n := r.Range(1, 6); n > 0; n-- {
			o = append(o, x.W(r, ref.WRI))
			o = append(o, ign()...)
		}
		return o
	case 7:
		return cat(x.Pict(r), x.wIgn(r, 2), x.W(r, ref.WZWJ), x.Pict(r))
	case 8:
		return cat(x.W(r, ref.WSegSpace), ign(), x.W(r, ref.WSegSpace))
	case 9:
		return cat(x.W(r, ref.WCR, ref.WLF, ref.WNewline), x.W(r, ref.WCR, ref.WLF, ref.WNewline))
	case 10: // a rule cut short by something else
		return cat(let(), ign(), x.W(r, ref.WMidLetter, ref.WMidNumLet, ref.WSingleQuote), ign(), x.Cell(r))
	case 11:
		return cat(x.W(r, ref.WNumeric), ign(), x.W(r, ref.WMidNum, ref.WMidNumLet, ref.WSingleQuote), ign(), x.Cell(r))
	case 12:
		return cat(x.W(r, ref.WALetter, ref.WNumeric, ref.WKatakana), ign(), x.W(r, ref.WSegSpace), ign(), x.W(r, ref.WALetter, ref.WNumeric), x.Pict(r))
	}
	return cat(let(), x.W(r, ref.WNumeric), x.W(r, ref.WMidNum, ref.WMidLetter, ref.WMidNumLet), x.W(r, ref.WNumeric, ref.WALetter))
}

func (x *Gen) fragS(r *prng.R) []rune {
	k := 2
	if r.P(1, 2) {
		k = 0
	}
	ign := func() []rune { return x.sIgn(r, k) }
	rep := func(c ref.Class, max int) []rune {
		var o []rune
		for n := r.Intn(max + 1); n > 0; n-- {
			o = append(o, x.S(r, c))
			o = append(o, ign()...)
		}
		return o
	}
	let := func() rune { return x.S(r, ref.SUpper, ref.SLower, ref.SOLetter, ref.SNumeric) }
	switch r.Intn(10) {
	case 0: // SB6
		return cat(let(), ign(), x.S(r, ref.SATerm), ign(), x.S(r, ref.SNumeric))
	case 1: // SB7
		return cat(x.S(r, ref.SUpper, ref.SLower), ign(), x.S(r, ref.SATerm), ign(), x.S(r, ref.SUpper))
	case 2: // SB8
		o := cat(let(), x.S(r, ref.SATerm), ign(), rep(ref.SClose, 2), rep(ref.SSp, 2))
		for n := r.Intn(4); n > 0; n-- {
			o = append(o, x.S(r, ref.SOther, ref.SNumeric, ref.SSContinue, ref.SClose, ref.SSp, ref.SExtend))
		}
		return cat(o, x.S(r, ref.SLower, ref.SUpper, ref.SOLetter, ref.SSep, ref.SSTerm))
	case 3: // SB8a
		return cat(x.S(r, ref.SATerm, ref.SSTerm), rep(ref.SClose, 1), rep(ref.SSp, 1), x.S(r, ref.SSContinue, ref.SATerm, ref.SSTerm))
	case 4: // SB9/10/11
		return cat(let(), x.S(r, ref.SATerm, ref.SSTerm), ign(), rep(ref.SClose, 2), rep(ref.SSp, 3), x.S(r, ref.SSep, ref.SCR, ref.SLF, ref.SUpper, ref.SOther))
	case 5:
		return cat(x.S(r, ref.SCR, ref.SLF, ref.SSep), x.S(r, ref.SCR, ref.SLF, ref.SSep))
	case 6:
		return cat(x.S(r, ref.SSep, ref.SCR, ref.SLF), x.sIgn(r, 2), x.S(r, ref.SATerm), let())
	case 7:
		return cat(x.S(r, ref.SATerm), rep(ref.SSp, 1), x.S(r, ref.SClose), rep(ref.SSp, 2), x.S(r, ref.SUpper, ref.SLower))
	case 8:
		return cat(let(), ign(), let(), ign(), " ", let())
	}
	return cat(x.S(r, ref.SUpper, ref.SLower), x.S(r, ref.SSTerm, ref.SATerm), rep(ref.SClose, 1), x.S(r, ref.SSp), x.S(r, ref.SLower, ref.SUpper))
}

func (x *Gen) fragG(r *prng.R) []rune {
	ext := func(max int) []rune {
		var o []rune
		for n := r.Intn(max + 1); n > 0; n-- {
			o = append(o, x.G(r, ref.GExtend))
		}
		return o
	}
	switch r.Intn(10) {
	case 0: // Hangul
		return cat(x.G(r, ref.GL, ref.GLV, ref.GLVT, ref.GV, ref.GT), x.G(r, ref.GL, ref.GV, ref.GLV, ref.GLVT, ref.GT), x.G(r, ref.GV, ref.GT))
	case 1: // GB9c
		o := cat(x.I(r, ref.IConsonant))
		for n := r.Intn(4); n > 0; n-- {
			o = append(o, x.I(r, pick2(r, ref.ILinker, ref.IExtend)))
		}
		return cat(o, x.I(r, ref.IConsonant))
	case 2:
		return cat(x.I(r, ref.IConsonant), x.I(r, ref.ILinker), x.I(r, ref.IConsonant), x.I(r, pick2(r, ref.ILinker, ref.IExtend)), x.I(r, ref.IConsonant))
	case 3: // GB11
		return cat(x.Pict(r), ext(2), x.G(r, ref.GZWJ), x.Pict(r))
	case 4:
		return cat(x.Pict(r), x.G(r, ref.GZWJ), x.G(r, ref.GZWJ, ref.GExtend), x.Pict(r))
	case 5:
		var o []rune
		for n := r.Range(1, 7); n > 0; n-- {
			o = append(o, x.G(r, ref.GRI))
		}
		if r.P(1, 2) {
			i := r.Intn(len(o))
			o[i] = x.G(r, ref.GZWJ, ref.GExtend)
		}
		return o
	case 6:
		return cat(x.G(r, ref.GCR, ref.GLF, ref.GControl), x.G(r, ref.GCR, ref.GLF, ref.GControl, ref.GExtend))
	case 7:
		return cat(x.G(r, ref.GPrepend), x.G(r, ref.GPrepend, ref.GL, ref.GOther, ref.GRI, ref.GControl), ext(1))
	case 8:
		return cat(x.Cell(r), ext(2), x.G(r, ref.GSpacingMark, ref.GExtend, ref.GZWJ))
	}
	return cat('a'+rune(r.Intn(26)), ext(1), 'a'+rune(r.Intn(26)))
}

func pick2(r *prng.R, a, b ref.Class) ref.Class {
	if r.P(1, 2) {
		return a
	}
	return b
}

// Frag is one rule-shaped fragment for the kind (now and then another kind's).
func (x *Gen) Frag(r *prng.R, k ref.Kind) []rune {
	if r.P(1, 8) {
		k = ref.Kind(r.Intn(int(ref.NKinds)))
	}
	switch k {
	case ref.Graphemes:
		return x.fragG(r)
	case ref.Sentences:
		return x.fragS(r)
	}
	return x.fragW(r)
}

var prose = []string{
	"Hello, 世界. Nice dog! 👍🐶 ", "Mr. Smith went to D.C. on 3.14.2020 at 3:45 p.m. ", "don't stop—it's 1,234.56 \"ok\" ", "etc.) (the end? No. ",
	"e-mail me@example.com #tag $1.50\r\n", "क्षत्रिय ज्ञान ", "נב״ת ג'וק ", "カタカナ_ひらがな漢字 ", "🇬🇧🇫🇷🇺 👩‍👩‍👧‍👦 ", "각 한글 ", "a\u0308\u0301b c\u00adx ", "Go 1.27 is out\u2029Really. ok\u0085",
	"ACCÉNTÉD  words\t tab ", "x_y 12_34 ", "ab12cd 34ef ", " \u3000\u2003 ",
}

// Text draws a valid UTF-8 text of about n characters suited to the kind.
func (x *Gen) Text(r *prng.R, k ref.Kind, n int) []byte {
	var o []rune
	mode := r.Weighted(5, 4, 3, 2, 2)
	var alpha []rune
	for i := r.Range(2, 9); i > 0; i-- {
		alpha = append(alpha, x.Cell(r))
	}
	for i := r.Intn(4); i > 0; i-- {
		alpha = append(alpha, x.Frag(r, k)...)
	}
	for len(o) < n {
		switch mode {
		case 0: // rule shapes with glue
			o = append(o, x.Frag(r, k)...)
			if r.P(1, 3) {
				o = append(o, x.Cell(r))
			}
			if r.P(1, 4) {
				o = append(o, ' ')
			}
		case 1: // swarm alphabet
			o = append(o, prng.Pick(r, alpha))
		case 2: // ASCII runs around rule shapes
			for m := r.Geom(4); m > 0; m-- {
				switch r.Intn(6) {
				case 0:
					o = append(o, ' ')
				case 1:
					o = append(o, '0'+rune(r.Intn(10)))
				case 2:
					o = append(o, prng.Pick(r, x.ascii))
				default:
					o = append(o, 'a'+rune(r.Intn(26)))
				}
			}
			if r.P(1, 2) {
				o = append(o, x.Frag(r, k)...)
			}
		case 3:
			o = append(o, []rune(prng.Pick(r, prose))...)
			if r.P(1, 2) {
				o = append(o, x.Frag(r, k)...)
			}
		case 4: // mixture of everything
			switch r.Intn(3) {
			case 0:
				o = append(o, x.Cell(r))
			case 1:
				o = append(o, prng.Pick(r, alpha))
			default:
				o = append(o, prng.Pick(r, x.ascii))
			}
		}
	}
	if len(o) > n && r.P(2, 3) {
		o = o[:n]
	}
	if r.P(1, 10) {
		o = x.stretch(r, k, o)
	}
	return []byte(string(o))
}

// stretch repeats a short stretch of the text, or ignorable characters inside
// it, often enough to pass any bounded look-ahead, look-back or small counter.
func (x *Gen) stretch(r *prng.R, k ref.Kind, o []rune) []rune {
	i := r.Intn(len(o))
	seg := append([]rune(nil), o[i:min(len(o), i+r.Range(1, 4))]...)
	if r.P(1, 2) {
		switch k {
		case ref.Graphemes:
			seg = cat(pick2r(r, x.G(r, ref.GExtend, ref.GZWJ, ref.GRI), x.I(r, pick2(r, ref.ILinker, ref.IExtend))))
		case ref.Sentences:
			seg = cat(x.S(r, ref.SExtend, ref.SFormat, ref.SClose, ref.SSp, ref.SOther, ref.SNumeric))
		default:
			seg = cat(x.W(r, ref.WExtend, ref.WFormat, ref.WZWJ, ref.WRI, ref.WExtendNumLet))
		}
	}
	n := r.Range(8, 40)
	switch r.Weighted(26, 9, 1) {
	case 1:
		n = r.Range(41, 300)
	case 2:
		n = r.Range(300, 1500)
	}
	if r.P(1, 3) { // inside the shape of a rule
		f := x.Frag(r, k)
		o = append(append(append([]rune(nil), o[:i]...), f...), o[i:]...)
		i += r.Intn(len(f) + 1)
	}
	var ins []rune
	for ; n > 0; n-- {
		ins = append(ins, seg...)
	}
	return append(append(append([]rune(nil), o[:i]...), ins...), o[i:]...)
}

// Amplify repeats prefixes of b, each cut at a character and followed by two
// line feeds (so that no token grows with the text), up to n bytes.
func Amplify(r *prng.R, b []byte, n int) []byte {
	if len(b) == 0 {
		b = []byte("x ")
	}
	o := make([]byte, 0, n+len(b)+2)
	for len(o) < n {
		e := len(b)
		if r.P(1, 2) {
			for e = r.Range(1, len(b)); e < len(b) && !utf8.RuneStart(b[e]); e++ {
			}
		}
		o = append(append(o, b[:e]...), "\n\n"...)
	}
	return append(o, b...)
}

// LongToken puts a run of n bytes that belongs to one token inside b.
func (x *Gen) LongToken(r *prng.R, k ref.Kind, b []byte, n int) []byte {
	var alpha []rune
	for m := r.Range(1, 4); m > 0; m-- {
		switch k {
		case ref.Graphemes:
			alpha = append(alpha, x.G(r, ref.GExtend, ref.GZWJ))
		case ref.Sentences:
			alpha = append(alpha, x.S(r, ref.SOther, ref.SLower, ref.SExtend, ref.SNumeric, ref.SOLetter))
		default:
			alpha = append(alpha, x.W(r, ref.WALetter, ref.WNumeric, ref.WHebrew, ref.WExtendNumLet))
		}
	}
	if r.P(1, 3) && k != ref.Graphemes {
		alpha = []rune{'a' + rune(r.Intn(26))}
	}
	var pre, post []rune
	if r.P(1, 2) {
		pre, alpha, post = x.farLook(r, k)
	}
	at := r.Intn(len(b) + 1)
	if r.P(1, 2) {
		at = 0
	}
	for at < len(b) && !utf8.RuneStart(b[at]) {
		at++
	}
	mid := []byte(string(pre))
	for len(mid) < n {
		mid = utf8.AppendRune(mid, prng.Pick(r, alpha))
	}
	mid = append(mid, string(post)...)
	return append(append(append([]byte(nil), b[:at]...), mid...), b[at:]...)
}

// farLook is a rule that looks over any number of characters: what comes
// before them, the characters, and what comes after them.
func (x *Gen) farLook(r *prng.R, k ref.Kind) (pre, over, post []rune) {
	switch k {
	case ref.Graphemes:
		if r.P(1, 2) { // GB9c
			c := func() rune { return x.I(r, ref.IConsonant) }
			return cat(c(), x.I(r, ref.ILinker)), cat(x.I(r, ref.IExtend)), cat(c())
		}
		return cat(x.Pict(r)), cat(x.G(r, ref.GExtend)), cat(x.G(r, ref.GZWJ), x.Pict(r)) // GB11
	case ref.Sentences: // SB8
		return cat(x.S(r, ref.SATerm), ' '), cat(x.S(r, ref.SNumeric, ref.SOther), x.S(r, ref.SSContinue, ref.SSp, ref.SClose, ref.SExtend)), cat(x.S(r, ref.SLower, ref.SLower, ref.SUpper))
	}
	over = cat(x.W(r, ref.WExtend, ref.WFormat), x.W(r, ref.WExtend, ref.WFormat, ref.WZWJ))
	switch r.Intn(4) {
	case 0: // WB11, WB12
		return cat(x.W(r, ref.WNumeric), x.W(r, ref.WMidNum, ref.WMidNumLet, ref.WSingleQuote)), over, cat(x.W(r, ref.WNumeric))
	case 1: // WB7b, WB7c
		return cat(x.W(r, ref.WHebrew), x.W(r, ref.WDoubleQuote)), over, cat(x.W(r, ref.WHebrew))
	case 2: // WB13, WB15
		c := pick2(r, ref.WKatakana, ref.WRI)
		return cat(x.W(r, c)), over, cat(x.W(r, c))
	}
	return cat(x.W(r, ref.WALetter, ref.WHebrew), x.W(r, ref.WMidLetter, ref.WMidNumLet, ref.WSingleQuote)), over, cat(x.W(r, ref.WALetter, ref.WHebrew)) // WB6, WB7
}

// Large draws a size beyond what 8, 12, 15 or 16 bits (or any default buffer) hold.
func Large(r *prng.R) int {
	switch r.Intn(4) {
	case 0:
		return r.Range(4000, 20000)
	case 1:
		return r.Range(32000, 70000)
	}
	return r.Range(65000, 150000)
}

func pick2r(r *prng.R, a, b rune) rune {
	if r.P(1, 2) {
		return a
	}
	return b
}

// Length draws a text length in characters: mostly short, some long.
func Length(r *prng.R, max int) int {
	switch r.Weighted(6, 3, 1) {
	case 0:
		return r.Range(1, min(12, max))
	case 1:
		return r.Range(1, min(60, max))
	}
	return r.Range(1, max)
}

var nasty = [][]byte{{0xff}, {0xfe}, {0x80}, {0xbf}, {0xc0, 0x80}, {0xc1, 0xbf}, {0xe0, 0x80, 0x80}, {0xe0, 0x9f, 0xbf}, {0xed, 0xa0, 0x80}, {0xed, 0xbf, 0xbf},
	{0xf0, 0x80, 0x80, 0x80}, {0xf4, 0x90, 0x80, 0x80}, {0xf5, 0x80, 0x80, 0x80}, {0xf8, 0x88, 0x80, 0x80, 0x80}, {0xe2, 0x82}, {0xe2}, {0xf0, 0x9f}, {0xf0, 0x9f, 0x98}, {0xf0}, {0xc3}, {0xef, 0xbf, 0xbd}, {0xf0, 0x9f, 'a'}, {0xe2, 'b'}}

// Fault kinds used by Corrupt.
var CorruptKinds = []string{"bitflip", "byte_lost", "byte_duplicated", "range_lost", "range_duplicated", "byte_swapped", "garbage_inserted", "torn_tail"}

// Corrupt damages text the way a transfer or a disk does; it returns the
// names of the faults that were applied.
func Corrupt(r *prng.R, b []byte) ([]byte, []string) {
	b = append([]byte(nil), b...)
	var kinds []string
	for n := r.Range(1, 4); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		p := r.Intn(len(b))
		if r.P(1, 2) { // prefer multi-byte characters
			for i := 0; i < 8 && b[p] < utf8.RuneSelf; i++ {
				p = r.Intn(len(b))
			}
		}
		k := r.Intn(len(CorruptKinds))
		switch k {
		case 0:
			b[p] ^= 1 << r.Intn(8)
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b = append(b[:p+1], b[p:]...)
		case 3:
			q := min(len(b), p+r.Range(1, 6))
			b = append(b[:p], b[q:]...)
		case 4:
			q := min(len(b), p+r.Range(1, 6))
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 5:
			q := r.Intn(len(b))
			b[p], b[q] = b[q], b[p]
		case 6:
			g := prng.Pick(r, nasty)
			b = append(b[:p], append(append([]byte(nil), g...), b[p:]...)...)
		case 7:
			b = b[:len(b)-r.Intn(min(4, len(b)))]
		}
		kinds = append(kinds, CorruptKinds[k])
	}
	return b, kinds
}

// Garbage draws arbitrary bytes.
func Garbage(r *prng.R, n int) []byte {
	b := make([]byte, 0, n)
	mode := r.Intn(3)
	for len(b) < n {
		switch {
		case mode == 0:
			b = append(b, byte(r.Uint64()))
		case mode == 1:
			b = append(b, byte(0x80+r.Intn(128)))
		default:
			b = append(b, prng.Pick(r, nasty)...)
			if r.P(1, 3) {
				b = append(b, byte(0x20+r.Intn(95)))
			}
		}
	}
	return b
}
