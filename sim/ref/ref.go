package ref

import "unicode/utf8"

// Kind of segmentation.
type Kind int

const (
	Graphemes Kind = iota
	Words
	Sentences
	Phrases
	NKinds
)

func (k Kind) String() string {
	return [...]string{"graphemes", "words", "sentences", "phrases"}[k]
}

// Joiners as documented: see property C07.
// Joiners are joiner characters; Nil is a nil configuration, which is none.
type Joiners struct {
	Middle, Leading []rune
	Nil             bool `json:",omitempty"`
}

func has(rs []rune, r rune) bool {
	for _, x := range rs {
		if x == r {
			return true
		}
	}
	return false
}

// Analysis of one complete text.
type Analysis struct {
	N     int    // characters
	Off   []int  // byte offset of character i; Off[N] is the length
	Break []bool // Break[i]: there is a boundary before character i (0 and N included)
	// Reach[i]: the decision at i is determined once Reach[i] characters of the
	// text are visible; N+1 means only the end of the text determines it.
	Reach []int
	Rule  []uint8 // which rule decided (an index into RuleNames)
}

// Cuts returns the byte offsets of all boundaries, 0 excluded.
func (a *Analysis) Cuts() []int {
	var c []int
	for i := 1; i <= a.N; i++ {
		if a.Break[i] {
			c = append(c, a.Off[i])
		}
	}
	return c
}

// Need returns, for each token, how many bytes of the text must have been
// seen to determine its end; a value of len(text)+1 means the end of the text.
func (a *Analysis) Need() []int {
	var need []int
	m := 0
	for i := 1; i <= a.N; i++ {
		if i < a.N && a.Reach[i] > m {
			m = a.Reach[i]
		}
		if a.Break[i] {
			switch {
			case i == a.N || m > a.N:
				need = append(need, a.Off[a.N]+1)
			default:
				need = append(need, a.Off[m])
			}
			m = 0
		}
	}
	return need
}

// Analyse segments a valid UTF-8 text.
func Analyse(k Kind, t *Tables, text []byte, jo *Joiners) *Analysis {
	rs := make([]rune, 0, len(text))
	off := make([]int, 0, len(text)+1)
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRune(text[i:])
		rs = append(rs, r)
		off = append(off, i)
		i += w
	}
	off = append(off, len(text))
	n := len(rs)
	a := &Analysis{N: n, Off: off, Break: make([]bool, n+1), Reach: make([]int, n+1), Rule: make([]uint8, n+1)}
	if n == 0 {
		return a
	}
	a.Break[0], a.Break[n] = true, true
	switch k {
	case Graphemes:
		a.graphemes(t, rs)
	case Words:
		a.words(t, rs, false, jo)
	case Phrases:
		a.words(t, rs, true, nil)
	case Sentences:
		a.sentences(t, rs)
	}
	return a
}

// Rules, numbered for coverage accounting.
const (
	rNone = iota
	GB3
	GB4
	GB5
	GB6
	GB7
	GB8
	GB9
	GB9a
	GB9b
	GB9c
	GB11
	GB12
	GB999
	WB3
	WB3a
	WB3b
	WB3c
	WB3d
	WB4
	WB5
	WB6
	WB7
	WB7a
	WB7b
	WB7c
	WB8
	WB9
	WB10
	WB11
	WB12
	WB13
	WB13a
	WB13b
	WB15
	WB999
	PSpace
	SB3
	SB4
	SB5
	SB6
	SB7
	SB8
	SB8a
	SB9
	SB10
	SB11
	SB998
	NRules
)

var RuleNames = [NRules]string{"", "GB3", "GB4", "GB5", "GB6", "GB7", "GB8", "GB9", "GB9a", "GB9b", "GB9c", "GB11", "GB12/13", "GB999",
	"WB3", "WB3a", "WB3b", "WB3c", "WB3d", "WB4", "WB5", "WB6", "WB7", "WB7a", "WB7b", "WB7c", "WB8", "WB9", "WB10", "WB11", "WB12", "WB13", "WB13a", "WB13b", "WB15/16", "WB999", "phrase-space",
	"SB3", "SB4", "SB5", "SB6", "SB7", "SB8", "SB8a", "SB9", "SB10", "SB11", "SB998"}

func (a *Analysis) set(i int, brk bool, rule uint8) {
	a.Break[i] = brk
	a.Rule[i] = rule
	if a.Reach[i] == 0 {
		a.Reach[i] = i + 1
	}
}

func (a *Analysis) graphemes(t *Tables, rs []rune) {
	g := func(i int) Class { return t.G[rs[i]] }
	ctl := func(c Class) bool { return c == GControl || c == GCR || c == GLF }
	ris := 0 // regional indicators directly before i
	for i := 1; i < a.N; i++ {
		last, cur := g(i-1), g(i)
		if last == GRI {
			ris++
		} else {
			ris = 0
		}
		switch {
		case last == GCR && cur == GLF:
			a.set(i, false, GB3)
		case ctl(last):
			a.set(i, true, GB4)
		case ctl(cur):
			a.set(i, true, GB5)
		case last == GL && (cur == GL || cur == GV || cur == GLV || cur == GLVT):
			a.set(i, false, GB6)
		case (last == GLV || last == GV) && (cur == GV || cur == GT):
			a.set(i, false, GB7)
		case (last == GLVT || last == GT) && cur == GT:
			a.set(i, false, GB8)
		case cur == GExtend || cur == GZWJ:
			a.set(i, false, GB9)
		case cur == GSpacingMark:
			a.set(i, false, GB9a)
		case last == GPrepend:
			a.set(i, false, GB9b)
		case t.I[rs[i]] == IConsonant && conjunct(t, rs, i):
			a.set(i, false, GB9c)
		case last == GZWJ && t.Pict[rs[i]] && pictBefore(t, rs, i-2):
			a.set(i, false, GB11)
		case cur == GRI && ris%2 == 1:
			a.set(i, false, GB12)
		default:
			a.set(i, true, GB999)
		}
	}
}

// conjunct: Consonant [Extend Linker]* Linker [Extend Linker]* before i
func conjunct(t *Tables, rs []rune, i int) bool {
	linker := false
	for j := i - 1; j >= 0; j-- {
		switch t.I[rs[j]] {
		case ILinker:
			linker = true
		case IExtend:
		case IConsonant:
			return linker
		default:
			return false
		}
	}
	return false
}

// pictBefore: Extended_Pictographic Extend* ending at j
func pictBefore(t *Tables, rs []rune, j int) bool {
	for j >= 0 && t.G[rs[j]] == GExtend {
		j--
	}
	return j >= 0 && t.Pict[rs[j]]
}

type mask = uint32

const (
	mCR      mask = 1 << WCR
	mLF           = 1 << WLF
	mNL           = 1 << WNewline
	mExtend       = 1 << WExtend
	mZWJ          = 1 << WZWJ
	mFormat       = 1 << WFormat
	mRI           = 1 << WRI
	mKata         = 1 << WKatakana
	mHebrew       = 1 << WHebrew
	mALetter      = 1 << WALetter
	mSQ           = 1 << WSingleQuote
	mDQ           = 1 << WDoubleQuote
	mMNL          = 1 << WMidNumLet
	mML           = 1 << WMidLetter
	mMN           = 1 << WMidNum
	mNum          = 1 << WNumeric
	mENL          = 1 << WExtendNumLet
	mSpace        = 1 << WSegSpace
	mPict         = 1 << NW

	mBrk = mCR | mLF | mNL
	mIgn = mExtend | mZWJ | mFormat
)

func (a *Analysis) words(t *Tables, rs []rune, phrases bool, jo *Joiners) {
	n := a.N
	ahl := mask(mALetter | mHebrew)
	if phrases {
		ahl |= mPict
	}
	m := make([]mask, n)
	for i, r := range rs {
		if t.W[r] != WOther {
			m[i] = 1 << t.W[r]
		}
		if t.Pict[r] {
			m[i] |= mPict
		}
	}
	if jo != nil && has(jo.Leading, rs[0]) {
		m[0] |= mALetter | mHebrew
	}
	units := unitsOf(n, func(j int) bool { return m[j]&mIgn != 0 }, func(j int) bool { return m[j]&mBrk != 0 })
	// base of the unit "X (Extend|Format|ZWJ)*" that ends at j; class 0 when
	// the marks have nothing to attach to
	base := func(j int) (int, mask) {
		if j < 0 {
			return -1, 0
		}
		b := units[j]
		if m[b]&mIgn != 0 {
			return b, 0
		}
		return b, m[b]
	}
	// regional indicator units that end at j, one directly after the other
	ris := make([]int, n)
	for j := range ris {
		b, c := base(j)
		switch {
		case b < j:
			ris[j] = ris[b]
		case c&mRI == 0:
		case j == 0:
			ris[j] = 1
		default:
			ris[j] = ris[j-1] + 1
		}
	}
	after := make([]int, n+1) // the first position from here that is not to be ignored
	after[n] = n
	for j := n - 1; j >= 0; j-- {
		after[j] = j
		if m[j]&mIgn != 0 {
			after[j] = after[j+1]
		}
	}
	// next unit after i that is not to be ignored: reach and class
	next := func(i int) (int, mask) {
		j := after[i+1]
		if j == n {
			return n + 1, 0
		}
		return j + 1, m[j]
	}
	for i := 1; i < n; i++ {
		raw := m[i]
		if jo != nil && has(jo.Middle, rs[i]) {
			m[i] |= mMNL
		}
		last, cur := m[i-1], m[i]
		j1, l1 := base(i - 1)
		_, l2 := base(j1 - 1)
		mlq, mnq := mask(mML|mMNL|mSQ), mask(mMN|mMNL|mSQ)
		switch {
		case last&mCR != 0 && cur&mLF != 0:
			a.set(i, false, WB3)
		case last&mBrk != 0:
			a.set(i, true, WB3a)
		case cur&mBrk != 0:
			a.set(i, true, WB3b)
		case last&mZWJ != 0 && cur&mPict != 0:
			a.set(i, false, WB3c)
		case last&cur&mSpace != 0:
			a.set(i, false, WB3d)
		case cur&mIgn != 0:
			a.set(i, false, WB4)
		case l1&ahl != 0 && cur&ahl != 0:
			a.set(i, false, WB5)
		case cur&ahl != 0 && l1&mlq != 0 && l2&ahl != 0:
			a.set(i, false, WB7)
		case l1&mHebrew != 0 && cur&mSQ != 0:
			a.set(i, false, WB7a)
		case l2&mHebrew != 0 && l1&mDQ != 0 && cur&mHebrew != 0:
			a.set(i, false, WB7c)
		case l1&mNum != 0 && cur&mNum != 0:
			a.set(i, false, WB8)
		case l1&ahl != 0 && cur&mNum != 0:
			a.set(i, false, WB9)
		case l1&mNum != 0 && cur&ahl != 0:
			a.set(i, false, WB10)
		case phrases && l1&(mNum|ahl|mSpace) != 0 && cur&(mNum|ahl|mSpace) != 0:
			a.set(i, false, PSpace)
		case l2&mNum != 0 && l1&mnq != 0 && cur&mNum != 0:
			a.set(i, false, WB11)
		case l1&mKata != 0 && cur&mKata != 0:
			a.set(i, false, WB13)
		case l1&(ahl|mNum|mKata|mENL) != 0 && cur&mENL != 0:
			a.set(i, false, WB13a)
		case l1&mENL != 0 && cur&(ahl|mNum|mKata) != 0:
			a.set(i, false, WB13b)
		case l1&mRI != 0 && cur&mRI != 0 && ris[i-1]%2 == 1:
			a.set(i, false, WB15)
		default:
			// rules that look ahead
			rule, brk, reach := uint8(WB999), true, i+1
			look := func(r uint8, want mask) {
				e, c := next(i)
				if c&want != 0 {
					if brk || e < reach {
						reach = e
					}
					rule, brk = r, false
				} else if brk && e > reach {
					reach = e
				}
			}
			if l1&ahl != 0 && cur&mlq != 0 {
				look(WB6, ahl)
			}
			if l1&mHebrew != 0 && cur&mDQ != 0 {
				look(WB7b, mHebrew)
			}
			if l1&mNum != 0 && cur&mnq != 0 {
				look(WB12, mNum)
			}
			a.Reach[i] = reach
			a.set(i, brk, rule)
		}
		if a.Break[i] && jo != nil {
			m[i] = raw // a middle joiner is one only in the middle
			if has(jo.Leading, rs[i]) {
				m[i] |= mALetter | mHebrew
			}
		}
	}
}

// unitsOf gives, for every position, where the unit "X Ignored*" that ends
// there begins. Marks with nothing to attach to are a unit of their own.
func unitsOf(n int, ign, brk func(int) bool) []int {
	u := make([]int, n)
	for j := range u {
		u[j] = j
		if ign(j) && j > 0 && !brk(j-1) {
			u[j] = u[j-1]
		}
	}
	return u
}

func (a *Analysis) sentences(t *Tables, rs []rune) {
	n := a.N
	s := func(i int) Class { return t.S[rs[i]] }
	para := func(c Class) bool { return c == SSep || c == SCR || c == SLF }
	ign := func(c Class) bool { return c == SExtend || c == SFormat }
	units := unitsOf(n, func(j int) bool { return ign(s(j)) }, func(j int) bool { return para(s(j)) })
	base := func(j int) (int, Class) {
		if j < 0 {
			return -1, SOther
		}
		b := units[j]
		if ign(s(b)) {
			return b, SOther
		}
		return b, s(b)
	}
	// what "what*" that ends at j comes after: the end of that, -1 if nothing
	before := func(what Class) []int {
		x := make([]int, n)
		for j := range x {
			x[j] = j
			if b, c := base(j); c == what {
				x[j] = -1
				if b > 0 {
					x[j] = x[b-1]
				}
			}
		}
		return x
	}
	closes, spaces := before(SClose), before(SSp)
	for i := 1; i < n; i++ {
		last, cur := s(i-1), s(i)
		j1, l1 := base(i - 1)
		_, l2 := base(j1 - 1)
		// "term Close*" ends at i-1; "term Close* Sp*" ends at i-1
		skip := func(j int, x []int) int {
			if j < 0 {
				return j
			}
			return x[j]
		}
		_, closeTerm := base(skip(i-1, closes))
		_, spTerm := base(skip(skip(i-1, spaces), closes))
		sa := func(c Class) bool { return c == SATerm || c == SSTerm }
		switch {
		case last == SCR && cur == SLF:
			a.set(i, false, SB3)
		case para(last):
			a.set(i, true, SB4)
		case ign(cur):
			a.set(i, false, SB5)
		case l1 == SATerm && cur == SNumeric:
			a.set(i, false, SB6)
		case (l2 == SUpper || l2 == SLower) && l1 == SATerm && cur == SUpper:
			a.set(i, false, SB7)
		case sa(spTerm) && (cur == SSContinue || sa(cur)):
			a.set(i, false, SB8a)
		case sa(closeTerm) && (cur == SClose || cur == SSp || para(cur)):
			a.set(i, false, SB9)
		case sa(spTerm) && (cur == SSp || para(cur)):
			a.set(i, false, SB10)
		case sa(spTerm):
			rule, brk, reach := uint8(SB11), true, i+1
			if spTerm == SATerm {
				j := i
				for j < n {
					c := s(j)
					if c == SOLetter || c == SUpper || c == SLower || para(c) || sa(c) {
						break
					}
					j++
				}
				reach = j + 1
				if j < n && s(j) == SLower {
					rule, brk = SB8, false
				}
			}
			a.Reach[i] = reach
			a.set(i, brk, rule)
		default:
			a.set(i, false, SB998)
		}
	}
}
