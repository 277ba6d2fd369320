package props

import (
	"cmp"
	"fmt"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/vsim"
)

// LPlan is a family of texts: Pre, then (A repeated K times or a share of the
// size, then B) repeated, then Post (C19).
type LPlan struct {
	Kind ref.Kind     `json:"kind"`
	Str  bool         `json:"str,omitempty"`
	Own  bool         `json:"own,omitempty"` // a caller's own text type
	Ansi int          `json:"ansi,omitempty"`
	Jo   *ref.Joiners `json:"joiners,omitempty"`
	Pre  []byte       `json:"pre,omitempty"`
	A    []byte       `json:"a"`
	B    []byte       `json:"b,omitempty"`
	K    int          `json:"k"` // 0: all As first, then as many Bs
	Post []byte       `json:"post,omitempty"`
	Via  string       `json:"via,omitempty"`  // "": Next only; peek: First, and the accessors after every step; stream: a reader; short: as many short texts, by SetText; again: twice, with Reset
	Part int          `json:"part,omitempty"` // stream: in that many pieces
	Big  bool         `json:"big,omitempty"`  // stream: into a buffer that is large enough from the start
}

const linSmall, linLarge = 1 << 10, 1 << 14

func (p *LPlan) text(n int) []byte {
	t := append([]byte(nil), p.Pre...)
	if p.K == 0 {
		m := n
		if len(p.B) > 0 {
			m = n / 2
		}
		for len(t) < m {
			t = append(t, p.A...)
		}
		for len(p.B) > 0 && len(t) < n {
			t = append(t, p.B...)
		}
		return append(t, p.Post...)
	}
	for len(t) < n {
		for i := 0; i < p.K; i++ {
			t = append(t, p.A...)
		}
		t = append(t, p.B...)
	}
	return append(t, p.Post...)
}

func (p *LPlan) steps(c *engine.Ctx, n int, limit int64) (int64, int, bool) {
	text := p.text(n)
	o := sut.Opt{Str: p.Str, Ansi: p.Ansi&1 != 0, Ansi8: p.Ansi&2 != 0}
	if p.Jo != nil && p.Kind == ref.Words {
		o.JB, o.JS = sut.BytesJoiners(p.Jo), sut.StringJoiners(p.Jo)
		o.Named = p.Own
	}
	over := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vsim.BudgetExceeded); ok {
					over = true
					return
				}
				panic(r)
			}
		}()
		vsim.Arm(limit)
		if p.Via == "stream" {
			r := &simio.Reader{Data: text}
			for i := 1; i < p.Part; i++ {
				r.Steps = append(r.Steps, simio.Step{N: len(text) / p.Part})
			}
			sc := sut.NewScanner(p.Kind, r, o.JB)
			if p.Big {
				sc.Buffer(make([]byte, 0, len(text)+64), len(text)+64)
			}
			got := 0
			for sc.Scan() {
				got += len(sc.Bytes())
			}
			if err := sc.Err(); err != nil || got != len(text) {
				panic(&engine.Violation{Msg: fmt.Sprintf("incomplete: stream of %d bytes gives %d, error %v: %s", len(text), got, err, p.describe())})
			}
			return
		}
		first := text
		if p.Via == "short" {
			first = nil
		}
		it := sut.NewIter(p.Kind, first, o)
		switch p.Via {
		case "peek":
			for it.First(); it.Next(); {
				it.Value()
				it.Start()
				it.End()
			}
		case "short":
			unit := append(append([]byte(nil), p.A...), p.B...)
			for n := 0; n < len(text); n += len(unit) {
				it.SetText(unit)
				for it.Next() {
				}
			}
		case "again":
			for it.Next() {
			}
			it.Reset()
			for it.Next() {
			}
		default:
			for it.Next() {
			}
		}
	}()
	used := vsim.Used()
	vsim.Disarm()
	c.Count("simulated steps", used)
	c.SimNs += used
	return used, len(text), over
}

func execLinear(c *engine.Ctx, pl any) {
	p := pl.(*LPlan)
	if len(p.A) == 0 {
		return
	}
	small, n1, over1 := p.steps(c, linSmall, 1<<40)
	per := float64(small) / float64(n1)
	// 16 times the text may take 16 times the steps; three times as much per
	// byte is not noise (constants make the small text look dearer, not
	// cheaper)
	times := 3.0
	if p.Via == "stream" {
		times = 4 // a buffer that grows shows a long token several times
	}
	limit := int64(times*per*float64(linLarge+n1)) + 100_000
	large, n2, over := p.steps(c, linLarge, limit)
	c.HashInts(int(small), int(large))
	c.Count("via."+cmp.Or(p.Via, "next"), 1)
	c.State(prng.HashString(fmt.Sprintf("%v %d %q %q %d %s", p.Kind, p.Ansi, p.A, p.B, p.K, p.Via)))
	if over || over1 {
		c.Fail("more than linear work: %v take %d steps for %d bytes, but more than %d for %d bytes: %s", p.Kind, small, n1, limit, n2, p.describe())
	}
}

func (p *LPlan) describe() string {
	return fmt.Sprintf("pre=%q a=%q x%d b=%q post=%q ansi=%d str=%v own=%v via=%s/%d/%v", p.Pre, p.A, p.K, p.B, p.Post, p.Ansi, p.Str, p.Own, p.Via, p.Part, p.Big)
}

func planLinear(r *prng.R, tier string, i int) any {
	p := &LPlan{Kind: ref.Kind(i % int(ref.NKinds)), Str: r.P(1, 2)}
	g := gen()
	class := func() rune { // every class alike
		switch p.Kind {
		case ref.Graphemes:
			if r.P(1, 3) {
				return g.I(r, ref.Class(r.Intn(int(ref.NI))))
			}
			return g.G(r, ref.Class(r.Intn(int(ref.NG))))
		case ref.Sentences:
			return g.S(r, ref.Class(r.Intn(int(ref.NS))))
		}
		if r.P(1, 16) {
			return g.Pict(r)
		}
		return g.W(r, ref.Class(r.Intn(int(ref.NW))))
	}
	unit := func(max int) []byte {
		var o []rune
		for n := r.Range(1, max); n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				o = append(o, g.Frag(r, p.Kind)...)
			case 1:
				o = append(o, prng.Pick(r, []rune(".,:;'\"!?()[]_ 0aA\r\n\t-@#")))
			default:
				o = append(o, class())
			}
		}
		b := []byte(string(o))
		if r.P(1, 12) {
			b = append(b, prng.Pick(r, [][]byte{{0xFF}, {0xE4, 0xB8}, {0xF0, 0x9F}, {0xC3}, {0x80}})...)
		}
		return b
	}
	p.A = unit(r.Range(1, 3))
	if r.P(1, 2) {
		p.Pre = unit(3)
	}
	if r.P(1, 2) {
		p.B = unit(3)
	}
	if r.P(1, 3) {
		p.Post = unit(2)
	}
	switch r.Intn(4) {
	case 0, 1:
		p.K = 0
	case 2:
		p.K = 1 + r.Geom(3)
	default:
		p.K = 1 + r.Geom(100)
	}
	if p.Kind == ref.Graphemes && r.P(1, 2) {
		p.Ansi = r.Range(1, 3)
		esc := func() []byte {
			return []byte(prng.Pick(r, []string{"\x1b[", "\x1b[1", "\x1b]", "\x1b]0;", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1b(", "\x1b  ", "\x1b", "\x1b\\", "\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x9c", "\x07", "\x18", "\x1a", "0;", "1", " ", "m", "\u0308"}))
		}
		p.A = esc()
		if r.P(1, 3) {
			p.A = append(p.A, esc()...)
		}
		if r.P(1, 3) {
			p.B = esc()
		}
		if r.P(1, 3) {
			p.Post = esc()
		}
	}
	if p.Kind == ref.Words && r.P(1, 3) {
		p.Jo = &ref.Joiners{Middle: []rune{g.Cell(r), '-'}, Leading: []rune{g.Cell(r), '#'}}
		p.Own = r.P(1, 2)
	}
	if r.P(1, 3) {
		p.Via = prng.Pick(r, []string{"peek", "stream", "stream", "short", "again"})
		if p.Via == "stream" {
			p.Ansi, p.Str, p.Own = 0, false, false
			p.Part, p.Big = 1+r.Geom(3), r.P(1, 2)
		}
	}
	return p
}

func shrinkLinear(pl any) []any {
	p := pl.(*LPlan)
	var out []any
	try := func(f func(q *LPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	if len(p.B) > 0 {
		try(func(q *LPlan) { q.B = nil })
	}
	if len(p.Post) > 0 {
		try(func(q *LPlan) { q.Post = nil })
	}
	if len(p.Pre) > 0 {
		try(func(q *LPlan) { q.Pre = nil })
	}
	if p.Via != "" && p.Via != "stream" {
		try(func(q *LPlan) { q.Via = "" })
	}
	if p.Part > 1 {
		try(func(q *LPlan) { q.Part = 1 })
	}
	if p.Jo != nil {
		try(func(q *LPlan) { q.Jo = nil })
	}
	if p.Str {
		try(func(q *LPlan) { q.Str = false })
	}
	if p.Own {
		try(func(q *LPlan) { q.Own = false })
	}
	if p.K > 1 {
		try(func(q *LPlan) { q.K = 1 })
		try(func(q *LPlan) { q.K /= 2 })
	}
	if p.Ansi != 0 {
		try(func(q *LPlan) { q.Ansi = 0 })
	}
	for _, t := range shrinkText(p.A) {
		if len(t) > 0 {
			try(func(q *LPlan) { q.A = t })
		}
	}
	for _, t := range shrinkText(p.Pre) {
		try(func(q *LPlan) { q.Pre = t })
	}
	for _, t := range shrinkText(p.B) {
		try(func(q *LPlan) { q.B = t })
	}
	return out
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C19", Title: "Iterating takes work proportional to the text", Level: "exploration",
		Runs: map[string]int{"quick": 60000, "thorough": 1500000}, Batch: 100,
		New: func() any { return &LPlan{} }, Gen: planLinear, Exec: execLinear, Shrink: shrinkLinear,
		Summary: func(p any) string { return p.(*LPlan).describe() },
		Rule:    "one evaluation iterates two sizes (about 1 and 16 KiB) of one drawn family of texts and compares the executed statements per byte; distinct counts different families",
		Measure: "text families (repeated units, options)",
		Real:    []string{"the four in-memory iterators and their split functions, every statement counted"},
		Stub:    []string{"time: the count of executed statements of the package is the clock"},
		Assume:  []string{"work inside the standard library (utf8, unicode) is not counted"},
	})
}
