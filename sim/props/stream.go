package props

import (
	"io"
	"unicode/utf8"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/textgen"
)

func runs(quick, thorough int) map[string]int {
	return map[string]int{"quick": quick, "thorough": thorough}
}

// bufSettings draws a scan buffer that is always big enough.
func bufSettings(r *prng.R, p *Plan) {
	if r.P(1, 2) {
		p.SetBuf = true
		p.BufMax = 1 << 20
		switch r.Intn(4) {
		case 0:
			p.BufInit = 0
		case 1:
			p.BufInit = r.Range(1, 16)
		case 2:
			p.BufInit = r.Range(16, 300)
		default:
			p.BufInit = 1 << r.Intn(12)
		}
	}
}

// largeText draws a text of many tokens and a large buffer for it, and largePieces
// fills that in few pieces.
func largeText(r *prng.R, p *Plan) {
	p.Text = textgen.Amplify(r, gen().Text(r, p.Kind, r.Range(50, 500)), textgen.Large(r))
	p.SetBuf, p.BufMax = true, 1<<20
	p.BufInit = 1<<r.Range(13, 18) + r.Range(-3, 3)
	p.Cut = len(p.Text)
}

func largePieces(r *prng.R, p *Plan) {
	p.Steps = nil
	for at := 0; at < p.Cut; {
		n := r.Range(1, 1<<r.Range(8, 17))
		for at+n < p.Cut && !utf8.RuneStart(p.Text[at+n]) && r.P(7, 8) {
			n++
		}
		n = min(n, p.Cut-at)
		p.Steps = append(p.Steps, simio.Step{N: n, Wait: int64(r.Range(0, 1000)) * 1000000})
		at += n
	}
}

var midCommon = []rune{'-', '@', '/', ':', '.', '\'', '&', '+', '~', '·', '—', '★'}
var leadCommon = []rune{'#', '@', '.', '$', '-', '_', '★', '👍'}

// joinersFor draws a joiner configuration: common symbols, characters of the
// text, and any class except line breaks and ignorable characters.
func joinersFor(r *prng.R, text []byte, spaces bool) *ref.Joiners {
	if r.P(1, 24) {
		return &ref.Joiners{Nil: true}
	}
	t := ref.Unicode17()
	ok := func(x rune) bool {
		switch t.W[x] {
		case ref.WCR, ref.WLF, ref.WNewline, ref.WExtend, ref.WFormat, ref.WZWJ:
			return false
		}
		return x != utf8.RuneError
	}
	rs := []rune(string(text))
	draw := func(common []rune) []rune {
		var o []rune
		max := r.Intn(5)
		if r.P(1, 16) {
			max = r.Range(5, 60)
		}
		for n := max; n > 0; n-- {
			var x rune
			switch r.Intn(5) {
			case 0, 1:
				x = prng.Pick(r, common)
			case 2, 3:
				if len(rs) == 0 {
					continue
				}
				x = prng.Pick(r, rs)
			default:
				x = gen().Cell(r)
			}
			if spaces && r.P(1, 12) {
				x = ' '
			}
			if ok(x) && !(x >= 0xD800 && x <= 0xDFFF) {
				o = append(o, x)
			}
		}
		return o
	}
	return &ref.Joiners{Middle: draw(midCommon), Leading: draw(leadCommon)}
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C01", Title: "streaming tokens do not depend on how the reader delivers the bytes",
		Level: "exploration", Batch: 1000, Runs: runs(300000, 5000000),
		Rule:    "each run draws a tokenizer, a text (valid, damaged or garbage), a delivery schedule (chunk sizes, empty reads, waits, scribbling, data with EOF), buffer sizes and joiners from the seed; non-trivial: " + stateMeasure,
		Measure: stateMeasure, Real: realAll, Stub: stubStream,
		New: newPlan, Summary: summary, Shrink: shrinkPlan,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &Plan{Kind: ref.Kind(r.Intn(int(ref.NKinds)))}
			textFor(r, p.Kind, p, true)
			p.Steps = simio.Chunking(r, len(p.Text), interesting(p), r.P(1, 4))
			bufSettings(r, p)
			if p.Kind == ref.Words && r.P(1, 3) {
				p.Jo = joinersFor(r, p.Text, true)
			}
			switch {
			case i%75000 == 40: // longer than anything that fits a limit
				p.Kind = ref.Kind(i / 75000 % int(ref.NKinds))
				size := int64(r.Range(65<<20, 80<<20))
				if i > 4_000_000 && i < 4_300_000 {
					size = 1<<32 + 1<<24
				}
				planLong(r, p, size)
				return p
			case i%15000 == 41:
				planLong(r, p, int64(1)<<r.Range(16, 23)+int64(r.Intn(1<<16)))
				return p
			}
			if i%2000 == 7 { // now and then larger than any default buffer
				p.Text = textgen.Amplify(r, gen().Text(r, p.Kind, r.Range(100, 2000)), textgen.Large(r))
				p.Cut = len(p.Text)
				p.Steps = simio.Chunking(r, len(p.Text), nil, false)
			}
			if i%2000 == 11 {
				largeText(r, p)
				largePieces(r, p)
			}
			faceFor(r, p)
			return p
		},
		Exec: func(c *engine.Ctx, pl any) {
			p := pl.(*Plan)
			if p.Rep > 0 {
				execLong(c, p)
				return
			}
			st := p.scan(c, p.Text, p.reader(p.Text), nil)
			noteStream(c, p, st)
			noteDamage(c, p)
			if st.err != nil {
				c.Fail("unexpected error: scan ended with %v after %d of %d bytes", st.err, last(st.cuts), len(p.Text))
			}
			del := p.Text[:st.r.Sent]
			for _, str := range []bool{false, true} {
				want := iterate(c, p.Kind, del, p.opt(str))
				if !equal(st.cuts, want) {
					c.Fail("stream differs from memory: %v: %s", p.Kind, diff(del, st.cuts, want, "stream", "iterator"))
				}
			}
			if st.r.Sent != len(p.Text) && len(p.Steps) == 0 {
				c.Fail("stream not read: stopped after %d of %d bytes with nil error", st.r.Sent, len(p.Text))
			}
		},
	})

	engine.Register(&engine.Prop{
		ID: "C02", Title: "a failing or cut-off reader loses nothing that it delivered",
		Level: "exploration", Batch: 1000, Runs: runs(500000, 8000000),
		Rule:    "each run draws a tokenizer, a text, a failure point (any byte), an error kind (with or without data, or a reader that stops making progress) and a delivery schedule; non-trivial: " + stateMeasure,
		Measure: stateMeasure, Real: realAll, Stub: stubStream,
		New: newPlan, Summary: summary, Shrink: shrinkPlan,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &Plan{Kind: ref.Kind(r.Intn(int(ref.NKinds)))}
			textFor(r, p.Kind, p, r.P(1, 3))
			large := i%2000 == 11
			if large {
				largeText(r, p)
			}
			p.Cut = cutAt(r, p.Text, false)
			if large {
				largePieces(r, p)
			} else {
				p.Steps = simio.Chunking(r, p.Cut, interesting(p), r.P(1, 4))
			}
			switch r.Intn(8) {
			case 0:
			case 1:
				p.Stall = true
			default:
				p.Final = prng.Pick(r, simio.ErrorKinds)
			}
			if n := len(p.Steps); n > 0 {
				p.Steps[n-1].Err = ""
				if !p.Stall && r.P(1, 2) { // error together with the last data
					p.Steps[n-1].Err = p.Final
					if p.Final == "" {
						p.Steps[n-1].Err = "eof"
					}
				}
			}
			if !large {
				bufSettings(r, p)
			}
			if p.Kind == ref.Words && r.P(1, 3) {
				p.Jo = joinersFor(r, p.Text, true)
			}
			faceFor(r, p)
			return p
		},
		Exec: func(c *engine.Ctx, pl any) {
			p := pl.(*Plan)
			r := p.reader(p.Text)
			st := p.scan(c, p.Text, r, nil)
			noteStream(c, p, st)
			noteDamage(c, p)
			var want error
			if p.Stall {
				want = io.ErrNoProgress
			} else if p.Final != "" {
				want = simio.ErrorFor(p.Final)
			}
			for _, s := range p.Steps { // a shrunk plan may fail earlier
				if s.Err == "eof" {
					want = nil
				}
			}
			if !simio.SameErr(st.err, want) {
				c.Fail("wrong error: Err is %v, the reader ended with %v", st.err, want)
			}
			del := r.Data[:r.Sent]
			if last(st.cuts) != len(del) {
				c.Fail("delivered bytes lost: tokens cover %d of %d delivered bytes (%s is missing)", last(st.cuts), len(del), show(del[last(st.cuts):]))
			}
			want1 := iterate(c, p.Kind, del, p.opt(r.Reads%2 == 0))
			if !equal(st.cuts, want1) {
				c.Fail("tokens differ: %v: %s", p.Kind, diff(del, st.cuts, want1, "failing stream", "iterator on the delivered bytes"))
			}
			if utf8.Valid(del) {
				w := ref.Analyse(p.Kind, ref.Unicode17(), del, p.Jo).Cuts()
				if !equal(st.cuts, w) {
					c.Fail("tokens differ from the rules: %v: %s", p.Kind, diff(del, st.cuts, w, "failing stream", "reference"))
				}
				c.Count("checked_against_reference", 1)
			}
		},
	})

	conf := func(id string, k ref.Kind, title string) {
		engine.Register(&engine.Prop{
			ID: id, Title: title,
			Level: "exploration", Batch: 64, Runs: runs(sweepRuns+72000, 4*sweepRuns+1200000),
			Rule:    "runs 0.. sweep every code point through class-revealing contexts, once as a stream under a drawn delivery schedule and once in memory; the others draw a text, an end point after any character, an error kind and a delivery schedule. Tokens are compared with a literal evaluation of the UAX #29 rules over independent Unicode 17.0.0 tables. Non-trivial: " + stateMeasure,
			Measure: stateMeasure, Real: realAll, Stub: stubStream,
			Assume: []string{"Unicode 17.0.0 property values as in sim/ref/data/ucd17.txt (from the Rust crate unicode-segmentation 1.13.3)"},
			New:    newPlan, Summary: summary, Shrink: shrinkPlan,
			Gen: func(r *prng.R, tier string, i int) any {
				p := &Plan{Kind: k}
				n := sweepRuns
				if tier == "thorough" {
					n *= 4
				}
				if i < n {
					p.Sweep = sweepFor(i % sweepRuns)
					m := r.Range(1, 7)
					for j := 0; j < 40; j++ {
						p.Steps = append(p.Steps, simio.Step{N: r.Range(1, 3*m)})
					}
					return p
				}
				if i%6000 == 17 {
					huge(r, p)
					return p
				}
				textFor(r, k, p, false)
				p.Cut = cutAt(r, p.Text, true)
				if r.P(1, 3) {
					p.Cut = len(p.Text)
				}
				p.Steps = simio.Chunking(r, p.Cut, interesting(p), false)
				if r.P(1, 3) {
					p.Final = prng.Pick(r, simio.ErrorKinds)
				}
				if n := len(p.Steps); n > 0 {
					p.Steps[n-1].Err = ""
				}
				return p
			},
			Exec: execConformance,
		})
	}
	conf("C03", ref.Graphemes, "delivered text is split at exactly the Unicode 17 grapheme cluster boundaries")
	conf("C04", ref.Words, "delivered text is split at exactly the Unicode 17 word boundaries")
	conf("C05", ref.Sentences, "delivered text is split at exactly the Unicode 17 sentence boundaries")
	conf("C06", ref.Phrases, "delivered text is split at exactly the documented phrase boundaries")

	engine.Register(&engine.Prop{
		ID: "C07", Title: "joiners apply identically however the text is supplied",
		Level: "exploration", Batch: 1000, Runs: runs(500000, 8000000),
		Rule:    "each run draws joiner sets (common symbols, characters of the text, any class but line breaks and ignorables), a text, an end point and a delivery schedule; string, bytes and stream are compared with the rules plus joiner classes. Non-trivial: " + stateMeasure,
		Measure: stateMeasure, Real: realAll, Stub: stubStream,
		New: newPlan, Summary: summary, Shrink: shrinkPlan,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &Plan{Kind: ref.Words}
			if i%40000 == 17 {
				huge(r, p)
				p.Jo = joinersFor(r, []byte(string([]rune(string(p.Text[:50]))[:20])), true)
				return p
			}
			textFor(r, p.Kind, p, false)
			large := i%4000 == 23
			if large {
				largeText(r, p)
			}
			p.Jo = joinersFor(r, p.Text, true)
			p.Text = sprinkle(r, p.Text, p.Jo)
			if r.P(1, 6) {
				p.JoPrev = joinersFor(r, p.Text, true)
				p.Text = sprinkle(r, p.Text, p.JoPrev)
			}
			p.Cut = len(p.Text)
			if r.P(1, 2) {
				p.Cut = cutAt(r, p.Text, true)
			}
			if large {
				largePieces(r, p)
			} else {
				p.Steps = simio.Chunking(r, p.Cut, interesting(p), false)
			}
			if n := len(p.Steps); n > 0 {
				p.Steps[n-1].Err = ""
			}
			if r.P(1, 4) {
				p.Final = prng.Pick(r, simio.ErrorKinds)
			}
			faceFor(r, p)
			return p
		},
		Exec: execConformance,
	})
}

// huge draws a text with a token, or a look-ahead, of up to some megabytes, for
// a stream with a buffer to match.
func huge(r *prng.R, p *Plan) {
	p.Text = gen().Text(r, p.Kind, 60)
	for len(p.Text) < 50 {
		p.Text = append(p.Text, "a. b, "...)
	}
	p.Text = stretch(r, p.Kind, p.Text, 1<<r.Range(16, 21))
	p.Cut = len(p.Text)
	p.SetBuf, p.BufInit, p.BufMax = true, prng.Pick(r, []int{0, 4096, 1 << 20}), len(p.Text)+1000
	for n := r.Intn(20); n > 0; n-- {
		p.Steps = append(p.Steps, simio.Step{N: r.Range(1, 100000)})
	}
}

// sprinkle inserts joiner characters between and before letters and digits.
func sprinkle(r *prng.R, b []byte, j *ref.Joiners) []byte {
	all := append(append([]rune(nil), j.Middle...), j.Leading...)
	if len(all) == 0 {
		return b
	}
	var o []rune
	for _, x := range string(b) {
		if r.P(1, 5) {
			o = append(o, prng.Pick(r, all))
			if r.P(1, 6) {
				o = append(o, prng.Pick(r, all))
			}
		}
		o = append(o, x)
		if r.P(1, 12) {
			o = append(o, prng.Pick(r, []rune{'a', 'Z', '1', ' ', 0x308, '.'}))
		}
	}
	return []byte(string(o))
}

// execConformance compares stream and in-memory tokens with the reference.
func execConformance(c *engine.Ctx, pl any) {
	p := pl.(*Plan)
	text, cut := p.Text, p.Cut
	if p.Sweep != nil {
		text = p.Sweep.text(p.Kind)
		cut = len(text)
		c.Count("sweep.code_points", int64(p.Sweep.To-p.Sweep.From))
	}
	q := *p
	q.Cut = cut
	r := q.reader(text)
	st := q.scan(c, text, r, nil)
	noteStream(c, p, st)
	if p.Sweep != nil {
		c.State(prng.Mix(uint64(p.Sweep.From), uint64(p.Kind), 99))
	}
	del := r.Data[:r.Sent]
	a := ref.Analyse(p.Kind, ref.Unicode17(), del, p.Jo)
	want := a.Cuts()
	for i := 1; i < a.N; i++ {
		c.Counters["rule."+ref.RuleNames[a.Rule[i]]]++
	}
	if !equal(st.cuts, want) {
		c.Fail("stream differs from the rules: %v: %s", p.Kind, diff(del, st.cuts, want, "stream", "reference"))
	}
	var wantErr error
	if p.Final != "" {
		wantErr = simio.ErrorFor(p.Final)
	}
	if !simio.SameErr(st.err, wantErr) {
		c.Fail("wrong error: Err is %v, the reader ended with %v", st.err, wantErr)
	}
	for _, str := range []bool{false, true} {
		for _, named := range []bool{false, true} {
			if named && (p.Kind != ref.Words || p.Jo == nil) {
				continue
			}
			o := p.opt(str)
			o.Named = named
			got := iterate(c, p.Kind, del, o)
			if !equal(got, want) {
				c.Fail("iterator differs from the rules: %v string=%v own type=%v: %s", p.Kind, str, named, diff(del, got, want, "iterator", "reference"))
			}
		}
	}
}

func last(c []int) int {
	if len(c) == 0 {
		return 0
	}
	return c[len(c)-1]
}

func noteDamage(c *engine.Ctx, p *Plan) {
	for _, d := range p.Damage {
		c.Count("corruption."+d, 1)
	}
}

// interesting cut positions: character and token boundaries.
func interesting(p *Plan) []int {
	b := p.Text
	if p.Cut < len(b) {
		b = b[:p.Cut]
	}
	if len(b) > 4000 || !utf8.Valid(b) {
		return runeBounds(b)
	}
	return ref.Analyse(p.Kind, ref.Unicode17(), b, p.Jo).Cuts()
}

var _ = textgen.Length
