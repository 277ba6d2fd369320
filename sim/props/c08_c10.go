package props

import (
	"bufio"
	"bytes"
	"unicode/utf8"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/textgen"
	"verif.local/sim/vsim"
)

// stretch makes tokens of about n bytes: it repeats a part of the text or
// inserts a run that no rule breaks.
func stretch(r *prng.R, k ref.Kind, b []byte, n int) []byte {
	g := gen()
	var run []rune
	size := 0
	target := n + r.Range(-6, 6)
	fill := g.Frag(r, k)
	switch k {
	case ref.Graphemes:
		fill = []rune{g.G(r, ref.GExtend)}
		if r.P(1, 2) {
			fill = append(fill, g.G(r, ref.GExtend, ref.GZWJ, ref.GSpacingMark))
		}
	case ref.Words, ref.Phrases:
		switch r.Intn(4) {
		case 0:
			fill = []rune{g.W(r, ref.WALetter, ref.WNumeric)}
		case 1:
			fill = []rune{g.W(r, ref.WExtend, ref.WFormat)}
		case 2:
			fill = []rune{'a'}
		case 3:
			fill = []rune{g.W(r, ref.WALetter), '.'}
		}
	case ref.Sentences:
		switch r.Intn(3) {
		case 0:
			fill = []rune{'x', ' '}
		case 1:
			fill = []rune{g.S(r, ref.SLower, ref.SOther, ref.SSp, ref.SExtend)}
		}
	}
	for size < target {
		x := prng.Pick(r, fill)
		if size+utf8.RuneLen(x) > target {
			x = 'a'
		}
		run = append(run, x)
		size += utf8.RuneLen(x)
	}
	cut := cutAt(r, b, true)
	o := append([]byte(nil), b[:cut]...)
	o = append(o, string(run)...)
	if k != ref.Graphemes && k != ref.Sentences && r.P(1, 2) { // look-ahead longer than the buffer
		type ends struct {
			l, m, n []ref.Class
		}
		e := prng.Pick(r, []ends{
			{[]ref.Class{ref.WALetter, ref.WHebrew}, []ref.Class{ref.WMidLetter, ref.WMidNumLet, ref.WSingleQuote}, []ref.Class{ref.WALetter, ref.WHebrew}},
			{[]ref.Class{ref.WNumeric}, []ref.Class{ref.WMidNum, ref.WMidNumLet, ref.WSingleQuote}, []ref.Class{ref.WNumeric}},
			{[]ref.Class{ref.WHebrew}, []ref.Class{ref.WDoubleQuote, ref.WSingleQuote}, []ref.Class{ref.WHebrew}},
		})
		if r.P(2, 3) {
			o = append(o, string(g.W(r, e.l...))...)
		}
		if r.P(3, 4) {
			o = append(o, string(g.W(r, e.m...))...)
		} else {
			o = append(o, '.')
		}
		marks := []rune{0x301, g.W(r, ref.WExtend, ref.WFormat, ref.WZWJ)}
		for to := len(o) + n; len(o) < to; {
			o = append(o, string(prng.Pick(r, marks))...)
		}
		if r.P(4, 5) {
			o = append(o, string(g.W(r, e.n...))...)
		}
	}
	if k == ref.Sentences && r.P(1, 2) {
		o = append(o, ". "...)
		for i := 0; i < n; i++ {
			o = append(o, prng.Pick(r, []byte("0,- "))) // SB8 looks past these
		}
		o = append(o, prng.Pick(r, []byte("aB.")))
	}
	return append(o, b[cut:]...)
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C08", Title: "a bounded scan buffer yields a correct prefix or the whole text",
		Level: "exploration", Batch: 1000, Runs: runs(500000, 8000000),
		Rule:    "each run draws a tokenizer, initial and maximum buffer sizes (including the default), a text with tokens and look-aheads around the buffer size, an end point and a delivery schedule; the reference model tells how many bytes each token needs. Non-trivial: " + stateMeasure,
		Measure: stateMeasure, Real: realAll, Stub: append([]string{"buffer limits: the 'full buffer' fault of the scanner"}, stubStream...),
		New: newPlan, Summary: summary, Shrink: shrinkPlan,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &Plan{Kind: ref.Kind(r.Intn(int(ref.NKinds)))}
			if i%2000 == 83 && r.P(1, 3) { // see below
				p.Kind = ref.Words
			}
			textFor(r, p.Kind, p, false)
			p.SetBuf = true
			switch r.Intn(5) {
			case 0:
				p.BufMax = r.Range(0, 8)
			case 1:
				p.BufMax = r.Range(4, 40)
			case 2:
				p.BufMax = 1 << r.Range(2, 8)
			default:
				p.BufMax = r.Range(8, 128)
			}
			switch r.Intn(4) {
			case 0:
			case 1:
				p.BufInit = r.Range(1, 8)
			case 2:
				p.BufInit = r.Range(0, p.BufMax+8)
			default:
				p.BufInit = p.BufMax
			}
			lim := max(p.BufMax, p.BufInit)
			if i%160 == 3 { // the default buffer
				p.SetBuf, p.BufInit, p.BufMax = false, 0, 0
				lim = bufio.MaxScanTokenSize
			}
			if i%2000 == 83 { // more than the default buffer
				lim = 1 << 17
				if r.P(1, 2) {
					lim = 1<<16 + r.Range(1, 70000)
				}
				p.BufInit, p.BufMax = r.Intn(2)*r.Range(1, lim), lim
			}
			if p.SetBuf && lim == 0 { // no room for a single byte, not even to see the end
				p.BufMax, lim = 1, 1
			}
			for n := r.Intn(3); n > 0 || lim > 60000; n-- {
				if lim > 60000 {
					n := lim
					if r.P(1, 2) {
						n = r.Range(2000, lim)
					}
					p.Text = stretch(r, p.Kind, p.Text, n)
					break
				}
				p.Text = stretch(r, p.Kind, p.Text, lim)
			}
			if i%8000 == 4083 { // much more
				lim = 1 << r.Range(18, 22)
				p.SetBuf, p.BufMax = true, lim
				p.BufInit = prng.Pick(r, []int{0, 1 << 16, lim})
				if r.P(2, 3) {
					p.Text = textgen.Amplify(r, gen().Text(r, p.Kind, r.Range(50, 2000)), r.Range(lim/2, 3*lim))
				} else {
					p.Text = stretch(r, p.Kind, gen().Text(r, p.Kind, 40), r.Range(lim/2, lim+lim/8))
				}
			}
			p.Cut = len(p.Text)
			if r.P(1, 3) {
				p.Cut = cutAt(r, p.Text, true)
			}
			if lim <= 60000 {
				p.Steps = simio.Chunking(r, p.Cut, nil, false)
			}
			if lim > 60000 {
				p.Steps = nil
				for n := r.Intn(20); n > 0; n-- {
					p.Steps = append(p.Steps, simio.Step{N: r.Range(0, 8000)})
				}
			}
			if p.Kind == ref.Words && (r.P(1, 4) || lim > bufio.MaxScanTokenSize && r.P(2, 3)) {
				p.Jo = joinersFor(r, p.Text, true)
				p.BufPrev = r.P(1, 2)
			}
			faceFor(r, p)
			return p
		},
		Exec: func(c *engine.Ctx, pl any) {
			p := pl.(*Plan)
			r := p.reader(p.Text)
			all := r.Data
			if pos := 0; true { // a step that ends the stream early
				for _, s := range p.Steps {
					if pos += s.N; s.Err == "eof" {
						all = r.Data[:min(pos, len(r.Data))]
						break
					}
				}
			}
			if !utf8.Valid(all) {
				return
			}
			st := p.scan(c, all, r, nil)
			noteStream(c, p, st)
			lim := bufio.MaxScanTokenSize
			if p.SetBuf {
				lim = max(p.BufMax, p.BufInit)
				if lim == 0 {
					return
				}
			}
			a := ref.Analyse(p.Kind, ref.Unicode17(), all, p.Jo)
			want, need := a.Cuts(), a.Need()
			n := len(st.cuts)
			if n > len(want) || !equal(st.cuts, want[:n]) {
				c.Fail("not a prefix: %v: %s", p.Kind, diff(all, st.cuts, want, "stream", "reference"))
			}
			switch {
			case st.err == nil:
				if n != len(want) {
					c.Fail("silently truncated: nil error after %d of %d tokens (%d of %d bytes)", n, len(want), last(st.cuts), len(all))
				}
				c.Count("outcome.complete", 1)
			case st.err == bufio.ErrTooLong:
				if n == len(want) {
					c.Fail("spurious error: ErrTooLong after the last token")
				}
				start := last(st.cuts)
				req := need[n] - start
				if req <= lim && !(need[n] > len(all) && len(all)-start >= lim) {
					c.Fail("token fits but ErrTooLong: token %d %s needs %d bytes with its look-ahead, buffer %d", n, show(all[start:want[n]]), req, lim)
				}
				c.Count("outcome.too_long", 1)
				if req <= lim+4 {
					c.Count("outcome.too_long_by_at_most_4_bytes", 1)
				}
			default:
				c.Fail("wrong error: %v", st.err)
			}
			for i := 0; i < n; i++ {
				s := 0
				if i > 0 {
					s = want[i-1]
				}
				if d := lim - (need[i] - s); d >= 0 && d <= 2 {
					c.Count("token_fits_by_at_most_2_bytes", 1)
				}
			}
		},
	})

	engine.Register(&engine.Prop{
		ID: "C09", Title: "a token is emitted as soon as the delivered bytes determine its end",
		Level: "exploration", Batch: 1000, Runs: runs(400000, 6000000),
		Rule:    "each run draws a tokenizer, a text, an end point, and arrival times for every piece of it on a simulated clock, with a consumer that may pause; every Read is checked against the reference model's account of which tokens were already determined. Non-trivial: " + stateMeasure,
		Measure: stateMeasure, Real: realAll, Stub: stubStream,
		New: newPlan, Summary: summary, Shrink: shrinkPlan,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &Plan{Kind: ref.Kind(r.Intn(int(ref.NKinds)))}
			textFor(r, p.Kind, p, false)
			large := i%500 == 5 // a large buffer that is filled in large pieces
			if large {
				largeText(r, p)
			}
			p.Cut = len(p.Text)
			if r.P(1, 2) {
				p.Cut = cutAt(r, p.Text, true)
			}
			p.Steps = simio.Chunking(r, p.Cut, interesting(p), true)
			if large {
				largePieces(r, p)
			}
			for n := r.Intn(6); n > 0; n-- {
				p.Pauses = append(p.Pauses, int64(r.Range(0, 1000))*1000000)
			}
			if r.P(1, 4) {
				p.Final = prng.Pick(r, simio.ErrorKinds)
				if n := len(p.Steps); n > 0 {
					p.Steps[n-1].Err = ""
				}
			}
			if p.Kind == ref.Words && r.P(1, 4) {
				p.Jo = joinersFor(r, p.Text, true)
			}
			if r.P(1, 10) {
				p.Face = prng.Pick(r, simio.Faces)
			}
			return p
		},
		Exec: func(c *engine.Ctx, pl any) {
			p := pl.(*Plan)
			r := p.reader(p.Text)
			// what will be delivered in the end
			all := r.Data
			if pos := 0; true {
				for _, s := range p.Steps {
					if pos += s.N; s.Err == "eof" {
						all = r.Data[:min(pos, len(r.Data))]
						break
					}
				}
			}
			if !utf8.Valid(all) {
				return
			}
			a := ref.Analyse(p.Kind, ref.Unicode17(), all, p.Jo)
			want, need := a.Cuts(), a.Need()
			next := 0
			determinedAt := make([]int64, len(need))
			for i := range determinedAt {
				determinedAt[i] = -1
			}
			r.OnRead = func(r *simio.Reader, lent int) {
				if next < len(need) && r.Sent >= need[next] && !r.Done {
					s := 0
					if next > 0 {
						s = want[next-1]
					}
					c.Fail("late token: at simulated time %dns the scanner asks for more input although token %d %s is determined by the %d bytes delivered (it needs %d)", r.Now, next, show(all[s:want[next]]), r.Sent, need[next])
				}
			}
			st := p.scan(c, all, r, func(i int) {
				next = i + 1
				if i < len(need) {
					c.Count("emissions", 1)
					if need[i] > len(all) {
						c.Count("emissions.determined_by_end", 1)
					} else if s := r.Sent - need[i]; s == 0 {
						c.Count("emissions.at_the_deciding_byte", 1)
					}
				}
			})
			noteStream(c, p, st)
			if !equal(st.cuts, want) {
				c.Fail("tokens differ from the rules: %v: %s", p.Kind, diff(all, st.cuts, want, "stream", "reference"))
			}
		},
	})

	engine.Register(&engine.Prop{
		ID: "C10", Title: "no input or corruption causes a panic, endless work, or lost bytes",
		Level: "exploration", Batch: 1000, Runs: runs(300000, 5000000),
		Rule:    "each run draws bytes (garbage, or a text damaged by transfer faults after a line feed), options and a delivery schedule and runs every entry point under a statement budget. Non-trivial: " + stateMeasure,
		Measure: stateMeasure, Real: realAll, Stub: append([]string{"transfer corruption: simulated bit flips, lost, duplicated, swapped, inserted bytes and torn tails"}, stubStream...),
		New: newPlan, Summary: summary, Shrink: shrinkPlan,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &Plan{Kind: ref.Kind(r.Intn(int(ref.NKinds)))}
			n := textgen.Length(r, 200)
			head := []byte(nil)
			if r.P(2, 3) {
				head = append(gen().Text(r, p.Kind, textgen.Length(r, 60)), '\n')
			}
			switch r.Intn(4) {
			case 0:
				p.Text = textgen.Garbage(r, n)
				p.Damage = []string{"garbage"}
			default:
				p.Text = gen().Text(r, p.Kind, n)
				for m := r.Range(1, 1+n/20); m > 0; m-- {
					var d []string
					p.Text, d = textgen.Corrupt(r, p.Text)
					p.Damage = append(p.Damage, d...)
				}
			}
			if r.P(1, 6) {
				p.Text = append(p.Text, prng.Pick(r, []string{"\x1b[", "\x1b]0;x", "\x9b31", "\x9d\xff", "\x1bP\x1b"})...)
			}
			if i%500 == 11 { // long degenerate runs: quadratic or worse work shows
				unit := gen().Frag(r, p.Kind)
				for len(p.Text) < 6000 {
					p.Text = append(p.Text, string(unit)...)
				}
				p.Text, p.Damage = textgen.Corrupt(r, p.Text)
			}
			p.Text = append(head, p.Text...)
			if i%2000 == 1011 { // one token, or one look-ahead, as long as a scanner with a default buffer can take
				p.Text = gen().LongToken(r, p.Kind, p.Text, r.Range(20000, 45000))
				c := append([]byte(nil), p.Text...)
				if p.Text, _ = textgen.Corrupt(r, c); r.P(1, 2) {
					p.Text = c
				}
			}
			if r.P(1, largeEvery) {
				if r.P(2, 3) {
					p.Text = textgen.Amplify(r, p.Text, textgen.Large(r))
				} else {
					p.Text = gen().LongToken(r, p.Kind, p.Text, r.Range(300, 6000))
				}
			}
			p.Cut = len(p.Text)
			p.Steps = simio.Chunking(r, len(p.Text), nil, false)
			if i%2000 == 1011 { // the scanner looks at the whole token again for every piece
				p.Steps = nil
				for n := r.Intn(12); n > 0; n-- {
					p.Steps = append(p.Steps, simio.Step{N: prng.Pick(r, []int{0, 1, 3, 4096, 9999, 30000})})
				}
			}
			if p.Kind == ref.Words && r.P(1, 2) {
				p.Jo = joinersFor(r, p.Text, true)
				if !p.Jo.Nil && r.P(1, 4) {
					p.Jo.Middle = append(p.Jo.Middle, utf8.RuneError, '\n', 0x301, -1, 0x110000)
				}
				if !p.Jo.Nil && r.P(1, 4) {
					p.Jo.Leading = append(p.Jo.Leading, utf8.RuneError, 0)
				}
			}
			p.Extra = []int{r.Intn(4)} // ANSI options
			faceFor(r, p)
			return p
		},
		Exec: execRobust,
	})
}

func execRobust(c *engine.Ctx, pl any) {
	p := pl.(*Plan)
	noteDamage(c, p)
	text := p.Text
	// the part that corruption must not reach
	safe := 0
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRune(text[i:])
		if r == utf8.RuneError && w <= 1 {
			break
		}
		i += w
		if r == '\n' {
			safe = i
		}
	}
	checkSafe := p.Jo == nil || !(runeIn(p.Jo.Middle, '\n') || runeIn(p.Jo.Leading, '\n') || runeIn(p.Jo.Middle, 0x301) || runeIn(p.Jo.Middle, utf8.RuneError))
	// An incomplete character at the very end joins the token before it (the
	// library's documented choice), which may be the line feed itself.
	ends := len(text)-safe >= utf8.UTFMax || safe == len(text)
	var want []int
	if safe > 0 && checkSafe {
		want = ref.Analyse(p.Kind, ref.Unicode17(), text[:safe], p.Jo).Cuts()
		if !ends {
			want = want[:len(want)-1]
		}
		c.Count("checked_text_before_line_feed", 1)
	}
	head := func(name string, cuts []int) {
		if want == nil {
			return
		}
		var got []int
		for _, x := range cuts {
			if x > safe {
				break
			}
			if x == safe && !ends {
				break
			}
			got = append(got, x)
		}
		if !equal(got, want) {
			c.Fail("corruption reached back: %v %s: %s", p.Kind, name, diff(text, got, want, name, "reference on the text up to the line feed"))
		}
	}
	orig := append([]byte(nil), text...)
	st := p.scan(c, text, p.reader(text), nil)
	noteStream(c, p, st)
	if st.err != nil || last(st.cuts) != st.r.Sent {
		c.Fail("lost bytes: scan covered %d of %d bytes, err %v", last(st.cuts), st.r.Sent, st.err)
	}
	head("stream", st.cuts)
	for _, str := range []bool{false, true} {
		cuts := iterate(c, p.Kind, text, p.opt(str))
		head("iterator", cuts)
		vsim.Arm(budget(len(text)))
		f := sut.NewIter(p.Kind, text, p.opt(str)).First()
		vsim.Disarm()
		if len(cuts) > 0 && !bytes.Equal(f, text[:cuts[0]]) || len(cuts) == 0 && len(f) != 0 {
			c.Fail("first differs: First is %s, iterator's first token ends at %d", show(f), last(cuts))
		}
	}
	a := 0
	if len(p.Extra) > 0 {
		a = p.Extra[0]
	}
	if p.Kind == ref.Graphemes && a != 0 {
		for _, str := range []bool{false, true} {
			iterate(c, p.Kind, text, sut.Opt{Str: str, Ansi: a&1 != 0, Ansi8: a&2 != 0})
		}
	}
	// the split function on its own, whole and on windows
	f := sut.SplitFunc(p.Kind)
	vsim.Arm(budget(len(text)) * 4)
	pos := 0
	for pos < len(text) {
		win := text[pos:]
		if len(win) > 40 {
			win = win[:40]
		}
		n, tok, err := f(win, false)
		if err != nil || n < 0 || n > len(win) || !bytes.Equal(tok, win[:n]) {
			c.Fail("split function: (%s, false) gives %d, %s, %v", show(win), n, show(tok), err)
		}
		n, tok, err = f(text[pos:], true)
		if err != nil || n <= 0 || n > len(text)-pos || !bytes.Equal(tok, text[pos:pos+n]) {
			c.Fail("split function: (%s, true) gives %d, %s, %v", show(text[pos:]), n, show(tok), err)
		}
		// the predicates see every token
		sut.BleveNumeric(tok)
		sut.BleveIdeographic(tok)
		sut.AlphaNumeric(tok)
		pos += n
	}
	sut.BleveNumeric(text)
	sut.BleveIdeographic(text)
	sut.AlphaNumeric(text)
	vsim.Disarm()
	if !bytes.Equal(orig, text) {
		c.Fail("input modified: %s became %s", show(orig), show(text))
	}
	c.HashInts(st.cuts...)
}

func runeIn(rs []rune, x rune) bool {
	for _, r := range rs {
		if r == x {
			return true
		}
	}
	return false
}
