package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/textgen"
	"verif.local/sim/vsim"
)

// HPlan is a history of operations over several live iterators. Every slot is
// a pair of iterators, one over bytes and one over a string, which receive the
// same operations.
type HPlan struct {
	Texts [][]byte       `json:"texts"`
	Show  []string       `json:"show,omitempty"`
	Jo    []*ref.Joiners `json:"joiners,omitempty"`
	Slots []Slot         `json:"slots"`
	Ops   []Op           `json:"ops"`
	Far   *Far           `json:"far,omitempty"`
}

// Slot is the initial configuration of an iterator pair.
type Slot struct {
	Kind    ref.Kind `json:"kind"`
	Generic bool     `json:"generic,omitempty"` // internal/iterators with a split function
	Text    int      `json:"text"`
	Jo      int      `json:"jo"`              // index into Jo, -1 none
	Ansi    int      `json:"ansi,omitempty"`  // bit 0: 7-bit, bit 1: 8-bit
	Split   *Spec    `json:"split,omitempty"` // custom split function
	Buf     bool     `json:"buf,omitempty"`   // the bytes are in the slot's own buffer, which later texts overwrite
}

// Op is one step.
type Op struct {
	S     int    `json:"s"`
	Do    string `json:"do"` // next first reset text ansi join split drain fault
	A     int    `json:"a,omitempty"`
	B     string `json:"b,omitempty"`
	Split *Spec  `json:"split,omitempty"`
}

// Spec is a well-behaved split function.
type Spec struct {
	Mode string `json:"mode"`
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

func (s *Spec) length(rest []byte) int {
	if len(rest) == 0 {
		return 0
	}
	switch s.Mode {
	case "fixed":
		return min(len(rest), s.N)
	case "until":
		if i := bytes.IndexByte(rest, byte(s.N)); i >= 0 {
			return i + 1
		}
		return len(rest)
	case "hash":
		h := s.Seed
		for i := 0; i < len(rest) && i < 4; i++ {
			h = prng.Mix(h, uint64(rest[i]))
		}
		return 1 + int(h%uint64(min(len(rest), s.N)))
	case "rest": // everything that remains
		return len(rest)
	case "rune":
		_, w := utf8.DecodeRune(rest)
		return w
	case "runs": // runs of equal ASCII category
		cat := func(b byte) int {
			switch {
			case b == ' ':
				return 0
			case b >= '0' && b <= '9':
				return 1
			case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z':
				return 2
			}
			return 3
		}
		i := 1
		for i < len(rest) && cat(rest[i]) == cat(rest[0]) {
			i++
		}
		return i
	case "words":
		n, _, _ := sut.SplitFunc(ref.Words)(rest, true)
		return n
	case "sentences":
		n, _, _ := sut.SplitFunc(ref.Sentences)(rest, true)
		return n
	case "graphemes":
		n, _, _ := sut.SplitFunc(ref.Graphemes)(rest, true)
		return n
	}
	engine.Harness("unknown split function %q", s.Mode)
	return 0
}

var faultKinds = []string{"error", "error_with_token", "zero", "negative", "min_int", "one_beyond", "far_beyond", "max_int"}

// faultKind draws one; an error may be one that means something elsewhere.
func faultKind(r *prng.R) string {
	k := prng.Pick(r, faultKinds)
	if strings.HasPrefix(k, "error") && r.P(2, 3) {
		if r.P(1, 3) {
			return k + " " + prng.Pick(r, []string{"eof", "final_token", "too_long"})
		}
		return k + " " + prng.Pick(r, simio.ErrorKinds)
	}
	return k
}

var errSplit = errors.New("simulated split function failure")

// faulty is a split function that misbehaves at a chosen call.
type faulty struct {
	spec   *Spec
	calls  int
	at     int // misbehave at this call, 0 is never
	kind   string
	fired  bool
	badArg string
	expect []byte // what the iterator has to pass
}

func (f *faulty) answer(rest []byte, atEOF bool) (int, int, error) {
	f.calls++
	if !atEOF || len(rest) == 0 {
		f.badArg = fmt.Sprintf("split function called with (%s, %v)", show(rest), atEOF)
	}
	n := f.spec.length(rest)
	if f.at != 0 && f.calls >= f.at {
		f.fired = true
		kind, which, _ := strings.Cut(f.kind, " ")
		fail := errSplit
		if which != "" {
			fail = simio.ErrorFor(which)
		}
		switch kind {
		case "error":
			return 0, 0, fail
		case "error_with_token":
			return n, n, fail
		case "zero":
			return 0, n, nil
		case "negative":
			return -1, n, nil
		case "min_int":
			return math.MinInt, 0, nil
		case "one_beyond":
			return len(rest) + 1, len(rest), nil
		case "far_beyond":
			return len(rest) + 1000, len(rest), nil
		case "max_int":
			return math.MaxInt, len(rest), nil
		}
	}
	return n, n, nil
}

func (f *faulty) bytes(b []byte, eof bool) (int, []byte, error) {
	n, t, err := f.answer(b, eof)
	return n, b[:t], err
}
func (f *faulty) str(s string, eof bool) (int, string, error) {
	n, t, err := f.answer([]byte(s), eof)
	return n, s[:t], err
}

// live is one slot while a history runs: the two iterators and the model.
type live struct {
	id    int
	slot  Slot
	it    [2]sut.Iter
	fn    [2]*faulty
	text  []byte
	ti    int
	jo    int
	ansi  int
	spec  *Spec
	start int
	pos   int
	dead  bool
	buf   []byte
}

// inBuf copies a text into the slot's buffer, over whatever was there.
func (h *histRun) inBuf(l *live, t []byte) []byte {
	if l.buf == nil {
		n := 0
		for _, x := range h.p.Texts {
			n = max(n, len(x))
		}
		l.buf = make([]byte, n)
	}
	for i := copy(l.buf, t); i < len(l.buf); i++ {
		l.buf[i] = 0xa5
	}
	return l.buf[:len(t)]
}

var formNames = [2]string{"bytes", "string"}

type histRun struct {
	c     *engine.Ctx
	p     *HPlan
	slots []*live
	memo  map[[3]int]map[int]int
	ansi  bool // C13: recogniser is in force
	used  map[int]bool
}

func (h *histRun) newIter(l *live, form int) sut.Iter {
	o := sut.Opt{Str: form == 1, Ansi: l.ansi&1 != 0, Ansi8: l.ansi&2 != 0}
	if l.jo >= 0 && l.slot.Kind == ref.Words {
		o.JB, o.JS = sut.BytesJoiners(h.p.Jo[l.jo]), sut.StringJoiners(h.p.Jo[l.jo])
	}
	text := l.text
	if l.slot.Buf && form == 0 {
		text = h.inBuf(l, text)
	}
	if l.slot.Generic {
		if l.spec == nil {
			engine.Harness("generic iterator without split function")
		}
		l.fn[form] = &faulty{spec: l.spec}
		return sut.NewGeneric(text, form == 1, l.fn[form].bytes, l.fn[form].str)
	}
	it := sut.NewIter(l.slot.Kind, text, o)
	if l.spec != nil {
		l.fn[form] = &faulty{spec: l.spec}
		sut.SetSplit(it, l.fn[form].bytes, l.fn[form].str)
	}
	return it
}

// length is the model: the length of the token at pos.
func (h *histRun) length(l *live, pos int) int {
	rest := l.text[pos:]
	if len(rest) == 0 {
		return 0
	}
	if l.spec != nil {
		return l.spec.length(rest)
	}
	if l.slot.Kind == ref.Graphemes && l.ansi != 0 {
		if n := ansiLength(rest, l.ansi&1 != 0, l.ansi&2 != 0); n > 0 {
			h.c.Count("ansi_tokens", 1)
			return n
		}
	}
	jo := -1
	if l.slot.Kind == ref.Words {
		jo = l.jo
	}
	key := [3]int{int(l.slot.Kind), l.ti, jo}
	m := h.memo[key]
	if m == nil {
		m = map[int]int{}
		h.memo[key] = m
	}
	if n, ok := m[pos]; ok {
		return n
	}
	n := 0
	if h.ansi { // ordinary clusters
		n = ordinary(rest)
		m[pos] = n
		return n
	}
	// a fresh iterator over the rest of the text, walked once
	o := sut.Opt{}
	if jo >= 0 {
		o.JB = sut.BytesJoiners(h.p.Jo[jo])
	}
	it := sut.NewIter(l.slot.Kind, rest, o)
	for it.Next() {
		if _, ok := m[pos+it.Start()]; ok {
			break
		}
		m[pos+it.Start()] = it.End() - it.Start()
	}
	return m[pos]
}

// ordinary is the length of the grapheme cluster at the start of rest by the
// rules alone.
func ordinary(rest []byte) int {
	if len(rest) < 4000 && utf8.Valid(rest) {
		return ref.Analyse(ref.Graphemes, ref.Unicode17(), rest, nil).Cuts()[0]
	}
	n, _, _ := sut.SplitFunc(ref.Graphemes)(rest, true)
	return n
}

func execHistory(c *engine.Ctx, pl any, ansi bool) {
	p := pl.(*HPlan)
	if p.Far != nil {
		p.Far.exec(c)
		return
	}
	h := &histRun{c: c, p: p, memo: map[[3]int]map[int]int{}, ansi: ansi, used: map[int]bool{}}
	total := 0
	orig := make([][]byte, len(p.Texts))
	for i, t := range p.Texts {
		total += len(t)
		orig[i] = append([]byte(nil), t...)
	}
	if len(p.Texts) == 0 || len(p.Slots) == 0 {
		return
	}
	arm := func() { vsim.Arm(budget(total) * 4) }
	defer vsim.Disarm()
	for i, s := range p.Slots {
		l := &live{id: i, slot: s, ti: s.Text % len(p.Texts), jo: s.Jo, ansi: s.Ansi, spec: s.Split}
		if l.jo >= len(p.Jo) {
			l.jo = -1
		}
		l.text = p.Texts[l.ti]
		arm()
		l.it[0], l.it[1] = h.newIter(l, 0), h.newIter(l, 1)
		h.slots = append(h.slots, l)
	}
	// the boundaries of every text, before any history
	arm()
	for _, l := range h.slots {
		h.length(l, 0)
	}
	for i, o := range p.Ops {
		if len(h.slots) == 0 {
			break
		}
		l := h.slots[o.S%len(h.slots)]
		if l.dead {
			continue
		}
		arm()
		if c.Tracing() {
			c.Log("op %d: slot %d %s %d %s (cursor %d..%d of %d)", i, l.id, o.Do, o.A, o.B, l.start, l.pos, len(l.text))
		}
		c.HashInts(i, l.id, l.pos)
		c.Count("op."+o.Do, 1)
		h.step(i, l, o)
		arm()
		for _, x := range h.slots {
			h.observe(i, x)
		}
		h.used[l.id] = true
	}
	for i, t := range p.Texts {
		if !bytes.Equal(t, orig[i]) {
			c.Fail("text modified: %s became %s", show(orig[i]), show(t))
		}
	}
	// the boundaries have not changed meanwhile
	arm()
	for _, l := range h.slots {
		if l.dead || l.spec != nil || l.ansi != 0 {
			continue
		}
		n := *l
		o := sut.Opt{}
		if l.jo >= 0 && l.slot.Kind == ref.Words {
			o.JB = sut.BytesJoiners(p.Jo[l.jo])
		}
		it := sut.NewIter(l.slot.Kind, l.text, o)
		for it.Next() {
			if want := h.length(&n, it.Start()); it.End()-it.Start() != want {
				c.Fail("boundaries changed: %v over %s: token at %d had %d bytes, now %d", l.slot.Kind, show(l.text), it.Start(), want, it.End()-it.Start())
			}
		}
	}
	if len(p.Ops) >= 3 {
		s := prng.Mix(uint64(len(p.Slots)))
		for _, t := range p.Texts {
			s = prng.Mix(s, prng.HashString(string(t)))
		}
		for _, o := range p.Ops {
			s = prng.Mix(s, uint64(o.S), prng.HashString(o.Do), uint64(o.A), prng.HashString(o.B))
		}
		for _, x := range p.Slots {
			s = prng.Mix(s, uint64(x.Kind), uint64(x.Text), uint64(x.Ansi), uint64(x.Jo+1))
		}
		c.State(s)
	}
}

func (l *live) name(form int) string {
	k := l.slot.Kind.String()
	if l.slot.Generic {
		k = "generic"
	}
	return fmt.Sprintf("slot %d %s %s iterator", l.id, k, formNames[form])
}

// call runs f and reports whether it panicked.
func (h *histRun) call(f func()) (p any) {
	defer func() {
		if p = recover(); p != nil {
			switch p.(type) {
			case vsim.BudgetExceeded, *engine.Violation, engine.HarnessError:
				panic(p)
			}
		}
	}()
	f()
	return nil
}

// faultCheck settles a call that may have met a misbehaving split function.
// It reports true when the iterator has (rightly) panicked.
func (h *histRun) faultCheck(i int, l *live, form int, what string, pan any, got func() string) bool {
	f := l.fn[form]
	if f != nil && f.badArg != "" {
		h.c.Fail("wrong call: op %d %s: %s", i, l.name(form), f.badArg)
	}
	if f != nil && f.fired {
		if pan == nil {
			h.c.Fail("fault ignored: op %d: split function of %s misbehaved (%s) during %s at byte %d of %s, but there was no panic: %s", i, l.name(form), f.kind, what, l.pos, show(l.text), got())
		}
		h.c.Count("fault."+f.kind, 1)
		h.c.Count("fault_during."+what, 1)
		return true
	}
	if pan != nil {
		h.c.Fail("panic: op %d: %s panicked during %s at byte %d of %s: %v", i, l.name(form), what, l.pos, show(l.text), pan)
	}
	return false
}

func (h *histRun) step(i int, l *live, o Op) {
	c := h.c
	switch o.Do {
	case "next":
		h.next(i, l)
	case "drain":
		for k := 0; !l.dead && l.pos < len(l.text); k++ {
			h.next(i, l)
			h.observe(i, l)
		}
		for k := 0; k < 2 && !l.dead; k++ {
			h.next(i, l)
			h.observe(i, l)
		}
	case "first":
		want := l.text[:h.length(l, 0)]
		panicked := 0
		for form := range l.it {
			var got []byte
			pan := h.call(func() { got = l.it[form].First() })
			if h.faultCheck(i, l, form, "First", pan, func() string { return fmt.Sprintf("First returned %s", show(got)) }) {
				panicked++
				continue
			}
			if !bytes.Equal(got, want) {
				c.Fail("first: op %d: First of %s over %s gives %s, the first token is %s", i, l.name(form), show(l.text), show(got), show(want))
			}
		}
		if panicked > 0 {
			l.dead = true
		}
	case "reset":
		for _, it := range l.it {
			it.Reset()
		}
		l.start, l.pos = 0, 0
	case "text":
		l.ti = o.A % len(h.p.Texts)
		l.text = h.p.Texts[l.ti]
		for form, it := range l.it {
			if o.B == "overwrite" && form == 0 {
				it.SetText(h.inBuf(l, l.text))
				continue
			}
			it.SetText(l.text)
		}
		l.start, l.pos = 0, 0
	case "ansi":
		if l.slot.Kind == ref.Graphemes && !l.slot.Generic {
			l.ansi = o.A & 3
			for _, it := range l.it {
				sut.SetAnsi(it, l.ansi&1 != 0, l.ansi&2 != 0)
			}
		}
	case "join":
		if l.slot.Kind == ref.Words && !l.slot.Generic && len(h.p.Jo) > 0 {
			l.jo = o.A % len(h.p.Jo)
			j := h.p.Jo[l.jo]
			l.spec, l.fn = nil, [2]*faulty{}
			for _, it := range l.it {
				sut.SetJoiners(it, sut.BytesJoiners(j), sut.StringJoiners(j))
			}
		}
	case "split":
		if o.Split != nil && (l.slot.Generic || l.slot.Kind == ref.Words) {
			l.spec = o.Split
			for form, it := range l.it {
				l.fn[form] = &faulty{spec: l.spec}
				sut.SetSplit(it, l.fn[form].bytes, l.fn[form].str)
			}
		}
	case "fault":
		for _, f := range l.fn {
			if f != nil {
				f.at, f.kind = f.calls+1+o.A, o.B
			}
		}
	default:
		engine.Harness("unknown operation %q", o.Do)
	}
}

func (h *histRun) next(i int, l *live) {
	c := h.c
	n := h.length(l, l.pos)
	want := n > 0
	panicked := 0
	for form, it := range l.it {
		var got bool
		pan := h.call(func() { got = it.Next() })
		if h.faultCheck(i, l, form, "Next", pan, func() string {
			s := fmt.Sprintf("Next returned %v, position %d..%d", got, it.Start(), it.End())
			return s
		}) {
			panicked++
			continue
		}
		if got != want {
			c.Fail("next: op %d: Next of %s at byte %d of %s is %v, the model says %v", i, l.name(form), l.pos, show(l.text), got, want)
		}
	}
	if panicked > 0 {
		l.dead = true
		return
	}
	if want {
		l.start, l.pos = l.pos, l.pos+n
		c.Count("tokens", 1)
	}
}

func (h *histRun) observe(i int, l *live) {
	if l.dead {
		return
	}
	want := l.text[l.start:l.pos]
	for form, it := range l.it {
		s, e := it.Start(), it.End()
		if s != l.start || e != l.pos {
			h.c.Fail("position: after op %d %s over %s is at %d..%d, the model says %d..%d", i, l.name(form), show(l.text), s, e, l.start, l.pos)
		}
		if v := it.Value(); !bytes.Equal(v, want) {
			h.c.Fail("value: after op %d Value of %s at %d..%d of %s is %s, the model says %s", i, l.name(form), s, e, show(l.text), show(v), show(want))
		}
	}
}

func summaryHistory(pl any) string {
	p := pl.(*HPlan)
	if f := p.Far; f != nil {
		return fmt.Sprintf("%v generic=%v split=%v string=%v: a token of %d MiB, then %s; %s", f.Kind, f.Generic, f.Split, f.Str, f.Pages*2, show(f.Tail), strings.Join(f.Ops, " "))
	}
	s := ""
	for i, t := range p.Texts {
		s += fmt.Sprintf("text%d=%s ", i, show(t))
	}
	for i, x := range p.Slots {
		k := x.Kind.String()
		if x.Generic {
			k = "generic"
		}
		s += fmt.Sprintf("slot%d=%s/text%d ", i, k, x.Text)
	}
	for i, o := range p.Ops {
		if i == 25 {
			s += fmt.Sprintf("... %d operations", len(p.Ops))
			break
		}
		s += fmt.Sprintf("%d.%s", o.S, o.Do)
		if o.A != 0 || o.B != "" {
			s += fmt.Sprintf("(%d%s)", o.A, o.B)
		}
		s += " "
	}
	return s
}

func (p *HPlan) clone() *HPlan {
	q := &HPlan{}
	for _, t := range p.Texts {
		q.Texts = append(q.Texts, append([]byte(nil), t...))
	}
	for _, j := range p.Jo {
		k := *j
		q.Jo = append(q.Jo, &k)
	}
	q.Slots = append([]Slot(nil), p.Slots...)
	q.Ops = append([]Op(nil), p.Ops...)
	return q
}

func shrinkHistory(pl any) []any {
	p := pl.(*HPlan)
	if p.Far != nil {
		return p.Far.shrink()
	}
	var out []any
	add := func(f func(q *HPlan)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	for n := len(p.Ops) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(p.Ops) && len(out) < 500; i += n {
			add(func(q *HPlan) { q.Ops = append(append([]Op(nil), p.Ops[:i]...), p.Ops[i+n:]...) })
		}
	}
	if len(p.Slots) > 1 {
		for s := range p.Slots { // keep only operations of the others
			add(func(q *HPlan) {
				q.Slots = append(append([]Slot(nil), p.Slots[:s]...), p.Slots[s+1:]...)
				q.Ops = nil
				for _, o := range p.Ops {
					k := o.S % len(p.Slots)
					if k == s {
						continue
					}
					if k > s {
						k--
					}
					o.S = k
					q.Ops = append(q.Ops, o)
				}
			})
		}
	}
	for t := range p.Texts {
		for _, x := range shrinkText(p.Texts[t]) {
			if len(out) > 1500 {
				break
			}
			add(func(q *HPlan) { q.Texts[t] = x })
		}
	}
	for j := range p.Jo {
		if len(p.Jo[j].Middle) > 0 {
			add(func(q *HPlan) { q.Jo[j].Middle = p.Jo[j].Middle[1:] })
		}
		if len(p.Jo[j].Leading) > 0 {
			add(func(q *HPlan) { q.Jo[j].Leading = p.Jo[j].Leading[1:] })
		}
	}
	for s := range p.Slots {
		if p.Slots[s].Jo >= 0 {
			add(func(q *HPlan) { q.Slots[s].Jo = -1 })
		}
		if p.Slots[s].Ansi != 0 {
			add(func(q *HPlan) { q.Slots[s].Ansi = 0 })
		}
	}
	return out
}

const histMeasure = "distinct (texts, slot configurations, operation sequence) combinations by hash, over histories of at least three operations"

var realIter = []string{"graphemes, words, sentences, phrases iterators and rules, internal/iterators: all code from the working tree with a yield call before every statement"}

func textsFor(r *prng.R, k ref.Kind, n int) [][]byte {
	var ts [][]byte
	for i := 0; i < n; i++ {
		var t []byte
		switch r.Weighted(6, 3, 1, 1, 1) {
		case 0:
			t = gen().Text(r, k, textgen.Length(r, 60))
		case 1:
			t, _ = textgen.Corrupt(r, gen().Text(r, k, textgen.Length(r, 40)))
		case 2:
			t = textgen.Garbage(r, textgen.Length(r, 30))
		case 3:
			t = []byte{}
		default: // shares a prefix with an earlier text
			if i > 0 {
				t = append([]byte(nil), ts[r.Intn(i)]...)
				if r.P(1, 3) && len(t) > 0 { // same length, other bytes
					for m := r.Range(1, 4); m > 0; m-- {
						t[r.Intn(len(t))] = byte(prng.Pick(r, []rune("aZ1 .,\n'_\x80\xff-")))
					}
					break
				}
				t = t[:cutAt(r, t, false)]
				t = append(t, gen().Text(r, k, r.Range(0, 8))...)
			} else {
				t = []byte(" ")
			}
		}
		ts = append(ts, t)
	}
	if r.P(2, largeEvery) {
		i := r.Intn(len(ts))
		if r.P(1, 2) {
			ts[i] = textgen.Amplify(r, ts[i], textgen.Large(r))
		} else {
			ts[i] = gen().LongToken(r, k, ts[i], textgen.Large(r))
		}
	}
	return ts
}

func specFor(r *prng.R) *Spec {
	s := &Spec{Mode: prng.Pick(r, []string{"fixed", "until", "hash", "hash", "rest", "rune", "runs", "words", "sentences", "graphemes"})}
	switch s.Mode {
	case "fixed":
		s.N = r.Range(1, 9)
	case "until":
		s.N = int(prng.Pick(r, []byte(" ,.a\n0")))
	case "hash":
		s.N = r.Range(1, 12)
		s.Seed = r.Uint64() >> 1
	}
	return s
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C12", Title: "iterator operations in any order match a simple position model",
		Level: "exploration", Batch: 1000, Runs: runs(700000, 10000000),
		Rule:    "each run draws up to four live iterator pairs (bytes and string) over a few texts and a history of up to 60 interleaved operations; after every operation the position and value of every pair are compared with a cursor model. Non-trivial: " + histMeasure,
		Measure: histMeasure, Real: realIter, Stub: []string{"none (the histories replace the callers)"},
		New: func() any { return &HPlan{} }, Summary: summaryHistory, Shrink: shrinkHistory,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &HPlan{}
			switch {
			case i%100000 == 777:
				p.Far = drawFar(r, i/100000, tier)
				return p
			case i%20000 == 778:
				p.Far = drawFar(r, -1, tier)
				return p
			}
			k := ref.Kind(r.Intn(int(ref.NKinds)))
			p.Texts = textsFor(r, k, r.Range(1, 4))
			for n := r.Intn(3); n > 0; n-- {
				p.Jo = append(p.Jo, joinersFor(r, prng.Pick(r, p.Texts), true))
			}
			for n := r.Range(1, 4); n > 0; n-- {
				s := Slot{Kind: k, Text: r.Intn(len(p.Texts)), Jo: -1}
				if r.P(1, 4) {
					s.Kind = ref.Kind(r.Intn(int(ref.NKinds)))
				}
				if s.Kind == ref.Words && len(p.Jo) > 0 && r.P(1, 2) {
					s.Jo = r.Intn(len(p.Jo))
				}
				if r.P(1, 8) {
					s.Generic, s.Split = true, specFor(r)
				} else if s.Kind == ref.Words && r.P(1, 10) {
					s.Split = specFor(r)
				} else if s.Kind == ref.Graphemes && r.P(1, 6) {
					s.Ansi = r.Intn(4)
				}
				s.Buf = r.P(1, 4)
				p.Slots = append(p.Slots, s)
			}
			for n := r.Range(1, 60); n > 0; n-- {
				o := Op{S: r.Intn(len(p.Slots))}
				switch r.Weighted(24, 4, 2, 3, 2, 1, 1) {
				case 0:
					o.Do = "next"
				case 1:
					o.Do = "first"
				case 2:
					o.Do = "reset"
				case 3:
					o.Do, o.A = "text", r.Intn(len(p.Texts))
					if r.P(1, 3) {
						o.B = "overwrite"
					}
				case 4:
					o.Do = "drain"
				case 5:
					o.Do = "first"
					if len(p.Jo) > 0 {
						o.Do, o.A = "join", r.Intn(len(p.Jo))
					}
				case 6:
					o.Do = "next"
				}
				p.Ops = append(p.Ops, o)
			}
			if r.P(1, 20000) { // one token, or look-ahead, of some hundred kilobytes
				plain := true
				for _, s := range p.Slots {
					plain = plain && s.Split == nil && s.Kind == k
				}
				if plain {
					p.Texts[0] = stretch(r, k, p.Texts[0], 1<<r.Range(17, 19))
				}
			}
			return p
		},
		Exec: func(c *engine.Ctx, pl any) { execHistory(c, pl, false) },
	})

	engine.Register(&engine.Prop{
		ID: "C13", Title: "ANSI escape options follow ECMA-48 at every point of any history",
		Level: "exploration", Batch: 1000, Runs: runs(500000, 8000000),
		Rule:    "each run draws texts of escape fragments and characters (complete, malformed, nested, cancelled, truncated at any byte) and a history of iterator operations and option switches over up to three iterator pairs; every token is compared with an independent ECMA-48 recogniser. Non-trivial: " + histMeasure,
		Measure: histMeasure, Real: realIter, Stub: []string{"none (the histories replace the callers)"},
		New: func() any { return &HPlan{} }, Summary: summaryHistory, Shrink: shrinkHistory,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &HPlan{}
			for n := r.Range(1, 3); n > 0; n-- {
				p.Texts = append(p.Texts, ansiText(r))
			}
			if r.P(1, largeEvery) { // every section ends whatever control string is open
				p.Texts[0] = textgen.Amplify(r, append(p.Texts[0], "\x18\x1b\\\x9c\a"...), textgen.Large(r)/2)
			}
			for n := r.Range(1, 3); n > 0; n-- {
				p.Slots = append(p.Slots, Slot{Kind: ref.Graphemes, Text: r.Intn(len(p.Texts)), Jo: -1, Ansi: r.Intn(4), Buf: r.P(1, 4)})
			}
			for n := r.Range(1, 40); n > 0; n-- {
				o := Op{S: r.Intn(len(p.Slots))}
				switch r.Weighted(24, 4, 2, 2, 4, 6) {
				case 0:
					o.Do = "next"
				case 1:
					o.Do = "first"
				case 2:
					o.Do = "reset"
				case 3:
					o.Do, o.A = "text", r.Intn(len(p.Texts))
					if r.P(1, 3) {
						o.B = "overwrite"
					}
				case 4:
					o.Do = "drain"
				case 5:
					o.Do, o.A = "ansi", r.Intn(4)
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		},
		Exec: func(c *engine.Ctx, pl any) { execHistory(c, pl, true) },
	})

	engine.Register(&engine.Prop{
		ID: "C15", Title: "custom split functions are honoured, and faulty ones stop the iterator",
		Level: "exploration", Batch: 1000, Runs: runs(1000000, 15000000),
		Rule:    "each run draws up to three iterator pairs (word iterators and generic iterators) with well-behaved split functions, and a history of operations including replacement of the function; in most runs the function starts to misbehave at a chosen call in one of eight ways. Non-trivial: " + histMeasure,
		Measure: histMeasure, Real: realIter, Stub: []string{"caller-supplied split functions: simulated, with fault injection at a chosen call"},
		New: func() any { return &HPlan{} }, Summary: summaryHistory, Shrink: shrinkHistory,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &HPlan{}
			p.Texts = textsFor(r, ref.Words, r.Range(1, 3))
			if r.P(1, 4) {
				p.Jo = append(p.Jo, joinersFor(r, p.Texts[0], true))
			}
			for n := r.Range(1, 3); n > 0; n-- {
				s := Slot{Kind: ref.Words, Text: r.Intn(len(p.Texts)), Jo: -1, Split: specFor(r), Generic: r.P(1, 2)}
				if !s.Generic && r.P(1, 6) {
					s.Split = nil
				}
				s.Buf = r.P(1, 4)
				p.Slots = append(p.Slots, s)
			}
			for n := r.Range(1, 30); n > 0; n-- {
				o := Op{S: r.Intn(len(p.Slots))}
				switch r.Weighted(24, 3, 1, 2, 2, 4, 4, 1) {
				case 0:
					o.Do = "next"
				case 1:
					o.Do = "first"
				case 2:
					o.Do = "reset"
				case 3:
					o.Do, o.A = "text", r.Intn(len(p.Texts))
					if r.P(1, 3) {
						o.B = "overwrite"
					}
				case 4:
					o.Do = "drain"
				case 5:
					o.Do, o.Split = "split", specFor(r)
				case 6:
					o.Do, o.A, o.B = "fault", r.Intn(6), faultKind(r)
				case 7:
					o.Do = "next"
					if len(p.Jo) > 0 {
						o.Do = "join"
					}
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		},
		Exec: func(c *engine.Ctx, pl any) { execHistory(c, pl, false) },
	})
}
