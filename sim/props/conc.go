package props

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/textgen"
	"verif.local/sim/vsim"
)

// CPlan is one simulated multi-goroutine execution.
type CPlan struct {
	Texts [][]byte       `json:"texts"`
	Jo    []*ref.Joiners `json:"joiners,omitempty"`
	Specs []*Spec        `json:"specs,omitempty"`
	Tasks [][]Call       `json:"tasks"`
	Mode  string         `json:"mode"` // how the scheduler decides: fine medium coarse pct pause serial replay
	Seed  uint64         `json:"seed"`
	// Decisions of a recorded schedule (mode replay).
	Sched []vsim.Decision `json:"sched,omitempty"`
}

// Call is one public operation of a task.
type Call struct {
	Do    string       `json:"do"` // iter scan split first custom generic predicates
	Kind  ref.Kind     `json:"kind"`
	Text  int          `json:"text"`
	Jo    int          `json:"jo"`
	Str   bool         `json:"str,omitempty"`
	Ansi  int          `json:"ansi,omitempty"`
	Spec  int          `json:"spec,omitempty"`
	Steps []simio.Step `json:"steps,omitempty"`
	Max   int          `json:"max,omitempty"` // stop after that many tokens
}

// decider is the seeded scheduler.
type decider struct {
	r    *prng.R
	mode string
	prio []int
	next int64 // pct: statements until the next priority change
	low  int
	// pause: one task stops after a drawn number of statements until all others are done
	victim int
	left   int64
}

func newDecider(mode string, seed uint64, tasks int) *decider {
	d := &decider{r: prng.New(seed), mode: mode}
	for i := 0; i < tasks; i++ {
		d.prio = append(d.prio, i+1)
	}
	d.r.Shuffle(tasks, func(i, j int) { d.prio[i], d.prio[j] = d.prio[j], d.prio[i] })
	d.victim = d.r.Intn(max(tasks, 1))
	d.left = int64(1 + d.r.Geom(1<<d.r.Range(1, 12)))
	d.next = int64(1 + d.r.Geom(400))
	return d
}

func (d *decider) Next(runnable []int, prev int) vsim.Decision {
	pick := func() int { return runnable[d.r.Intn(len(runnable))] }
	switch d.mode {
	case "serial":
		for _, t := range runnable {
			if t == prev {
				return vsim.Decision{T: t, N: vsim.Forever}
			}
		}
		return vsim.Decision{T: runnable[0], N: vsim.Forever}
	case "fine":
		return vsim.Decision{T: pick(), N: int64(1 + d.r.Intn(3))}
	case "medium":
		return vsim.Decision{T: pick(), N: int64(1 + d.r.Geom(40))}
	case "coarse":
		return vsim.Decision{T: pick(), N: int64(1 + d.r.Geom(1000))}
	case "pct":
		best := runnable[0]
		for _, t := range runnable {
			if d.prio[t] > d.prio[best] {
				best = t
			}
		}
		n := d.next
		d.next = int64(1 + d.r.Geom(1<<d.r.Range(2, 11)))
		d.low--
		d.prio[best] = d.low // the running task drops to the bottom when its time is up
		return vsim.Decision{T: best, N: n}
	case "pause":
		if d.left > 0 {
			for _, t := range runnable {
				if t == d.victim {
					n := d.left
					d.left = 0
					return vsim.Decision{T: t, N: n}
				}
			}
		}
		for _, t := range runnable {
			if t != d.victim {
				if t == prev || d.r.P(1, 2) {
					return vsim.Decision{T: t, N: int64(1 + d.r.Geom(500))}
				}
			}
		}
		for _, t := range runnable {
			if t != d.victim {
				return vsim.Decision{T: t, N: int64(1 + d.r.Geom(500))}
			}
		}
		return vsim.Decision{T: runnable[0], N: vsim.Forever}
	}
	engine.Harness("unknown scheduling mode %q", d.mode)
	return vsim.Decision{}
}

// shared is what all callers share.
type shared struct {
	p     *CPlan
	texts [][]byte
	strs  []string
	jb    []*words.Joiners[[]byte]
	js    []*words.Joiners[string]
	sb    []sut.SplitB
	ss    []sut.SplitS
}

func share(p *CPlan) *shared {
	s := &shared{p: p}
	for _, t := range p.Texts {
		s.texts = append(s.texts, append([]byte(nil), t...))
		s.strs = append(s.strs, string(t))
	}
	for _, j := range p.Jo {
		m, l := append([]rune(nil), j.Middle...), append([]rune(nil), j.Leading...)
		k := &ref.Joiners{Middle: m, Leading: l}
		s.jb = append(s.jb, sut.BytesJoiners(k))
		s.js = append(s.js, sut.StringJoiners(k))
	}
	for _, sp := range p.Specs {
		s.sb = append(s.sb, func(b []byte, eof bool) (int, []byte, error) {
			n := sp.length(b)
			return n, b[:n], nil
		})
		s.ss = append(s.ss, func(b string, eof bool) (int, string, error) {
			n := sp.length([]byte(b))
			return n, b[:n], nil
		})
	}
	return s
}

// result is what a call returned, in the caller's own memory.
type result struct {
	ends []int
	copy [][]byte // contents at the time
	kept [][]byte // slices handed out by byte iterators
	odd  string   // inconsistency noticed by the caller itself
	err  error
}

func (s *shared) do(k *Call, res *result) {
	t := k.Text % len(s.texts)
	text := s.texts[t]
	limit := k.Max
	if limit == 0 {
		limit = 1 << 30
	}
	iterate := func(it sut.Iter) {
		for i := 0; i < limit && it.Next(); i++ {
			v := it.Value()
			res.ends = append(res.ends, it.Start(), it.End())
			res.copy = append(res.copy, append([]byte(nil), v...))
			if !k.Str {
				res.kept = append(res.kept, v)
			}
			vsim.Point()
		}
	}
	opt := sut.Opt{Str: k.Str}
	if k.Kind == ref.Words && k.Jo >= 0 && k.Jo < len(s.jb) {
		opt.JB, opt.JS = s.jb[k.Jo], s.js[k.Jo]
	}
	opt.Ansi, opt.Ansi8 = k.Ansi&1 != 0, k.Ansi&2 != 0
	switch k.Do {
	case "iter":
		iterate(sut.NewIter(k.Kind, text, opt))
	case "first":
		it := sut.NewIter(k.Kind, text, opt)
		for i := 0; i < 2; i++ {
			v := it.First()
			res.copy = append(res.copy, append([]byte(nil), v...))
			if !k.Str {
				res.kept = append(res.kept, v)
			}
			vsim.Point()
		}
		res.ends = append(res.ends, it.Start(), it.End())
	case "custom", "generic":
		if len(s.sb) == 0 {
			return
		}
		n := k.Spec % len(s.sb)
		var it sut.Iter
		if k.Do == "generic" {
			it = sut.NewGeneric(text, k.Str, s.sb[n], s.ss[n])
		} else {
			it = sut.NewIter(ref.Words, text, opt)
			sut.SetSplit(it, s.sb[n], s.ss[n])
		}
		iterate(it)
	case "scan":
		r := &simio.Reader{Data: text, Steps: k.Steps, Yield: true}
		sc := sut.NewScanner(k.Kind, r, opt.JB)
		pos := 0
		for i := 0; i < limit && sc.Scan(); i++ {
			b := sc.Bytes()
			was := append([]byte(nil), b...)
			pos += len(b)
			res.ends = append(res.ends, pos)
			res.copy = append(res.copy, was)
			vsim.Point()
			vsim.Point()
			if !bytes.Equal(sc.Bytes(), was) {
				res.odd = fmt.Sprintf("token %d changed from %s to %s before the next Scan", i, show(was), show(sc.Bytes()))
			}
		}
		res.err = sc.Err()
	case "split":
		f := sut.SplitFunc(k.Kind)
		for pos, i := 0, 0; pos < len(text) && i < limit; i++ {
			end := min(len(text), pos+1+(i*7)%23)
			n, tok, err := f(text[pos:end], end == len(text))
			res.ends = append(res.ends, n, len(tok))
			if err != nil {
				res.err = err
				return
			}
			if n == 0 {
				if n, tok, err = f(text[pos:], true); n <= 0 || err != nil {
					res.odd = fmt.Sprintf("split function returned %d, %v at end of input", n, err)
					return
				}
				res.ends = append(res.ends, n)
			}
			res.kept = append(res.kept, tok)
			res.copy = append(res.copy, append([]byte(nil), tok...))
			pos += n
		}
	case "predicates":
		f := sut.SplitFunc(ref.Words)
		for pos, i := 0, 0; pos < len(text) && i < limit; i++ {
			n, tok, err := f(text[pos:], true)
			if n <= 0 || err != nil {
				res.odd = fmt.Sprintf("split function returned %d, %v at end of input", n, err)
				return
			}
			bit := 0
			if sut.BleveNumeric(tok) {
				bit |= 1
			}
			if sut.BleveIdeographic(tok) {
				bit |= 2
			}
			if sut.AlphaNumeric(tok) {
				bit |= 4
			}
			res.ends = append(res.ends, n, bit)
			pos += n
			vsim.Point()
		}
	default:
		engine.Harness("unknown call %q", k.Do)
	}
}

func (r *result) same(o *result) string {
	if r.odd != "" {
		return r.odd
	}
	if !equal(r.ends, o.ends) {
		return fmt.Sprintf("positions %v, alone %v", r.ends, o.ends)
	}
	if len(r.copy) != len(o.copy) {
		return fmt.Sprintf("%d tokens, alone %d", len(r.copy), len(o.copy))
	}
	for i := range r.copy {
		if !bytes.Equal(r.copy[i], o.copy[i]) {
			return fmt.Sprintf("token %d is %s, alone %s", i, show(r.copy[i]), show(o.copy[i]))
		}
	}
	if !simio.SameErr(r.err, o.err) {
		return fmt.Sprintf("error %v, alone %v", r.err, o.err)
	}
	return ""
}

func (k *Call) name() string { return fmt.Sprintf("%s %v text%d", k.Do, k.Kind, k.Text) }

func execConcurrent(c *engine.Ctx, pl any) {
	p := pl.(*CPlan)
	if len(p.Texts) == 0 || len(p.Tasks) == 0 {
		return
	}
	s := share(p)
	results := make([][]*result, len(p.Tasks))
	var bodies []func()
	work := 0
	for t := range p.Tasks {
		calls := p.Tasks[t]
		rs := make([]*result, len(calls))
		for i := range rs {
			rs[i] = &result{}
			work += 1 + len(p.Texts[calls[i].Text%len(p.Texts)])
		}
		results[t] = rs
		bodies = append(bodies, func() {
			for i := range calls {
				vsim.Point()
				s.do(&calls[i], rs[i])
			}
		})
	}
	var dec vsim.Decider
	if p.Mode == "replay" {
		dec = &vsim.Replay{List: p.Sched}
	} else {
		dec = newDecider(p.Mode, p.Seed, len(p.Tasks))
	}
	lim := budget(work) * 2
	sc, ends := vsim.Run(bodies, dec, lim)
	rec := *p
	rec.Mode, rec.Sched = "replay", sc.Trace
	c.Recorded = &rec
	c.HashInts(int(sc.Hash()>>1), sc.Switches, int(sc.Steps))
	c.Count("schedule."+p.Mode, 1)
	c.Count("context_switches", int64(sc.Switches))
	c.Count("statements", sc.Steps)
	c.Count("lock_waits", int64(sc.Blocks))
	if vsim.RaceBuild {
		c.Count("runs_with_race_detector", 1)
	}
	for t, e := range ends {
		if e.Panic == nil {
			continue
		}
		switch v := e.Panic.(type) {
		case *engine.Violation, engine.HarnessError:
			panic(v)
		}
		c.Fail("panic: caller %d: %v\n%s", t, e.Panic, firstLines(e.Stack, 14))
	}
	if sc.Deadlock {
		c.Fail("deadlock: no caller can proceed")
	}
	if sc.Runaway {
		c.Fail("no progress: the callers did not finish within %d statements", lim)
	}
	if c.Tracing() {
		c.Log("schedule: %v", sc.Trace)
		for t := range results {
			for i, r := range results[t] {
				c.Log("caller %d call %d %s: ends=%v err=%v", t, i, p.Tasks[t][i].name(), r.ends, r.err)
			}
		}
	}
	// shared data untouched
	for i := range s.texts {
		if !bytes.Equal(s.texts[i], p.Texts[i]) {
			c.Fail("input modified: text %d %s became %s", i, show(p.Texts[i]), show(s.texts[i]))
		}
		if s.strs[i] != string(p.Texts[i]) {
			c.Fail("input modified: string %d", i)
		}
	}
	for i, j := range p.Jo {
		if string(s.jb[i].Middle) != string(j.Middle) || string(s.jb[i].Leading) != string(j.Leading) ||
			string(s.js[i].Middle) != string(j.Middle) || string(s.js[i].Leading) != string(j.Leading) {
			c.Fail("joiners modified: %q/%q became %q/%q", string(j.Middle), string(j.Leading), string(s.jb[i].Middle), string(s.jb[i].Leading))
		}
	}
	for t := range results {
		for i, r := range results[t] {
			for n, v := range r.kept {
				if !bytes.Equal(v, r.copy[n]) {
					c.Fail("token overwritten: caller %d call %d (%s): token %d was %s, later %s", t, i, p.Tasks[t][i].name(), n, show(r.copy[n]), show(v))
				}
			}
		}
	}
	// everybody on their own, afterwards
	defer vsim.Disarm()
	alone := share(p)
	for t := range results {
		for i, r := range results[t] {
			k := &p.Tasks[t][i]
			vsim.Arm(lim)
			o := &result{}
			alone.do(k, o)
			if d := r.same(o); d != "" {
				c.Fail("interference: caller %d call %d (%s over %s): %s", t, i, k.name(), show(p.Texts[k.Text%len(p.Texts)]), d)
			}
			c.Count("call."+k.Do, 1)
			// and by the rules, in case something stays wrong
			text := p.Texts[k.Text%len(p.Texts)]
			if k.Do == "iter" && k.Ansi == 0 && k.Max == 0 && utf8.Valid(text) {
				var j *ref.Joiners
				if k.Kind == ref.Words && k.Jo >= 0 && k.Jo < len(p.Jo) {
					j = p.Jo[k.Jo]
				}
				want := ref.Analyse(k.Kind, ref.Unicode17(), text, j).Cuts()
				var got []int
				for n := 1; n < len(r.ends); n += 2 {
					got = append(got, r.ends[n])
				}
				if !equal(got, want) {
					c.Fail("wrong tokens: caller %d call %d (%s): %s", t, i, k.name(), diff(text, got, want, "caller", "reference"))
				}
			}
		}
	}
	if len(p.Tasks) > 1 && sc.Switches > 0 {
		c.State(sc.Hash())
	}
}

func firstLines(s string, n int) string {
	for i := range s {
		if s[i] == '\n' {
			if n--; n == 0 {
				return s[:i]
			}
		}
	}
	return s
}

func summaryConc(pl any) string {
	p := pl.(*CPlan)
	s := fmt.Sprintf("mode=%s ", p.Mode)
	for i, t := range p.Texts {
		s += fmt.Sprintf("text%d=%s ", i, show(t))
	}
	for i, t := range p.Tasks {
		s += fmt.Sprintf("caller%d=[", i)
		for j := range t {
			if j > 0 {
				s += "; "
			}
			s += t[j].name()
		}
		s += "] "
	}
	return s
}

func (p *CPlan) clone() *CPlan {
	q := &CPlan{Mode: p.Mode, Seed: p.Seed, Specs: p.Specs}
	for _, t := range p.Texts {
		q.Texts = append(q.Texts, append([]byte(nil), t...))
	}
	for _, j := range p.Jo {
		k := *j
		q.Jo = append(q.Jo, &k)
	}
	for _, t := range p.Tasks {
		q.Tasks = append(q.Tasks, append([]Call(nil), t...))
	}
	q.Sched = append([]vsim.Decision(nil), p.Sched...)
	return q
}

func shrinkConc(pl any) []any {
	p := pl.(*CPlan)
	var out []any
	add := func(f func(q *CPlan)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	if p.Mode != "serial" {
		add(func(q *CPlan) { q.Mode, q.Sched = "serial", nil })
	}
	for n := len(p.Sched) / 2; n >= 1 && p.Mode == "replay" && len(out) < 60; n /= 2 {
		for i := 0; i+n <= len(p.Sched) && len(out) < 60; i += n {
			add(func(q *CPlan) {
				q.Sched = append(append([]vsim.Decision(nil), p.Sched[:i]...), p.Sched[i+n:]...)
			})
		}
	}
	for t := range p.Tasks {
		if len(p.Tasks) > 2 || len(p.Tasks[t]) == 0 {
			add(func(q *CPlan) {
				q.Tasks = append(append([][]Call(nil), p.Tasks[:t]...), p.Tasks[t+1:]...)
				var sc []vsim.Decision
				for _, d := range q.Sched {
					if d.T == t {
						continue
					}
					if d.T > t {
						d.T--
					}
					sc = append(sc, d)
				}
				q.Sched = sc
			})
		}
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t] {
			if len(p.Tasks[t]) > 1 {
				add(func(q *CPlan) { q.Tasks[t] = append(append([]Call(nil), p.Tasks[t][:i]...), p.Tasks[t][i+1:]...) })
			}
			if len(p.Tasks[t][i].Steps) > 0 {
				add(func(q *CPlan) { q.Tasks[t][i].Steps = nil })
			}
		}
	}
	for i := range p.Texts {
		n := 0
		for _, t := range shrinkText(p.Texts[i]) {
			if n++; n > 25 {
				break
			}
			add(func(q *CPlan) { q.Texts[i] = t })
		}
	}
	for j := range p.Jo {
		if len(p.Jo[j].Middle)+len(p.Jo[j].Leading) > 0 {
			add(func(q *CPlan) { q.Jo[j] = &ref.Joiners{} })
		}
	}
	return out
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C11", Title: "concurrent callers never affect each other's results",
		Level: "exploration", Batch: 50, Runs: runs(24000, 500000), RaceEvery: 3,
		Rule:    "each run draws 2-6 callers with up to three public calls each over shared texts, joiners and split functions, and a schedule that switches callers between statements; a batch is one process, so its first run is that process's first use of the library. Every third batch runs in a binary with the race detector, whose happens-before view excludes the scheduler's own hand-overs. Non-trivial: " + concMeasure,
		Measure: concMeasure,
		Real:    append([]string{"words predicates, internal/iterators, internal/iterators/filter"}, realAll...),
		Stub:    []string{"goroutine scheduling: seeded cooperative scheduler with a preemption point before every statement", "package sync (if the library uses it): simulator-aware locks, Once, Pool, WaitGroup, Cond", stubStream[0]},
		New:     func() any { return &CPlan{} }, Summary: summaryConc, Shrink: shrinkConc, Unbatched: true,
		Gen: func(r *prng.R, tier string, i int) any {
			p := &CPlan{Seed: r.Uint64() >> 1}
			p.Mode = []string{"fine", "medium", "coarse", "pct", "pause"}[r.Weighted(3, 3, 2, 3, 3)]
			k := ref.Kind(r.Intn(int(ref.NKinds)))
			n := r.Range(1, 4)
			for ; n > 0; n-- {
				var t []byte
				switch r.Weighted(6, 2, 1, 1) {
				case 0:
					t = gen().Text(r, k, textgen.Length(r, 60))
				case 1:
					t, _ = textgen.Corrupt(r, gen().Text(r, k, textgen.Length(r, 40)))
				case 2:
					t = textgen.Garbage(r, textgen.Length(r, 30))
				default:
					t = ansiText(r)
				}
				if len(t) > 260 {
					t = t[:260]
				}
				p.Texts = append(p.Texts, t)
			}
			for n = r.Intn(3); n > 0; n-- {
				p.Jo = append(p.Jo, joinersFor(r, p.Texts[0], true))
			}
			p.Specs = []*Spec{specFor(r), specFor(r)}
			same := r.P(1, 3) // all callers do the same
			var proto []Call
			for n = r.Range(2, 6); n > 0; n-- {
				var calls []Call
				for m := r.Range(1, 3); m > 0; m-- {
					c := Call{Kind: k, Text: r.Intn(len(p.Texts)), Jo: r.Intn(len(p.Jo)+1) - 1, Str: r.P(1, 3), Spec: r.Intn(2)}
					if r.P(1, 4) {
						c.Kind = ref.Kind(r.Intn(int(ref.NKinds)))
					}
					c.Do = []string{"iter", "scan", "split", "first", "custom", "generic", "predicates"}[r.Weighted(7, 5, 3, 2, 1, 1, 1)]
					if c.Kind == ref.Graphemes && r.P(1, 4) {
						c.Ansi = r.Intn(4)
					}
					if c.Do == "scan" {
						c.Steps = simio.Chunking(r, len(p.Texts[c.Text]), nil, false)
					}
					if r.P(1, 6) {
						c.Max = r.Range(1, 5)
					}
					calls = append(calls, c)
				}
				if same && proto != nil {
					calls = append([]Call(nil), proto...)
				}
				proto = calls
				p.Tasks = append(p.Tasks, calls)
			}
			return p
		},
		Exec: execConcurrent,
	})
}

const concMeasure = "distinct interleavings (hash of the sequence of caller and statements run) with at least one switch between callers"
