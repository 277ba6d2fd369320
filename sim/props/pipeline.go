package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/words"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/textgen"
	"verif.local/sim/vsim"
)

// Stage is one tokenizer of a chain: it scans what the stage before it passes
// on, token by token, and passes its own tokens on.
type Stage struct {
	Kind   ref.Kind `json:"kind"`
	Jo     bool     `json:"jo,omitempty"`     // with the chain's joiners
	Direct bool     `json:"direct,omitempty"` // calls the stage before it from within Read; else a task of its own, behind a pipe
	Cap    int      `json:"cap,omitempty"`    // capacity of the pipe before it
	Inner  int      `json:"inner"`            // splits each token once more with that tokenizer and passes the parts on (-1: does not)
	Str    bool     `json:"str,omitempty"`    // the inner iterator is one over strings
	Empty  int      `json:"empty,omitempty"`  // every n-th Read gives nothing
	Buf    int      `json:"buf,omitempty"`    // scan buffer limit
	Crash  int      `json:"crash"`            // dies after that many tokens (-1: does not)
	With   string   `json:"with,omitempty"`   // what the next stage sees then ("": end of file)
	Pass   string   `json:"pass,omitempty"`   // what it makes of what it passes on: drop (every Nth), line (a line feed after each), swap (upper and lower case)
	Nth    int      `json:"nth,omitempty"`
}

// emit is what the stage passes on for the n-th token or part of a token.
func (s *Stage) emit(n int, b []byte) []byte {
	switch s.Pass {
	case "drop":
		if s.Nth > 1 && n%s.Nth == s.Nth-1 {
			return nil
		}
	case "line":
		return append(append([]byte(nil), b...), '\n')
	case "swap":
		t := append([]byte(nil), b...)
		for i, c := range t {
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				t[i] = c ^ 0x20
			}
		}
		return t
	}
	return b
}

// passes is what a stage passes on of a text with these tokens, and how much
// of it after each token; parts tells how a token is split once more.
func (s *Stage) passes(text []byte, cuts []int, parts func(i int, tok []byte) []int) (out []byte, at []int) {
	n, start := 0, 0
	for i, e := range cuts {
		tok := text[start:e]
		start = e
		ps := []int{0, len(tok)}
		if parts != nil {
			ps = parts(i, tok)
		}
		for j := 0; j+1 < len(ps); j += 2 {
			out = append(out, s.emit(n, tok[ps[j]:ps[j+1]])...)
			n++
		}
		at = append(at, len(out))
	}
	return out, at
}

// PPlan is a chain and a schedule.
type PPlan struct {
	Text   []byte       `json:"text"`
	Jo     *ref.Joiners `json:"joiners,omitempty"`
	Stages []Stage      `json:"stages"`
	Feed   []int        `json:"feed"`            // sizes of the pieces written by the source
	Wait   bool         `json:"wait,omitempty"`  // the source waits for every token that its pieces determine
	Cut    int          `json:"cut"`             // the source ends there
	Final  string       `json:"final,omitempty"` // with this error
	Mode   string       `json:"mode"`
	Seed   uint64       `json:"seed"`
	// Decisions of a recorded schedule (mode replay).
	Sched []vsim.Decision `json:"sched,omitempty"`
}

// pipe is a bounded pipe between two tasks of the scheduler.
type pipe struct {
	cap    int
	buf    []byte
	err    error // of the write end, once it is closed
	broken bool  // the read end is closed
	waits  int
}

func (p *pipe) Write(b []byte) error {
	for len(b) > 0 {
		vsim.Point()
		for len(p.buf) >= p.cap && !p.broken {
			p.waits++
			vsim.Block()
		}
		if p.broken {
			return io.ErrClosedPipe
		}
		n := min(p.cap-len(p.buf), len(b))
		p.buf = append(p.buf, b[:n]...)
		b = b[n:]
		vsim.Wake()
	}
	return nil
}

func (p *pipe) Read(b []byte) (int, error) {
	vsim.Point()
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.buf) == 0 && p.err == nil {
		p.waits++
		vsim.Block()
	}
	if len(p.buf) == 0 {
		return 0, p.err
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	vsim.Wake()
	vsim.Point()
	return n, nil
}

func (p *pipe) closeWrite(err error) {
	if p.err == nil {
		if p.err = err; err == nil {
			p.err = io.EOF
		}
	}
	vsim.Wake()
}

func (p *pipe) closeRead() { p.broken = true; vsim.Wake() }

// errDied is what a stage that dies leaves behind where no error was drawn.
var errDied = errors.New("stage died")

// running is a stage at work.
type running struct {
	Stage
	up    *running // direct: whom it pulls from
	in    *pipe    // otherwise
	sc    sut.Scanner
	c     *chain
	got   []byte // everything its Read returned
	end   error  // the error its Read returned last, io.EOF included
	reads int
	after int // Reads after that
	cuts  []int
	pos   int
	inner [][]int // cuts of the inner iterator
	state string  // how it ended: done, failed, died, too_long, broken
	out   error   // what it tells the next stage
	rest  []byte  // direct: parts of a token not yet taken by the next stage
	sent  int     // tokens, or parts of tokens, passed on
}

type chain struct {
	p    *PPlan
	jb   *words.Joiners[[]byte]
	js   *words.Joiners[string]
	all  []*running
	last *running
	odd  string
}

// Read is what the stage's scanner calls.
func (s *running) Read(b []byte) (n int, err error) {
	s.reads++
	if !vsim.Active() {
		s.c.odd = fmt.Sprintf("read from elsewhere: stage %v calls its reader from a goroutine that is not its own", s.Kind)
		s.end = io.ErrNoProgress
	}
	if s.end != nil {
		s.after++
		return 0, s.end
	}
	if s.Empty > 0 && s.reads%s.Empty == 0 {
		return 0, nil
	}
	if s.up == nil {
		n, err = s.in.Read(b)
	} else {
		n, err = s.up.pull(b)
	}
	s.got = append(s.got, b[:n]...)
	s.end = err
	return n, err
}

// pull gives the next stage what it can have of the next token.
func (s *running) pull(b []byte) (int, error) {
	for len(s.rest) == 0 {
		if s.out != nil {
			return 0, s.out
		}
		tok, ok := s.next()
		if !ok {
			s.out = s.finish()
			continue
		}
		s.rest = append(s.rest[:0], s.emit(s.sent, tok)...)
		s.sent++
	}
	n := copy(b, s.rest)
	s.rest = s.rest[n:]
	return n, nil
}

// next scans a token and splits it once more.
func (s *running) next() ([]byte, bool) {
	if s.Crash >= 0 && len(s.cuts) >= s.Crash {
		s.state = "died"
		return nil, false
	}
	if !s.sc.Scan() {
		return nil, false
	}
	b := s.sc.Bytes()
	if s.pos+len(b) > len(s.got) || !bytes.Equal(b, s.got[s.pos:s.pos+len(b)]) {
		if s.c.odd == "" {
			s.c.odd = fmt.Sprintf("token is not the text: token %d of stage %v is %s, its reader gave %s from there", len(s.cuts), s.Kind, show(b), show(s.got[min(s.pos, len(s.got)):]))
		}
	}
	if s.Inner >= 0 {
		was := append([]byte(nil), b...)
		var parts []int
		it := sut.NewIter(ref.Kind(s.Inner), b, s.c.opt(ref.Kind(s.Inner), s.Jo, s.Str))
		for it.Next() {
			parts = append(parts, it.Start(), it.End())
			vsim.Point()
		}
		s.inner = append(s.inner, parts)
		if (!bytes.Equal(b, was) || !bytes.Equal(s.sc.Bytes(), was)) && s.c.odd == "" {
			s.c.odd = fmt.Sprintf("token changed: %s of stage %v became %s while it was split into %vs", show(was), s.Kind, show(s.sc.Bytes()), ref.Kind(s.Inner))
		}
	}
	s.pos += len(b)
	s.cuts = append(s.cuts, s.pos)
	vsim.Wake() // somebody may be waiting for tokens
	return b, true
}

// finish notes how the scanner ended, and says what the next stage gets to see.
func (s *running) finish() error {
	if s.state == "died" {
		s.stopUpstream()
		if s.With == "" {
			return io.EOF
		}
		if e := simio.ErrorFor(s.With); e != nil {
			return e
		}
		return errDied
	}
	err := s.sc.Err()
	if !(s.Buf > 0 && err == bufio.ErrTooLong) && s.sc.Scan() && s.c.odd == "" {
		s.c.odd = fmt.Sprintf("scan after the end: stage %v gives another token %s", s.Kind, show(s.sc.Bytes()))
	}
	switch {
	case err == nil:
		s.state = "done"
		if s.end != io.EOF && s.c.odd == "" {
			s.c.odd = fmt.Sprintf("early end: stage %v ended without an error after %d bytes, its reader's last error was %v", s.Kind, len(s.got), s.end)
		}
		s.stopUpstream()
		return io.EOF
	case s.Buf > 0 && err == bufio.ErrTooLong:
		s.state = "too_long"
	default:
		s.state = "failed"
		if (s.end == io.EOF || !simio.SameErr(err, s.end)) && s.c.odd == "" {
			s.c.odd = fmt.Sprintf("wrong error: stage %v ended with %v, its reader's was %v", s.Kind, err, s.end)
		}
	}
	s.stopUpstream()
	return err
}

// stopUpstream closes whatever feeds the stage.
func (s *running) stopUpstream() {
	for s.up != nil {
		if s = s.up; s.state == "" {
			s.state = "broken"
		}
	}
	s.in.closeRead()
}

// loop is the task of a stage whose successor sits behind a pipe (or that is the last one).
func (s *running) loop(out *pipe) {
	var err error
	for {
		tok, ok := s.next()
		if !ok {
			err = s.finish()
			break
		}
		if out == nil {
			vsim.Point()
			continue
		}
		broken := false
		parts := []int{0, len(tok)}
		if s.Inner >= 0 {
			parts = s.inner[len(s.inner)-1]
		}
		for i := 0; i+1 < len(parts); i += 2 {
			b := s.emit(s.sent, tok[parts[i]:parts[i+1]])
			s.sent++
			if broken = out.Write(b) != nil; broken {
				break
			}
		}
		if broken {
			s.state = "broken"
			s.stopUpstream()
			return
		}
	}
	if out != nil {
		out.closeWrite(err)
	}
}

func (c *chain) opt(k ref.Kind, jo, str bool) sut.Opt {
	o := sut.Opt{Str: str}
	if k == ref.Words && jo && c.p.Jo != nil {
		o.JB, o.JS = c.jb, c.js
	}
	return o
}

func (p *PPlan) joiners(s *Stage) *ref.Joiners {
	if s.Kind == ref.Words && s.Jo {
		return p.Jo
	}
	return nil
}

// want is what the rules say about a stage: the tokens of all of its input,
// and what it has passed on after each.
type want struct {
	a    *ref.Analysis
	text []byte
	at   []int
}

func (p *PPlan) wants(text []byte) (ws []want) {
	for i := range p.Stages {
		s := &p.Stages[i]
		a := ref.Analyse(s.Kind, ref.Unicode17(), text, p.joiners(s))
		var parts func(int, []byte) []int
		if s.Inner >= 0 && !(i+1 < len(p.Stages) && p.Stages[i+1].Direct) {
			parts = func(_ int, tok []byte) (ps []int) {
				in := Stage{Kind: ref.Kind(s.Inner), Jo: s.Jo}
				prev := 0
				for _, e := range ref.Analyse(in.Kind, ref.Unicode17(), tok, p.joiners(&in)).Cuts() {
					ps = append(ps, prev, e)
					prev = e
				}
				return ps
			}
		}
		out, at := s.passes(text, a.Cuts(), parts)
		ws = append(ws, want{a, text, at})
		text = out
	}
	return ws
}

// determined tells how many tokens the last stage must have once n bytes of
// the text were written: each stage passes on what its input determines.
func determined(ws []want, n int) int {
	k := 0
	for _, w := range ws {
		need := w.a.Need()
		k = 0
		for k < len(need) && need[k] <= n {
			k++
		}
		n = 0
		if k > 0 {
			n = w.at[k-1]
		}
	}
	return k
}

func execPipeline(c *engine.Ctx, pl any) {
	p := pl.(*PPlan)
	if len(p.Stages) == 0 {
		return
	}
	text := append([]byte(nil), p.Text[:min(p.Cut, len(p.Text))]...)
	ch := &chain{p: p}
	if p.Jo != nil {
		k := &ref.Joiners{Middle: append([]rune(nil), p.Jo.Middle...), Leading: append([]rune(nil), p.Jo.Leading...)}
		ch.jb, ch.js = sut.BytesJoiners(k), sut.StringJoiners(k)
	}
	wait := p.Wait && utf8.Valid(text)
	src := &pipe{cap: max(p.Stages[0].Cap, 1)}
	var pipes []*pipe
	var bodies []func()
	for i := range p.Stages {
		s := &running{Stage: p.Stages[i], c: ch}
		if s.Crash >= 0 || s.Buf > 0 {
			wait = false
		}
		if s.Empty == 1 {
			s.Empty = 2
		}
		switch {
		case i == 0:
			s.in = src
			pipes = append(pipes, src)
		case s.Direct:
			s.up = ch.all[i-1]
		default:
			s.in = &pipe{cap: max(s.Cap, 1)}
			pipes = append(pipes, s.in)
			up, out := ch.all[i-1], s.in
			bodies = append(bodies, func() { up.loop(out) })
		}
		ch.all = append(ch.all, s)
		ch.last = s
	}
	bodies = append(bodies, func() { ch.last.loop(nil) })
	var ws []want
	if wait {
		ws = p.wants(text)
	}
	var final error
	if p.Final != "" {
		final = simio.ErrorFor(p.Final)
	}
	exchanges, stuck := 0, ""
	bodies = append(bodies, func() { // the source
		pos := 0
		feed := append(append([]int(nil), p.Feed...), len(text))
		for _, n := range feed {
			n = min(n, len(text)-pos)
			if n <= 0 {
				continue
			}
			if src.Write(text[pos:pos+n]) != nil {
				return
			}
			pos += n
			if wait && pos < len(text) {
				want := determined(ws, pos)
				for len(ch.last.cuts) < want {
					stuck = fmt.Sprintf("the source waits for token %d, which the %d bytes it wrote determine; the last stage has %d tokens", want, pos, len(ch.last.cuts))
					vsim.Block()
				}
				stuck = ""
				exchanges++
			}
		}
		src.closeWrite(final)
	})
	var dec vsim.Decider
	if p.Mode == "replay" {
		dec = &vsim.Replay{List: p.Sched}
	} else {
		dec = newDecider(p.Mode, p.Seed, len(bodies))
	}
	lim := budget((len(text)+8)*4) * int64(1+2*len(p.Stages))
	for i := range bodies { // the scanners are made by the tasks that use them
		body := bodies[i]
		bodies[i] = func() { vsim.Point(); body() }
	}
	for _, s := range ch.all {
		s.sc = sut.NewScanner(s.Kind, s, ch.opt(s.Kind, s.Jo, false).JB)
		if s.Buf > 0 {
			s.sc.Buffer(nil, s.Buf)
		}
	}
	sc, ends := vsim.Run(bodies, dec, lim)
	rec := *p
	rec.Mode, rec.Sched = "replay", sc.Trace
	c.Recorded = &rec
	c.HashInts(int(sc.Hash()>>1), sc.Switches, int(sc.Steps))
	c.Count("schedule."+p.Mode, 1)
	c.Count("context_switches", int64(sc.Switches))
	c.Count("statements", sc.Steps)
	c.SimNs += sc.Steps
	if c.Tracing() {
		c.Log("schedule: %v", sc.Trace)
		for i, s := range ch.all {
			c.Log("stage %d %v: received %s, tokens end at %v, %s", i, s.Kind, show(s.got), s.cuts, s.state)
		}
	}
	for t, e := range ends {
		if e.Panic == nil {
			continue
		}
		switch v := e.Panic.(type) {
		case *engine.Violation, engine.HarnessError:
			panic(v)
		}
		c.Fail("panic: task %d: %v\n%s", t, e.Panic, firstLines(e.Stack, 14))
	}
	if sc.Deadlock {
		if stuck != "" {
			c.Fail("no progress: %s", stuck)
		}
		c.Fail("deadlock: no stage of the chain can proceed: %s", summaryPipe(p))
	}
	if sc.Runaway {
		c.Fail("endless work: the chain did not finish within %d statements", lim)
	}
	if ch.odd != "" {
		c.Fail("%s", ch.odd)
	}
	defer vsim.Disarm()
	for i, s := range ch.all {
		c.Count("stage_end."+s.state, 1)
		if s.after > 0 && s.Buf == 0 {
			c.Fail("read after the end: stage %d %v read %d times after its reader had ended", i, s.Kind, s.after)
		}
		want := iterate(c, s.Kind, s.got, ch.opt(s.Kind, s.Jo, false))
		n := len(s.cuts)
		if n > len(want) || !equal(s.cuts, want[:n]) {
			c.Fail("chained stage differs: stage %d %v: %s", i, s.Kind, diff(s.got, s.cuts, want, "chained", "alone"))
		}
		if (s.state == "done" || s.state == "failed") && n != len(want) {
			c.Fail("chained stage incomplete: stage %d %v gives %d of %d tokens of %s", i, s.Kind, n, len(want), show(s.got))
		}
		from := text
		if i > 0 {
			u := ch.all[i-1]
			var parts func(int, []byte) []int
			if u.Inner >= 0 && !s.Direct {
				parts = func(i int, _ []byte) []int { return u.inner[i] }
			}
			from, _ = u.passes(u.got, u.cuts, parts)
		}
		if !bytes.HasPrefix(from, s.got) || (s.state == "done" || s.state == "failed") && len(s.got) != len(from) {
			c.Fail("bytes lost: stage %d %v received %s of %s", i, s.Kind, show(s.got), show(from))
		}
		start := 0
		for j, parts := range s.inner {
			alone := []int{}
			tok := s.got[start:s.cuts[j]]
			prev := 0
			for _, e := range iterate(c, ref.Kind(s.Inner), tok, ch.opt(ref.Kind(s.Inner), s.Jo, false)) {
				alone = append(alone, prev, e)
				prev = e
			}
			if !equal(parts, alone) {
				c.Fail("nested iterator differs: %vs of %s, a token of stage %d %v: positions %v, alone %v", ref.Kind(s.Inner), show(tok), i, s.Kind, parts, alone)
			}
			start = s.cuts[j]
			c.Count("nested_iterations", 1)
		}
		if s.Direct && i > 0 {
			c.Count("reads_within_reads", int64(s.reads))
		}
	}
	if wait && ch.last.state == "done" && utf8.Valid(text) {
		a := ws[len(ws)-1].a
		text := ws[len(ws)-1].text
		if want := a.Cuts(); !equal(ch.last.cuts, want) {
			c.Fail("chain differs from the rules: %v: %s", ch.last.Kind, diff(text, ch.last.cuts, want, "chain", "reference"))
		}
	}
	c.Count("exchanges_with_the_source", int64(exchanges))
	for _, q := range pipes {
		c.Count("pipe_waits", int64(q.waits))
	}
	if len(ch.last.cuts) > 1 && sc.Switches > 0 {
		c.State(sc.Hash())
	}
}

func summaryPipe(pl any) string {
	p := pl.(*PPlan)
	s := fmt.Sprintf("mode=%s text=%s cut=%d final=%s wait=%v", p.Mode, show(p.Text), p.Cut, p.Final, p.Wait)
	for i, t := range p.Stages {
		s += fmt.Sprintf(" stage%d=%v", i, t.Kind)
		if t.Direct && i > 0 {
			s += " direct"
		}
		if t.Inner >= 0 {
			s += fmt.Sprintf(" inner=%v", ref.Kind(t.Inner))
		}
		if t.Pass != "" {
			s += " passes on: " + t.Pass
		}
		if t.Crash >= 0 {
			s += fmt.Sprintf(" dies after %d", t.Crash)
		}
	}
	return s
}

func (p *PPlan) clone() *PPlan {
	q := *p
	q.Text = append([]byte(nil), p.Text...)
	q.Stages = append([]Stage(nil), p.Stages...)
	q.Feed = append([]int(nil), p.Feed...)
	q.Sched = append([]vsim.Decision(nil), p.Sched...)
	return &q
}

func shrinkPipe(pl any) []any {
	p := pl.(*PPlan)
	var out []any
	add := func(f func(q *PPlan)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	if p.Mode != "serial" {
		add(func(q *PPlan) { q.Mode, q.Sched = "serial", nil })
	}
	for i := range p.Stages {
		if len(p.Stages) > 1 {
			add(func(q *PPlan) {
				q.Stages = append(q.Stages[:i], q.Stages[i+1:]...)
				if q.Mode == "replay" {
					q.Mode, q.Sched = "serial", nil
				}
			})
		}
		s := p.Stages[i]
		try := func(yes bool, f func(s *Stage)) {
			if yes {
				add(func(q *PPlan) { f(&q.Stages[i]) })
			}
		}
		try(s.Inner >= 0, func(s *Stage) { s.Inner = -1 })
		try(s.Crash >= 0, func(s *Stage) { s.Crash = -1 })
		try(s.Crash > 0, func(s *Stage) { s.Crash-- })
		try(s.Empty > 0, func(s *Stage) { s.Empty = 0 })
		try(s.Buf > 0, func(s *Stage) { s.Buf = 0 })
		try(s.Pass != "", func(s *Stage) { s.Pass = "" })
		try(s.Jo, func(s *Stage) { s.Jo = false })
		try(s.Str, func(s *Stage) { s.Str = false })
		try(s.With != "" && s.With != "boom", func(s *Stage) { s.With = "boom" })
		try(s.Cap < 4096, func(s *Stage) { s.Cap = 4096 })
	}
	if len(p.Feed) > 1 {
		add(func(q *PPlan) { q.Feed = nil })
	}
	if p.Final != "" {
		add(func(q *PPlan) { q.Final = "" })
	}
	if p.Wait {
		add(func(q *PPlan) { q.Wait = false })
	}
	if p.Cut < len(p.Text) {
		add(func(q *PPlan) { q.Text = q.Text[:q.Cut] })
	}
	for i := range p.Feed {
		add(func(q *PPlan) { q.Feed = append(q.Feed[:i], q.Feed[i+1:]...) })
		if i > 30 {
			break
		}
	}
	for n := len(p.Sched) / 2; n >= 1 && p.Mode == "replay" && len(out) < 80; n /= 2 {
		for i := 0; i+n <= len(p.Sched) && len(out) < 80; i += n {
			add(func(q *PPlan) { q.Sched = append(q.Sched[:i], q.Sched[i+n:]...) })
		}
	}
	n := 0
	for _, t := range shrinkText(p.Text) {
		if n++; n > 40 {
			break
		}
		add(func(q *PPlan) {
			q.Text = t
			q.Cut = min(q.Cut, len(t))
		})
	}
	return out
}

func planPipeline(r *prng.R, tier string, i int) any {
	p := &PPlan{Seed: r.Uint64() >> 1}
	p.Mode = []string{"fine", "medium", "coarse", "pct", "pause", "serial"}[r.Weighted(2, 3, 3, 3, 3, 2)]
	k := ref.Kind(r.Intn(int(ref.NKinds)))
	switch r.Weighted(6, 2, 1) {
	case 0:
		p.Text = gen().Text(r, k, textgen.Length(r, 80))
	case 1:
		p.Text = append(gen().Text(r, k, textgen.Length(r, 40)), gen().Text(r, ref.Kind(r.Intn(int(ref.NKinds))), textgen.Length(r, 40))...)
	default:
		p.Text, _ = textgen.Corrupt(r, gen().Text(r, k, textgen.Length(r, 40)))
	}
	if len(p.Text) > 400 {
		p.Text = p.Text[:400]
	}
	large := i%500 == 9 // large pieces through few stages
	if large {
		p.Mode = prng.Pick(r, []string{"coarse", "serial"})
		p.Text = textgen.Amplify(r, gen().Text(r, k, r.Range(30, 200)), 1<<r.Range(9, 14))
	}
	p.Cut = len(p.Text)
	if r.P(1, 4) {
		p.Cut = cutAt(r, p.Text, r.P(3, 4))
	}
	if r.P(1, 3) {
		p.Final = prng.Pick(r, simio.ErrorKinds)
	}
	if r.P(1, 2) {
		p.Jo = joinersFor(r, p.Text, true)
	}
	p.Wait = r.P(1, 2)
	faults := !p.Wait && r.P(2, 3)
	for n := 1 + r.Weighted(2, 5, 3, 1); n > 0; n-- {
		s := Stage{Kind: ref.Kind(r.Intn(int(ref.NKinds))), Direct: r.P(1, 2), Inner: -1, Crash: -1, Jo: r.P(1, 2)}
		if r.P(1, 3) {
			s.Kind = k
		}
		s.Cap = 1 << r.Range(0, 12)
		if r.P(1, 3) {
			s.Cap = r.Range(1, 9)
		}
		if r.P(1, 3) {
			s.Inner, s.Str = r.Intn(int(ref.NKinds)), r.P(1, 3)
		}
		if r.P(1, 3) {
			s.Pass, s.Nth = prng.Pick(r, []string{"drop", "drop", "line", "swap"}), r.Range(2, 6)
		}
		if r.P(1, 5) {
			s.Empty = r.Range(2, 5)
		}
		if faults {
			if r.P(1, 3) {
				s.Crash = r.Geom(8) - 1
				if r.P(3, 4) {
					s.With = prng.Pick(r, simio.ErrorKinds)
				}
			} else if r.P(1, 8) {
				s.Buf = r.Range(1, 40)
			}
		}
		p.Stages = append(p.Stages, s)
	}
	for _, s := range simio.Chunking(r, p.Cut, runeBounds(p.Text), false) {
		p.Feed = append(p.Feed, s.N)
	}
	if large {
		p.Feed, p.Wait = nil, r.P(3, 4)
		for at := 0; at < p.Cut; {
			n := min(r.Range(1, 1<<r.Range(9, 13)), p.Cut-at)
			p.Feed = append(p.Feed, n)
			at += n
		}
		if len(p.Stages) > 2 {
			p.Stages = p.Stages[:2]
		}
		for i := range p.Stages {
			p.Stages[i].Inner, p.Stages[i].Cap = -1, 1<<r.Range(9, 14)
		}
	}
	return p
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C22", Title: "tokenizers can be chained and nested",
		Level: "exploration", Batch: 200, Runs: runs(150000, 4000000), Unbatched: true,
		Rule:    "each run draws a chain of one to four tokenizers, connected by bounded pipes between tasks or by calling one another from within Read, each possibly splitting its tokens once more and dropping or changing some of what it passes on, a source that fails, ends or waits for answers, stages that die, and a schedule that switches tasks between statements. Every stage's tokens are compared with those of an in-memory run over the bytes it received, the chain with the rules, and a source that waits must get every token its bytes determine. Non-trivial: " + concMeasure,
		Measure: concMeasure,
		Real:    append([]string{"all four scanners and in-memory iterators, in one process, nested in each other"}, realAll...),
		Stub:    []string{"goroutine scheduling: seeded cooperative scheduler with a preemption point before every statement", "package sync (if the library uses it): simulator-aware", "io.Pipe: simulated pipes of bounded capacity"},
		New:     func() any { return &PPlan{} }, Summary: summaryPipe, Shrink: shrinkPipe,
		Gen: planPipeline, Exec: execPipeline,
	})
}
