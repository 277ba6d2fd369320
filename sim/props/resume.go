package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"slices"
	"sort"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/vsim"
)

// Life is one incarnation of a consumer: it opens the text at its checkpoint,
// works through tokens, and is ended by a crash or a failure.
type Life struct {
	Mode  string       `json:"mode"`            // stream, bytes, string, settext (the iterator of the life before, given the rest)
	Steps []simio.Step `json:"steps,omitempty"` // stream: deliveries
	Cut   int          `json:"cut"`             // stream: fails after that many bytes of the rest (-1: does not)
	Final string       `json:"final,omitempty"` // stream: with this error
	With  bool         `json:"with,omitempty"`  // stream: returned together with the last bytes
	Panic bool         `json:"panic,omitempty"` // stream: the reader panics instead of returning the error
	Buf   int          `json:"buf,omitempty"`   // stream: scan buffer limit (0: one that is large enough)
	Face  string       `json:"face,omitempty"`  // stream: what else the reader is
	Peek  bool         `json:"peek,omitempty"`  // in memory: First before every step
	Crash int          `json:"crash"`           // crashes after that many tokens (-1: does not)
	Every int          `json:"every"`           // tokens between checkpoints
	Wipe  []byte       `json:"wipe,omitempty"`  // what the consumer writes over the text that it has processed
}

// RPlan is a history of crashes and restarts.
type RPlan struct {
	Kind  ref.Kind     `json:"kind"`
	Text  []byte       `json:"text"`
	Jo    *ref.Joiners `json:"joiners,omitempty"`
	A7    bool         `json:"ansi,omitempty"`
	A8    bool         `json:"ansi8,omitempty"`
	Lives []Life       `json:"lives"`
	Last  string       `json:"last"` // mode of the life that finishes the text
}

func (p *RPlan) clone() *RPlan {
	q := *p
	q.Text = append([]byte(nil), p.Text...)
	q.Lives = append([]Life(nil), p.Lives...)
	for i := range q.Lives {
		q.Lives[i].Steps = append([]simio.Step(nil), p.Lives[i].Steps...)
	}
	if p.Jo != nil {
		j := *p.Jo
		q.Jo = &j
	}
	return &q
}

// readerPanic is what a crashing reader panics with.
type readerPanic struct{}

func planResume(r *prng.R, tier string, i int) any {
	p := &RPlan{Kind: ref.Kind(r.Intn(int(ref.NKinds)))}
	var q Plan
	textFor(r, p.Kind, &q, r.P(1, 3))
	p.Text = q.Text
	if p.Kind == ref.Words && r.P(1, 3) {
		p.Jo = joinersFor(r, p.Text, true)
	}
	if p.Kind == ref.Graphemes && r.P(1, 3) {
		p.A7, p.A8 = r.P(2, 3), r.P(1, 2)
		p.Text = escapesInto(r, p.Text)
	}
	if r.P(1, 8) { // what some programs put in front of a text may come anywhere
		at := cutAt(r, p.Text, true)
		p.Text = append(append(append([]byte(nil), p.Text[:at]...), prng.Pick(r, []string{"\ufeff", "\x00", "\n", "\r\n", " ", "\u200b", "\u0301", "\u200d"})...), p.Text[at:]...)
	}
	modes := []string{"stream", "stream", "bytes", "string", "settext"}
	if p.A7 || p.A8 {
		modes = modes[2:]
	}
	for n := 1 + r.Geom(3); n > 0; n-- {
		l := Life{Mode: prng.Pick(r, modes), Cut: -1, Crash: -1, Every: 1}
		if r.P(1, 3) {
			l.Every = r.Range(2, 6)
		}
		if r.P(2, 3) || l.Mode != "stream" {
			l.Crash = r.Geom(1 << r.Range(0, 6))
		}
		l.Peek = r.P(1, 4)
		if r.P(1, 3) { // tokens are changed in place, or their memory is used again
			l.Wipe = []byte(prng.Pick(r, []string{"*", "a", "1", " ", "\n", "\r", "\x1b", "\x00", "\xff", "\u0301", "\u200d", "\U0001F1E6", ".", "\u05d0", "ab", "\xcc", "\u0915\u094d"}))
		}
		if l.Mode == "stream" {
			l.Steps = simio.Chunking(r, len(p.Text), nil, r.P(1, 4))
			if r.P(2, 3) {
				l.Cut = r.Geom(1 + len(p.Text)/r.Range(1, 4))
				l.Final = prng.Pick(r, simio.ErrorKinds)
				l.With = r.P(1, 3)
				l.Panic = r.P(1, 6)
			}
			if r.P(1, 6) {
				l.Buf = r.Range(1, 60)
			}
			for i := range l.Steps { // the end is decided by Cut
				l.Steps[i].Err = ""
			}
			if r.P(1, 8) {
				l.Face = prng.Pick(r, simio.Faces)
				if r.P(1, 2) {
					l.Face = prng.Pick(r, simio.StaticFaces)
				}
			}
		}
		p.Lives = append(p.Lives, l)
	}
	p.Last = prng.Pick(r, modes)
	return p
}

// escapesInto puts escape sequences, whole and torn, into a text.
func escapesInto(r *prng.R, b []byte) []byte {
	var at []int
	for n := r.Range(1, 6); n > 0; n-- {
		at = append(at, r.Intn(len(b)+1))
	}
	sort.Ints(at)
	var o []byte
	last := 0
	for _, a := range at {
		o = append(o, b[last:a]...)
		o = append(o, prng.Pick(r, []string{"\x1b[0m", "\x1b[1;31m", "\x1b]0;t\x07", "\x1b]8;;u\x1b\\", "\x1bP1\x1b\\", "\x1b(B", "\x1b[", "\x1b]", "\x1bP", "\x9b1m", "\x9dx\x9c", "\x90", "\x1b", "\x9c", "\x07", "\x18", "\x1a", "\x98"})...)
		last = a
	}
	return append(o, b[last:]...)
}

func execResume(c *engine.Ctx, pl any) {
	p := pl.(*RPlan)
	opt := func(str bool) sut.Opt {
		o := sut.Opt{Str: str, Ansi: p.A7, Ansi8: p.A8}
		if p.Jo != nil {
			o.JB, o.JS = sut.BytesJoiners(p.Jo), sut.StringJoiners(p.Jo)
		}
		return o
	}
	want := iterate(c, p.Kind, p.Text, opt(false))
	text := append([]byte(nil), p.Text...)
	c.HashInts(want...)
	var held sut.Iter // iterator that outlives its consumer
	heldStr := false
	done, tok := 0, 0 // durable: bytes and tokens processed
	lives := append(append([]Life(nil), p.Lives...), Life{Mode: p.Last, Cut: -1, Crash: -1, Every: 1})
	h := prng.Mix(uint64(p.Kind), prng.HashString(string(p.Text)))
	for li, l := range lives {
		final := li == len(lives)-1
		rest := text[done:]
		base, first := done, tok
		n := 0 // tokens in this life
		// handle checks a token and takes note of it
		handle := func(end int, b []byte) (alive bool) {
			i := first + n
			e := base + end
			if i >= len(want) || want[i] != e {
				s := base
				if i > 0 && i-1 < len(want) {
					s = want[i-1]
				}
				w := "no token"
				if i < len(want) {
					w = fmt.Sprintf("%q", p.Text[s:want[i]])
				}
				c.Fail("resumed run differs: %v: life %d (%s) that began at byte %d gives token %s as number %d of the text, an uninterrupted run gives %s (text there: %s)",
					p.Kind, li, l.Mode, base, show(b), i, w, show(p.Text[s:]))
			}
			n++
			if n%l.Every == 0 {
				for j := done; j < e && len(l.Wipe) > 0; j++ {
					text[j] = l.Wipe[(j-done)%len(l.Wipe)]
				}
				for j := range b {
					if len(l.Wipe) > 0 && l.Mode == "stream" {
						b[j] = l.Wipe[j%len(l.Wipe)]
					}
				}
				if len(l.Wipe) > 0 {
					c.Count("tokens_overwritten", 1)
				}
				done, tok = e, first+n
			}
			return n != l.Crash
		}
		h = prng.Mix(h, uint64(done), prng.HashString(l.Mode), uint64(l.Crash+1), uint64(l.Cut+1))
		ended := "" // why the life ended, "" when the text did
		switch {
		case l.Crash == 0:
			ended = "crash"
		case l.Mode == "stream":
			ended = p.liveStream(c, &l, rest, handle)
		default:
			str := l.Mode == "string"
			func() {
				vsim.Arm(budget(len(rest)))
				defer vsim.Disarm()
				var it sut.Iter
				if l.Mode == "settext" && held != nil {
					it, str = held, heldStr
					it.SetText(rest)
				} else {
					it = sut.NewIter(p.Kind, rest, opt(str))
				}
				held, heldStr = it, str
				pos := 0
				whole := string(rest)
				for {
					if l.Peek {
						it.First()
					}
					if !it.Next() {
						break
					}
					if it.Start() != pos || it.End() <= pos || it.End() > len(rest) || string(it.Value()) != whole[pos:it.End()] {
						c.Fail("iterator position: %v life %d: token [%d,%d) %s after %d in %s", p.Kind, li, it.Start(), it.End(), show(it.Value()), pos, show(rest))
					}
					pos = it.End()
					if !handle(pos, it.Value()) {
						ended = "crash"
						return
					}
				}
				if pos != len(rest) {
					c.Fail("lost bytes: %v life %d stopped at %d of %d bytes", p.Kind, li, pos, len(rest))
				}
			}()
		}
		if ended == "" && first+n != len(want) {
			c.Fail("resumed run incomplete: %v: life %d (%s) that began at byte %d ends after %d of %d tokens", p.Kind, li, l.Mode, base, first+n, len(want))
		}
		if final && ended != "" {
			c.Fail("no progress: %v: the last life, with no fault, ended with %s", p.Kind, ended)
		}
		c.Count("lives."+l.Mode, 1)
		if ended == "" {
			ended = "complete"
		}
		c.Count("end."+ended, 1)
		if c.Tracing() {
			c.Log("life %d %s from byte %d: %d tokens, %s, checkpoint %d", li, l.Mode, base, n, ended, done)
		}
		c.HashInts(li, n, done)
		if ended == "complete" {
			break
		}
		if done > base && done < len(p.Text) {
			c.Count("restarts_inside_text", 1)
		}
	}
	if len(want) >= 2 && len(p.Lives) > 0 {
		c.State(h)
	}
}

// liveStream runs a life over a stream.
func (p *RPlan) liveStream(c *engine.Ctx, l *Life, rest []byte, handle func(end int, b []byte) bool) (ended string) {
	r := &simio.Reader{Data: rest}
	size := len(rest)
	if l.Cut >= 0 {
		size = min(size, l.Cut)
	}
	n := 0
	for _, s := range l.Steps { // the schedule covers the whole text
		if n+s.N >= size {
			break
		}
		n += s.N
		r.Steps = append(r.Steps, s)
	}
	if l.Cut >= 0 && l.Cut < len(rest) {
		r.Data = rest[:l.Cut]
		r.Final = simio.ErrorFor(l.Final)
		if l.With && !l.Panic {
			r.Steps = append(r.Steps, simio.Step{N: l.Cut - n, Err: l.Final})
		}
		if l.Panic {
			r.Final = nil
			r.OnRead = func(r *simio.Reader, lent int) {
				if r.Sent == len(r.Data) {
					panic(readerPanic{})
				}
			}
		}
	}
	vsim.Arm(budget(len(rest)))
	defer vsim.Disarm()
	defer func() {
		c.SimNs += r.Now
		c.Count("reads", int64(r.Reads))
		if e := recover(); e != nil {
			if _, ok := e.(readerPanic); !ok {
				panic(e)
			}
			ended = "panic_in_read"
		}
	}()
	var in io.Reader = r
	if l.Face != "" && (l.Cut < 0 || slices.Contains(simio.Faces, l.Face)) {
		in = simio.Faced(l.Face, r)
		c.Count("face."+l.Face, 1)
	}
	var jo = p.Jo
	var sc sut.Scanner
	if jo != nil {
		sc = sut.NewScanner(p.Kind, in, sut.BytesJoiners(jo))
	} else {
		sc = sut.NewScanner(p.Kind, in, nil)
	}
	if l.Buf > 0 {
		sc.Buffer(nil, l.Buf)
	} else {
		sc.Buffer(nil, 1<<20)
	}
	pos := 0
	for sc.Scan() {
		b := sc.Bytes()
		if r.Done && r.Final != nil {
			// The stream has failed: this may be only a part of a token. A
			// careful consumer leaves it to its successor.
			c.Count("tokens_left_to_successor", 1)
			continue
		}
		if len(b) == 0 || pos+len(b) > len(r.Data) || !bytes.Equal(b, r.Data[pos:pos+len(b)]) {
			c.Fail("token is not the text: %v: token %s at byte %d of %s", p.Kind, show(b), pos, show(r.Data))
		}
		pos += len(b)
		if !handle(pos, b) {
			return "crash"
		}
	}
	switch err := sc.Err(); {
	case err == bufio.ErrTooLong && l.Buf > 0:
		return "too_long"
	case err != nil && r.Final != nil && simio.SameErr(err, r.Final):
		return "failure"
	case err != nil:
		c.Fail("wrong error: %v: the stream ended with %v, Err is %v", p.Kind, r.Final, err)
	case r.Final != nil:
		c.Fail("failure not reported: %v: the stream failed with %v after %d bytes, Err is nil", p.Kind, r.Final, len(r.Data))
	}
	return ""
}

func shrinkResume(pl any) []any {
	p := pl.(*RPlan)
	var out []any
	add := func(f func(q *RPlan)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	for i := range p.Lives {
		add(func(q *RPlan) { q.Lives = append(q.Lives[:i], q.Lives[i+1:]...) })
	}
	for i, l := range p.Lives {
		if l.Mode != "bytes" {
			add(func(q *RPlan) { q.Lives[i].Mode = "bytes"; q.Lives[i].Steps = nil })
		}
		if len(l.Steps) > 0 {
			add(func(q *RPlan) { q.Lives[i].Steps = nil })
			for k := range l.Steps {
				if k < 40 {
					add(func(q *RPlan) { q.Lives[i].Steps = append(q.Lives[i].Steps[:k], q.Lives[i].Steps[k+1:]...) })
				}
			}
		}
		if len(l.Wipe) > 0 {
			add(func(q *RPlan) { q.Lives[i].Wipe = nil })
		}
		if l.Every > 1 {
			add(func(q *RPlan) { q.Lives[i].Every = 1 })
		}
		if l.Crash > 1 {
			add(func(q *RPlan) { q.Lives[i].Crash = 1 })
			add(func(q *RPlan) { q.Lives[i].Crash-- })
		}
		if l.Panic || l.With || l.Peek {
			add(func(q *RPlan) { q.Lives[i].Panic, q.Lives[i].With, q.Lives[i].Peek = false, false, false })
		}
		if l.Cut > 0 {
			add(func(q *RPlan) { q.Lives[i].Cut-- })
			add(func(q *RPlan) { q.Lives[i].Cut = -1 })
		}
		if l.Face != "" {
			add(func(q *RPlan) { q.Lives[i].Face = "" })
		}
		if l.Buf > 0 {
			add(func(q *RPlan) { q.Lives[i].Buf = 0 })
		}
		if l.Final != "" && l.Final != "boom" {
			add(func(q *RPlan) { q.Lives[i].Final = "boom" })
		}
	}
	if p.Jo != nil {
		add(func(q *RPlan) { q.Jo = nil })
		for i := range p.Jo.Middle {
			add(func(q *RPlan) { q.Jo.Middle = append(append([]rune(nil), p.Jo.Middle[:i]...), p.Jo.Middle[i+1:]...) })
		}
		for i := range p.Jo.Leading {
			add(func(q *RPlan) {
				q.Jo.Leading = append(append([]rune(nil), p.Jo.Leading[:i]...), p.Jo.Leading[i+1:]...)
			})
		}
	}
	if p.A7 {
		add(func(q *RPlan) { q.A7 = false })
	}
	if p.A8 {
		add(func(q *RPlan) { q.A8 = false })
	}
	if p.Last != "bytes" {
		add(func(q *RPlan) { q.Last = "bytes" })
	}
	for _, t := range shrinkText(p.Text) {
		add(func(q *RPlan) { q.Text = t })
	}
	return out
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C21", Title: "work can stop at any token and be taken up again there",
		Level: "exploration", Batch: 1000, Runs: runs(600000, 12000000),
		Rule:    "each run draws a tokenizer with its options, a text (valid, damaged or garbage) and a history of lives: each opens the text at the checkpoint of the one before through a stream, a byte slice, a string or a re-used iterator, and is ended by a crash after some token, a stream failure (with or without data), a reader that panics, or a full buffer; the last one meets no fault. Non-trivial: " + resumeMeasure,
		Measure: resumeMeasure, Real: realAll, Stub: append([]string{"crash: the consumer and its scanner or iterator are dropped, the checkpoint stays"}, stubStream...),
		New: func() any { return &RPlan{} }, Shrink: shrinkResume,
		Summary: func(pl any) string {
			p := pl.(*RPlan)
			o := fmt.Sprintf("%v text=%s ansi=%v/%v", p.Kind, show(p.Text), p.A7, p.A8)
			if p.Jo != nil {
				o += fmt.Sprintf(" joiners=%q/%q", string(p.Jo.Middle), string(p.Jo.Leading))
			}
			for _, l := range p.Lives {
				o += fmt.Sprintf(" [%s crash=%d cut=%d/%s with=%v panic=%v buf=%d face=%s every=%d wipe=%q]", l.Mode, l.Crash, l.Cut, l.Final, l.With, l.Panic, l.Buf, l.Face, l.Every, l.Wipe)
			}
			return o + " last=" + p.Last
		},
		Gen: planResume, Exec: execResume,
	})
}

const resumeMeasure = "distinct (text, history of lives with their checkpoints) by hash, over runs with at least two tokens"
