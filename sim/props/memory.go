package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"unsafe"
	"weak"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"

	"github.com/clipperhouse/uax29/v2/words"
)

// MPlan is one use of memory (C20).  Text number i of the plan is a drawn
// sequence of the units, so that texts are alike but not equal.
type MPlan struct {
	Mode  string       `json:"mode"` // iterate, stream, split, release
	Kind  ref.Kind     `json:"kind"`
	Str   bool         `json:"str,omitempty"`
	Own   bool         `json:"own,omitempty"`     // a caller's own text type
	Gener bool         `json:"generic,omitempty"` // the generic iterator with the exported split function
	Ansi  int          `json:"ansi,omitempty"`
	Jo    *ref.Joiners `json:"joiners,omitempty"`
	Units [][]byte     `json:"units"`
	Seed  uint64       `json:"seed"`
	Size  int          `json:"size"`
	Peek  int          `json:"peek,omitempty"`  // First every so many tokens
	Short int          `json:"short,omitempty"` // iterate: the text is given in texts of so many bytes
	Stop  int          `json:"stop,omitempty"`  // release: tokens taken before the text is given up
	Chunk []int        `json:"chunks,omitempty"`
	Max   int          `json:"max,omitempty"`  // stream: buffer limit
	End   string       `json:"end,omitempty"`  // stream: how it ends
	Face  string       `json:"face,omitempty"` // stream: what else the reader is
}

func (p *MPlan) text(i, n int) []byte {
	r := prng.New(prng.Mix(p.Seed, uint64(i)))
	t := make([]byte, 0, n+64)
	for len(t) < n {
		t = append(t, p.Units[r.Intn(len(p.Units))]...)
	}
	return t
}

func (p *MPlan) iter(text []byte) sut.Iter {
	if p.Gener {
		b := sut.SplitFunc(p.Kind)
		return sut.NewGeneric(text, false, sut.SplitB(b), nil)
	}
	o := sut.Opt{Str: p.Str, Ansi: p.Ansi&1 != 0, Ansi8: p.Ansi&2 != 0}
	if p.Jo != nil && p.Kind == ref.Words {
		o.JB, o.JS = sut.BytesJoiners(p.Jo), sut.StringJoiners(p.Jo)
		o.Named = p.Own
	}
	return sut.NewIter(p.Kind, text, o)
}

// warm lets the collector start its workers before anything is measured.
var warm = sync.OnceFunc(func() { runtime.GC(); runtime.GC() })

// allocated is the bytes allocated so far in this process.
func allocated() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

// inUse is the bytes that are still referenced.
func inUse() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const (
	memTexts = 6   // texts measured at most
	memSlack = 512 // bytes a text may cost whatever its length
)

func execMemory(c *engine.Ctx, pl any) {
	p := pl.(*MPlan)
	n := 0
	for _, u := range p.Units {
		n += len(u)
	}
	if n == 0 || p.Size <= 0 {
		return
	}
	warm()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	c.Count("mode "+p.Mode, 1)
	switch p.Mode {
	case "iterate":
		p.iterate(c)
	case "split":
		p.split(c)
	case "stream":
		p.stream(c)
	default:
		p.release(c)
	}
	c.State(prng.HashString(p.describe()))
}

// iterate: after one text to warm up, further texts cost nothing.
func (p *MPlan) iterate(c *engine.Ctx) {
	it := p.iter(p.text(0, p.Size))
	sut.Walk(it, p.Peek, 1<<60)
	least, len4 := int64(1)<<60, 0
	for i := 1; i <= memTexts; i++ {
		b := p.text(i, p.Size)
		s := string(b)
		before := allocated()
		n, sum, step := 0, 0, p.Short
		if step <= 0 {
			step = len(b)
		}
		for at := 0; at < len(b); at += step {
			to := min(at+step, len(b))
			sut.Give(it, b[at:to], s[at:to])
			m, u := sut.Walk(it, p.Peek, 1<<60)
			n, sum = n+m, sum+u
		}
		it.Reset()
		used := allocated() - before
		if i == 1 { // whether there are more depends on the runtime's own allocations
			c.HashInts(n, sum)
		}
		c.Count("tokens", int64(n))
		c.Count("bytes of text", int64(len(b)))
		if used < least {
			least, len4 = used, len(b)
		}
		if used <= memSlack {
			return
		}
	}
	c.Fail("allocates while iterating: at least %d bytes for every text of %d bytes: %s", least, len4, p.describe())
}

// split: the exported split functions over windows of a text.
func (p *MPlan) split(c *engine.Ctx) {
	f := sut.SplitFunc(p.Kind)
	least := int64(1) << 60
	for i := 0; i <= memTexts; i++ {
		b := p.text(i, p.Size)
		before := allocated()
		n, k := 0, 0
		for pos, end := 0, 0; pos < len(b); {
			end += p.Chunk[k%len(p.Chunk)]
			k++
			if end > len(b) {
				end = len(b)
			}
			for pos < end {
				adv, tok, err := f(b[pos:end], end == len(b))
				if err != nil || adv < 0 || adv > end-pos || adv == 0 && end == len(b) {
					return // other properties speak of this
				}
				if adv == 0 {
					break
				}
				n += len(tok)
				pos += adv
			}
		}
		used := allocated() - before
		if i <= 1 {
			c.HashInts(i, n)
		}
		c.Count("bytes of text", int64(len(b)))
		c.Count("windows", int64(k))
		if i > 0 && used < least {
			least = used
		}
		if i > 0 && used <= memSlack {
			return
		}
	}
	c.Fail("split function allocates: at least %d bytes for every text of %d bytes: %s", least, p.Size, p.describe())
}

// memReader delivers a text in the plan's pieces and allocates nothing.
type memReader struct {
	text     []byte
	chunks   []int
	k        int
	err      error
	with     bool // the end comes together with the last bytes
	short    int64
	empties  int64
	scribble bool
}

func (r *memReader) Read(b []byte) (int, error) {
	n := r.chunks[r.k%len(r.chunks)]
	r.k++
	if len(r.text) == 0 {
		return 0, r.err
	}
	if n == 0 {
		r.empties++
		return 0, nil
	}
	n = min(n, len(r.text), len(b))
	if n < len(b) {
		r.short++
	}
	copy(b, r.text[:n])
	if r.scribble {
		for i := n; i < len(b) && i < n+8; i++ {
			b[i] = 0xAA
		}
	}
	r.text = r.text[n:]
	if len(r.text) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

func (p *MPlan) reader(text []byte) *memReader {
	r := &memReader{text: text, chunks: p.Chunk, err: io.EOF}
	switch p.End {
	case "with":
		r.with = true
	case "error":
		r.err = simio.ErrorFor("boom")
	case "error-with":
		r.err, r.with = simio.ErrorFor("boom"), true
	case "scribble":
		r.scribble = true
	}
	return r
}

// richMemReader has what files, connections and buffers also have.
type richMemReader struct{ *memReader }

var errNoSeek = errors.New("illegal seek")

func (r richMemReader) Len() int                       { return len(r.text) }
func (r richMemReader) Size() int64                    { return int64(len(r.text)) }
func (r richMemReader) Seek(int64, int) (int64, error) { return 0, errNoSeek }
func (r richMemReader) Close() error                   { return nil }
func (r richMemReader) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(r.text)
	r.text = r.text[n:]
	if err == nil && r.err != io.EOF {
		err = r.err
	}
	return int64(n), err
}

func (p *MPlan) scan(c *engine.Ctx, i, size int) (int64, int) {
	text := p.text(i, size)
	r := p.reader(text)
	var in io.Reader = r
	switch p.Face {
	case "rich":
		in = richMemReader{r}
	case "bytes":
		in = bytes.NewReader(text)
	case "buffer":
		in = bytes.NewBuffer(text)
	case "strings":
		in = strings.NewReader(string(text))
	case "bufio":
		in = bufio.NewReader(r)
	}
	if p.Face != "" {
		c.Count("face "+p.Face, 1)
	}
	before := allocated()
	var sc sut.Scanner
	if p.Jo != nil && p.Kind == ref.Words {
		sc = sut.NewScanner(p.Kind, in, sut.BytesJoiners(p.Jo))
	} else {
		sc = sut.NewScanner(p.Kind, in, nil)
	}
	if p.Max > 0 {
		sc.Buffer(nil, p.Max)
	}
	n, sum := 0, 0
	for sc.Scan() {
		n++
		sum += len(sc.Bytes())
	}
	used := allocated() - before
	c.HashInts(i, n, sum)
	c.Count("tokens", int64(n))
	c.Count("bytes of text", int64(sum))
	c.Count("fault: short read", r.short)
	c.Count("fault: empty read", r.empties)
	if p.End != "" {
		c.Count("fault: end "+p.End, 1)
	}
	return used, sum
}

// stream: eight times the stream may not take more memory than the buffers.
func (p *MPlan) stream(c *engine.Ctx) {
	max := p.Max
	if max < 64<<10 {
		max = 64 << 10
	}
	p.scan(c, 0, p.Size/8)
	small, n1 := p.scan(c, 1, p.Size/8)
	large, n2 := p.scan(c, 2, p.Size)
	// whatever the pieces, bufio doubles its buffer up to the limit
	if large-small > int64(4*max) && large-small > int64(n2-n1)/8 {
		c.Fail("memory grows with the stream: %d bytes allocated for a stream of %d bytes, %d for %d: %s", small, n1, large, n2, p.describe())
	}
}

//go:noinline
func (p *MPlan) use(c *engine.Ctx, i int, it sut.Iter) weak.Pointer[byte] {
	b := p.text(i, p.Size)
	s := string(b)
	w := weak.Make(&b[0])
	if p.Str {
		w = weak.Make(unsafe.StringData(s))
	}
	sut.Give(it, b, s)
	n, sum := sut.Walk(it, p.Peek, p.Stop)
	c.HashInts(n, sum)
	c.Count("bytes of text", int64(len(b)))
	return w
}

//go:noinline
func (p *MPlan) window(c *engine.Ctx, i int) weak.Pointer[byte] {
	b := p.text(i, p.Size)
	f := sut.SplitFunc(p.Kind)
	for pos, n := 0, 0; pos < len(b) && n < p.Stop; n++ {
		adv, _, err := f(b[pos:], true)
		if err != nil || adv <= 0 || adv > len(b)-pos {
			break
		}
		pos += adv
	}
	f(b, false)
	c.Count("bytes of text", int64(len(b)))
	return weak.Make(&b[0])
}

//go:noinline
func (p *MPlan) abandon(c *engine.Ctx, i int) weak.Pointer[memReader] {
	r := p.reader(p.text(i, p.Size))
	sc := sut.NewScanner(p.Kind, r, nil)
	for n := 0; n < p.Stop && sc.Scan(); n++ {
	}
	return weak.Make(r)
}

// configure makes an iterator and a scanner with joiners of their own, uses
// them, and gives all of it up.
//
//go:noinline
func (p *MPlan) configure(c *engine.Ctx, text []byte) (b weak.Pointer[words.Joiners[[]byte]], s weak.Pointer[words.Joiners[string]], sc weak.Pointer[words.Joiners[[]byte]]) {
	j := p.Jo
	if j == nil || j.Nil {
		j = &ref.Joiners{Middle: []rune{'-'}, Leading: []rune{'#'}}
	}
	jb, js, jsc := sut.BytesJoiners(j), sut.StringJoiners(j), sut.BytesJoiners(j)
	n, sum := 0, 0
	for _, str := range []bool{false, true} {
		a, u := sut.Walk(sut.NewIter(ref.Words, text, sut.Opt{Str: str, JB: jb, JS: js}), p.Peek, p.Stop)
		n, sum = n+a, sum+u
	}
	w := sut.NewScanner(ref.Words, p.reader(text), jsc)
	for k := 0; k < p.Stop && w.Scan(); k++ {
		n++
	}
	c.HashInts(n, sum)
	return weak.Make(jb), weak.Make(js), weak.Make(jsc)
}

// crowd makes iterators, windows and scanners by the thousand, each for a
// short text of its own.
//
//go:noinline
func (p *MPlan) crowd(text []byte, n int) {
	f := sut.SplitFunc(p.Kind)
	for i := 0; i < n; i++ {
		b := text[i%len(text):]
		if len(b) > 40 {
			b = b[:40]
		}
		b = append([]byte(nil), b...)
		sut.Walk(p.iter(b), 0, 3)
		f(b, true)
		r := &memReader{text: b, chunks: p.Chunk, err: io.EOF}
		sc := sut.NewScanner(p.Kind, r, nil)
		sc.Buffer(make([]byte, 0, 64), 64)
		sc.Scan()
	}
}

// release: what is no longer used is no longer referenced.
func (p *MPlan) release(c *engine.Ctx) {
	kept := p.iter([]byte("x")) // lives on, with another text
	gone := p.iter([]byte("x"))
	w := p.use(c, 0, kept)
	sut.Give(kept, []byte("y z"), "y z")
	if p.Seed&1 == 0 {
		sut.Walk(kept, 0, 1)
	}
	w2 := p.use(c, 1, gone)
	gone = nil
	w3 := p.window(c, 2)
	w4 := p.abandon(c, 3)
	w5, w6, w7 := p.configure(c, p.text(3, 200))
	base := inUse()
	if w5.Value() != nil || w6.Value() != nil {
		c.Fail("joiners still referenced after their iterator is gone: %s", p.describe())
	}
	if w7.Value() != nil {
		c.Fail("joiners still referenced after their scanner is gone: %s", p.describe())
	}
	if w.Value() != nil {
		c.Fail("text still referenced after it was replaced in the iterator: %s", p.describe())
	}
	if w2.Value() != nil {
		c.Fail("text still referenced after its iterator is gone: %s", p.describe())
	}
	if w3.Value() != nil {
		c.Fail("window still referenced after the split function returned: %s", p.describe())
	}
	if w4.Value() != nil {
		c.Fail("reader still referenced after its scanner is gone: %s", p.describe())
	}
	// copies are seen as memory that stays in use
	total := 0
	for i := 4; i < 20; i++ {
		p.use(c, i, kept)
		p.window(c, i)
		p.abandon(c, i)
		total += 3 * p.Size
	}
	sut.Give(kept, nil, "")
	if grown := inUse() - base; grown > int64(total)/8 {
		c.Fail("memory stays in use: %d bytes after texts of together %d bytes: %s", grown, total, p.describe())
	}
	const many = 4000
	text := p.text(20, p.Size)
	p.crowd(text, 50)
	base = inUse()
	p.crowd(text, many)
	if grown := inUse() - base; grown > many*24 {
		c.Fail("memory stays in use: %d bytes after %d iterators, windows and scanners: %s", grown, many, p.describe())
	}
	runtime.KeepAlive(kept)
	c.Count("texts given up", 52)
}

func (p *MPlan) describe() string {
	s := fmt.Sprintf("%s %v units=%q size=%d", p.Mode, p.Kind, p.Units, p.Size)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return fmt.Sprintf("%s ansi=%d str=%v own=%v generic=%v joiners=%v peek=%d short=%d chunks=%v max=%d end=%s face=%s", s, p.Ansi, p.Str, p.Own, p.Gener, p.Jo != nil, p.Peek, p.Short, p.Chunk, p.Max, p.End, p.Face)
}

func planMemory(r *prng.R, tier string, i int) any {
	p := &MPlan{Kind: ref.Kind(i % int(ref.NKinds)), Str: r.P(1, 2), Seed: r.Uint64(), Size: 1 << r.Range(9, 13)}
	g := gen()
	switch {
	case i%61 == 3:
		p.Mode, p.Size, p.Stop = "release", 1<<r.Range(13, 15), 1+r.Geom(200)
		if r.P(1, 4) {
			p.Stop = 1 << 30
		}
	case i%41 == 7:
		p.Mode, p.Size = "stream", 1<<20
	case i%5 == 1:
		p.Mode = "split"
	default:
		p.Mode = "iterate"
	}
	for n := r.Range(1, 12); n > 0; n-- {
		var b []byte
		switch r.Intn(6) {
		case 0:
			b = g.Text(r, p.Kind, 1+r.Geom(30))
		case 1:
			b = []byte(string(g.Cell(r)))
		case 2:
			b = []byte(prng.Pick(r, []string{" ", ". ", "\r\n", "a", "the ", "\n", "3.14", "e.g. ", ",", "日本", "é", "\u0301", "👩‍🚀"}))
		default:
			b = []byte(string(g.Frag(r, p.Kind)))
		}
		if r.P(1, 20) {
			b = append(b, prng.Pick(r, [][]byte{{0xFF}, {0xE4, 0xB8}, {0xF0, 0x9F}, {0xC3}, {0x80}})...)
		}
		if len(b) > 0 {
			p.Units = append(p.Units, b)
		}
	}
	if len(p.Units) == 0 {
		p.Units = [][]byte{[]byte("a ")}
	}
	if p.Mode != "stream" && r.P(1, 2) {
		p.Peek = 1 + r.Geom(8)
	}
	if p.Mode == "iterate" && r.P(1, 4) {
		p.Short = 1 + r.Geom(100)
	}
	for n := r.Range(1, 6); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			p.Chunk = append(p.Chunk, 4096)
		case 1:
			p.Chunk = append(p.Chunk, 1+r.Geom(2000))
		case 2:
			p.Chunk = append(p.Chunk, 1<<r.Range(3, 14))
		default:
			p.Chunk = append(p.Chunk, 1+r.Geom(50))
		}
	}
	if p.Mode == "stream" {
		if r.P(1, 4) {
			p.Chunk = append(p.Chunk, 0)
		}
		if r.P(1, 3) {
			p.Max = 1 << r.Range(6, 17)
		}
		p.End = prng.Pick(r, []string{"", "with", "error", "error-with", "scribble"})
		if r.P(1, 2) {
			p.Face = prng.Pick(r, []string{"rich", "rich", "bytes", "buffer", "strings", "bufio"})
		}
	}
	if p.Kind == ref.Graphemes && r.P(1, 2) {
		p.Ansi = r.Range(1, 3)
		for n := r.Range(1, 3); n > 0; n-- {
			p.Units = append(p.Units, []byte(prng.Pick(r, []string{"\x1b[0m", "\x1b[1;31m", "\x1b]0;t\x07", "\x1bP1\x1b\\", "\x1b(B", "\x1b[", "\x9b1m", "\x9dx\x9c", "\x90", "\x1b"})))
		}
	}
	if p.Kind == ref.Words && r.P(1, 2) {
		p.Jo = &ref.Joiners{Middle: []rune{g.Cell(r), '-'}, Leading: []rune{g.Cell(r), '#'}}
		p.Own = r.P(1, 2)
		if r.P(1, 3) {
			for n := 1 + r.Geom(30); n > 0; n-- {
				p.Jo.Middle = append(p.Jo.Middle, g.Cell(r))
				p.Jo.Leading = append(p.Jo.Leading, g.Cell(r))
			}
		}
		for n := r.Range(1, 3); n > 0; n-- {
			p.Units = append(p.Units, []byte(string(append([]rune("ab"), prng.Pick(r, append(p.Jo.Middle, p.Jo.Leading...)), 'c'))))
		}
		if r.P(1, 8) {
			p.Jo = &ref.Joiners{Nil: true}
		}
	} else if (p.Mode == "iterate" || p.Mode == "release") && p.Ansi == 0 && r.P(1, 6) {
		p.Gener, p.Str = true, false
	}
	return p
}

func shrinkMemory(pl any) []any {
	p := pl.(*MPlan)
	var out []any
	try := func(f func(q *MPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	for i := range p.Units {
		if len(p.Units) > 1 {
			try(func(q *MPlan) {
				q.Units = append(append([][]byte(nil), p.Units[:i]...), p.Units[i+1:]...)
			})
		}
	}
	if p.Size > 64 {
		try(func(q *MPlan) { q.Size /= 2 })
	}
	if p.Peek > 0 {
		try(func(q *MPlan) { q.Peek = 0 })
	}
	if p.Short > 0 {
		try(func(q *MPlan) { q.Short = 0 })
	}
	if p.Stop > 1 {
		try(func(q *MPlan) { q.Stop = 1 })
		try(func(q *MPlan) { q.Stop /= 2 })
	}
	if p.Jo != nil {
		try(func(q *MPlan) { q.Jo = nil })
	}
	if p.Own {
		try(func(q *MPlan) { q.Own = false })
	}
	if p.Str {
		try(func(q *MPlan) { q.Str = false })
	}
	if p.Ansi != 0 {
		try(func(q *MPlan) { q.Ansi = 0 })
		try(func(q *MPlan) { q.Ansi &= 1 })
		try(func(q *MPlan) { q.Ansi &= 2 })
	}
	if len(p.Chunk) > 1 {
		try(func(q *MPlan) { q.Chunk = p.Chunk[:1] })
		try(func(q *MPlan) { q.Chunk = p.Chunk[1:] })
	}
	if p.Max > 0 {
		try(func(q *MPlan) { q.Max = 0 })
	}
	if p.Face != "" {
		try(func(q *MPlan) { q.Face = "" })
	}
	if p.End != "" {
		try(func(q *MPlan) { q.End = "" })
	}
	for i, u := range p.Units {
		for _, t := range shrinkText(u) {
			if len(t) > 0 {
				try(func(q *MPlan) {
					q.Units = append([][]byte(nil), p.Units...)
					q.Units[i] = t
				})
			}
		}
	}
	return out
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C20", Title: "Memory stays constant, and nothing is kept", Level: "exploration",
		Runs: map[string]int{"quick": 20000, "thorough": 600000}, Batch: 200,
		New: func() any { return &MPlan{} }, Gen: planMemory, Exec: execMemory, Shrink: shrinkMemory,
		Summary: func(p any) string { return p.(*MPlan).describe() },
		Rule:    "one evaluation gives an iterator, a split function or a stream several drawn texts of one family under one option set and delivery and accounts every allocated byte, or gives up texts, windows and readers and asks the collector whether they are gone; distinct counts different plans",
		Measure: "text families (units, options, delivery)",
		Real:    []string{"the four iterators, scanners and split functions, the generic iterator, the Go allocator and collector, all without instrumentation"},
		Stub:    []string{"the reader"},
		Assume:  []string{"the Go compiler's escape analysis as installed"},
	})
}
