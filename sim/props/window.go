package props

import (
	"bytes"
	"fmt"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/sut"
	"verif.local/sim/textgen"
	"verif.local/sim/vsim"
)

// WPlan drives the exported split functions directly: several streams, each
// with its own growing windows, interleaved call by call, with windows placed
// at changing places of shared buffers that are overwritten between calls.
type WPlan struct {
	Streams []WStream `json:"streams"`
	Order   []int     `json:"order"`           // which stream makes the next call
	Place   []int     `json:"place"`           // offset of the window in its buffer, per call
	Quant   int       `json:"quant,omitempty"` // window sizes are multiples of this, as those of full buffers are
	Noise   uint64    `json:"noise"`           // what buffers are overwritten with
}

// WStream is one stream.
type WStream struct {
	Kind ref.Kind `json:"kind"`
	Text []byte   `json:"text"`
	Grow []int    `json:"grow"` // how much the window grows per call
}

type wstate struct {
	s     *WStream
	pos   int // start of the window
	end   int
	g     int
	again bool // the window was not enough last time
	held  int  // token found, checked against longer windows
	heldN int
	done  bool
	toks  []int
}

const canary = 0x5a

func execWindows(c *engine.Ctx, pl any) {
	p := pl.(*WPlan)
	total := 0
	var st []*wstate
	for i := range p.Streams {
		s := &p.Streams[i]
		st = append(st, &wstate{s: s})
		total += len(s.Text)
	}
	if len(st) == 0 {
		return
	}
	vsim.Arm(budget(total) * 16)
	defer vsim.Disarm()
	noise := prng.New(p.Noise)
	buf := make([]byte, 4096+total)
	call := 0
	// invoke places text[from:to] somewhere and calls the split function.
	invoke := func(k ref.Kind, win []byte, eof bool) (int, []byte) {
		off := 8
		if call < len(p.Place) {
			off += p.Place[call] % 2000
		}
		call++
		for i := off - 8; i < off+len(win)+64 && i < len(buf); i++ {
			buf[i] = canary
		}
		// what follows the window (within its capacity) must not matter
		for i := off + len(win); i < off+len(win)+8; i++ {
			buf[i] = byte(noise.Uint64())
		}
		tail := append([]byte(nil), buf[off+len(win):off+len(win)+64]...)
		w := buf[off : off+len(win)]
		copy(w, win)
		n, tok, err := sut.SplitFunc(k)(w, eof)
		where := fmt.Sprintf("%v.SplitFunc(%s, %v)", k, show(win), eof)
		if err != nil {
			c.Fail("error: %s returned error %v", where, err)
		}
		if n < 0 || n > len(win) {
			c.Fail("advance: %s returned advance %d for %d bytes", where, n, len(win))
		}
		if n == 0 && len(tok) != 0 || n > 0 && !bytes.Equal(tok, win[:n]) {
			c.Fail("token: %s returned advance %d with token %s", where, n, show(tok))
		}
		if eof && len(win) > 0 && n == 0 {
			c.Fail("no progress: %s returned nothing at end of input", where)
		}
		if !bytes.Equal(w, win) || !bytes.Equal(buf[off+len(win):off+len(win)+64], tail) || !bytes.Equal(buf[off-8:off], bytes.Repeat([]byte{canary}, 8)) {
			c.Fail("input modified: %s wrote to its buffer", where)
		}
		out := append([]byte(nil), tok...)
		// the caller re-uses the buffer
		for i := off - 8; i < off+len(win)+64; i++ {
			buf[i] = byte(noise.Uint64())
		}
		c.Count("calls", 1)
		c.HashInts(int(k), n)
		return n, out
	}
	for k := ref.Kind(0); k < ref.NKinds; k++ {
		for _, eof := range []bool{false, true} {
			if n, tok, err := sut.SplitFunc(k)(nil, eof); n != 0 || len(tok) != 0 || err != nil {
				c.Fail("empty window: %v.SplitFunc(nil, %v) gives %d, %q, %v", k, eof, n, tok, err)
			}
		}
	}
	// solo results first, on private memory
	solo := make([][]int, len(st))
	for i, w := range st {
		solo[i] = soloTokens(c, w.s)
	}
	step := func(i int) {
		w := st[i]
		if w.done {
			return
		}
		grow := 1
		if w.g < len(w.s.Grow) {
			grow = w.s.Grow[w.g]
		} else {
			grow = 1 + w.g%7
		}
		w.g++
		w.end = min(len(w.s.Text), w.end+max(grow, 0))
		if q := p.Quant; q > 1 {
			n := w.end - w.pos
			if n%q != 0 || n == 0 || grow > 0 && w.g%3 == 0 {
				n += q - n%q
			}
			w.end = min(len(w.s.Text), w.pos+n)
		}
		if grow == 0 && w.again && w.g > 400 {
			w.end = min(len(w.s.Text), w.end+1)
		}
		win := w.s.Text[w.pos:w.end]
		whole := w.end == len(w.s.Text)
		n, _ := invoke(w.s.Kind, win, false)
		if n == 0 && len(win) > 0 {
			c.Count("asked_for_more", 1)
		}
		if w.heldN > 0 {
			c.Count("longer_windows_compared", 1)
			if n != w.heldN {
				c.Fail("window dependent: %v: the window %s gave a token of %d bytes, the longer window %s gives %d", w.s.Kind, show(w.s.Text[w.pos:w.held]), w.heldN, show(win), n)
			}
		} else if n > 0 {
			w.held, w.heldN = w.end, n
			if m, _ := invoke(w.s.Kind, win, true); m != n {
				c.Fail("end of input differs: %v: the window %s gave a token of %d bytes although it might grow, at end of input it gives %d", w.s.Kind, show(win), n, m)
			}
		}
		if w.heldN > 0 && (whole || w.g%3 == 0) || whole {
			m, _ := invoke(w.s.Kind, w.s.Text[w.pos:], true)
			if w.pos == len(w.s.Text) {
				w.done = true
				return
			}
			if w.heldN > 0 && m != w.heldN {
				c.Fail("window dependent: %v: the window %s gave a token of %d bytes, the complete rest %s at end of input gives %d", w.s.Kind, show(w.s.Text[w.pos:w.held]), w.heldN, show(w.s.Text[w.pos:]), m)
			}
			w.pos += m
			w.toks = append(w.toks, w.pos)
			w.heldN = 0
			if w.end < w.pos {
				w.end = w.pos
			}
			if w.pos == len(w.s.Text) {
				w.done = true
			}
		}
	}
	for _, i := range p.Order {
		step(i % len(st))
	}
	for i, w := range st {
		for guard := 0; !w.done && guard < 20*len(w.s.Text)+2000; guard++ {
			step(i)
		}
		if !w.done {
			engine.Harness("window schedule did not finish")
		}
	}
	for i, w := range st {
		if !equal(w.toks, solo[i]) {
			c.Fail("history dependent: stream %d (%v): %s", i, w.s.Kind, diff(w.s.Text, w.toks, solo[i], "interleaved calls", "calls on its own"))
		}
		if again := soloTokens(c, w.s); !equal(again, solo[i]) {
			c.Fail("history dependent: stream %d (%v): %s", i, w.s.Kind, diff(w.s.Text, again, solo[i], "after the interleaving", "before it"))
		}
	}
	if c.Tracing() {
		for i, w := range st {
			c.Log("stream %d %v: %s", i, w.s.Kind, tokens(w.s.Text, w.toks))
		}
	}
	s := uint64(len(st))
	for _, w := range p.Streams {
		s = prng.Mix(s, uint64(w.Kind), prng.HashString(string(w.Text)))
		for _, g := range w.Grow {
			s = prng.Mix(s, uint64(g))
		}
	}
	for _, o := range p.Order {
		s = prng.Mix(s, uint64(o))
	}
	c.State(s)
}

func soloTokens(c *engine.Ctx, s *WStream) []int {
	var o []int
	for pos := 0; pos < len(s.Text); {
		rest := append([]byte(nil), s.Text[pos:]...)
		n, _, err := sut.SplitFunc(s.Kind)(rest[:len(rest):len(rest)], true)
		if n <= 0 || n > len(rest) || err != nil {
			c.Fail("no progress: %v.SplitFunc(%s, true) returned %d, %v", s.Kind, show(rest), n, err)
		}
		pos += n
		o = append(o, pos)
	}
	return o
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C14", Title: "split functions are stateless, window-monotone and never touch their input",
		Level: "exploration", Batch: 1000, Runs: runs(300000, 5000000),
		Rule:    "each run draws up to four streams (valid, damaged or garbage text), a growth schedule of their windows and an interleaving of the calls; windows move through shared buffers that are overwritten after every call. Non-trivial: " + wMeasure,
		Measure: wMeasure,
		Real:    []string{"graphemes, words, sentences, phrases split functions: all code from the working tree with a yield call before every statement"},
		Stub:    []string{"the scanner that drives a split function: simulated window growth, relocation and buffer re-use"},
		New:     func() any { return &WPlan{} },
		Summary: func(pl any) string {
			p := pl.(*WPlan)
			o := ""
			for i, s := range p.Streams {
				o += fmt.Sprintf("stream%d=%v %s grow=%v ", i, s.Kind, show(s.Text), s.Grow[:min(len(s.Grow), 10)])
			}
			return o + fmt.Sprintf("order=%v", p.Order[:min(len(p.Order), 20)])
		},
		Shrink: func(pl any) []any {
			p := pl.(*WPlan)
			var out []any
			add := func(f func(q *WPlan)) {
				q := &WPlan{Order: append([]int(nil), p.Order...), Place: append([]int(nil), p.Place...), Noise: p.Noise, Quant: p.Quant}
				for _, s := range p.Streams {
					q.Streams = append(q.Streams, WStream{s.Kind, append([]byte(nil), s.Text...), append([]int(nil), s.Grow...)})
				}
				f(q)
				out = append(out, q)
			}
			for i := range p.Streams {
				if len(p.Streams) > 1 {
					add(func(q *WPlan) { q.Streams = append(q.Streams[:i:i], q.Streams[i+1:]...) })
				}
			}
			if len(p.Place) > 0 {
				add(func(q *WPlan) { q.Place = nil })
			}
			if p.Quant > 0 {
				add(func(q *WPlan) { q.Quant = 0 })
			}
			if len(p.Order) > 0 {
				add(func(q *WPlan) { q.Order = nil })
				add(func(q *WPlan) { q.Order = q.Order[:len(q.Order)/2] })
				add(func(q *WPlan) { q.Order = q.Order[len(q.Order)/2:] })
			}
			for i := range p.Streams {
				for _, t := range shrinkText(p.Streams[i].Text) {
					if len(out) < 800 {
						add(func(q *WPlan) { q.Streams[i].Text = t })
					}
				}
				if len(p.Streams[i].Grow) > 0 {
					add(func(q *WPlan) { q.Streams[i].Grow = nil })
					add(func(q *WPlan) { q.Streams[i].Grow = q.Streams[i].Grow[1:] })
				}
			}
			return out
		},
		Gen: func(r *prng.R, tier string, i int) any {
			p := &WPlan{Noise: r.Uint64() >> 1}
			k := ref.Kind(r.Intn(int(ref.NKinds)))
			long := 0
			if r.P(1, 5) {
				p.Quant = 1 << r.Range(2, 6)
				if r.P(1, 60) {
					p.Quant = 1 << r.Range(7, 12)
					long = p.Quant
				}
			}
			for n := r.Range(1, 4); n > 0; n-- {
				s := WStream{Kind: k}
				if r.P(1, 3) {
					s.Kind = ref.Kind(r.Intn(int(ref.NKinds)))
				}
				switch r.Weighted(6, 3, 1) {
				case 0:
					s.Text = gen().Text(r, s.Kind, textgen.Length(r, 60))
				case 1:
					s.Text, _ = textgen.Corrupt(r, gen().Text(r, s.Kind, textgen.Length(r, 60)))
				default:
					s.Text = textgen.Garbage(r, textgen.Length(r, 40))
				}
				if r.P(1, largeEvery) { // one very long token, and large windows
					s.Text = gen().LongToken(r, s.Kind, s.Text, textgen.Large(r)/2)
					for left := len(s.Text); left > 0; {
						g := r.Range(1, 30000)
						if r.P(1, 3) {
							g = r.Range(1, 5)
						}
						left -= g
						s.Grow = append(s.Grow, g)
					}
				}
				if long > 0 {
					if r.P(1, 2) {
						s.Text = gen().LongToken(r, s.Kind, s.Text, r.Range(long/2, long*3))
					} else {
						s.Text = textgen.Amplify(r, s.Text, r.Range(long/2, long*3))
					}
				}
				mode := r.Intn(3)
				for m := r.Intn(40); m > 0; m-- {
					switch mode {
					case 0:
						s.Grow = append(s.Grow, 1)
					case 1:
						s.Grow = append(s.Grow, r.Intn(4))
					default:
						s.Grow = append(s.Grow, r.Intn(20))
					}
				}
				p.Streams = append(p.Streams, s)
			}
			for n := r.Intn(80); n > 0; n-- {
				p.Order = append(p.Order, r.Intn(len(p.Streams)))
				if p.Quant == 0 && r.P(1, 2) {
					p.Place = append(p.Place, r.Intn(4)*r.Intn(500))
				} else {
					p.Place = append(p.Place, 0)
				}
			}
			return p
		},
		Exec: execWindows,
	})
}

const wMeasure = "distinct (stream texts, window growth schedules, call interleaving) combinations by hash"
