package props

import (
	"bytes"
	"io"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
)

// cycle delivers a text again and again: a stream of any length.
type cycle struct {
	unit  []byte
	at    int   // position in the unit
	left  int64 // bytes still to come
	piece int   // at most so many bytes per Read (0: as many as fit)
	end   error
	reads int64
	after int // Reads after the end
	ended bool
}

func (r *cycle) Read(b []byte) (int, error) {
	r.reads++
	if r.left == 0 {
		if r.ended {
			r.after++
		}
		r.ended = true
		return 0, r.end
	}
	if r.piece > 0 && len(b) > r.piece {
		b = b[:r.piece]
	}
	if int64(len(b)) > r.left {
		b = b[:r.left]
	}
	n := 0
	for n < len(b) {
		m := copy(b[n:], r.unit[r.at:])
		if r.at += m; r.at == len(r.unit) {
			r.at = 0
		}
		n += m
	}
	r.left -= int64(n)
	if r.reads&255 == 0 {
		engine.Alive()
	}
	return n, nil
}

// planLong makes of p a very long stream: a paragraph repeated for at least so
// many bytes.
func planLong(r *prng.R, p *Plan, size int64) {
	p.Text = gen().Text(r, p.Kind, r.Range(20, 120))
	p.Text = append(bytes.ReplaceAll(p.Text, []byte{'\r'}, nil), '\n')
	p.Cut, p.Steps, p.Pauses, p.Damage = len(p.Text), nil, nil, nil
	p.SetBuf = false
	p.Rep = int(size/int64(len(p.Text))) + 1
	p.Extra = nil
	if r.P(1, 2) {
		p.Extra = []int{r.Range(500, 5000)}
	}
	if p.Jo != nil {
		p.Jo = joinersFor(r, p.Text, true)
	}
}

// execLong scans a stream that repeats a paragraph: its tokens are those of
// the paragraph, again and again, to the end.
func execLong(c *engine.Ctx, p *Plan) {
	unit := p.Text
	if len(unit) == 0 || unit[len(unit)-1] != '\n' {
		return
	}
	twice := append(append([]byte(nil), unit...), unit...)
	cuts := iterate(c, p.Kind, twice, p.opt(false))
	k := 0
	for k < len(cuts) && cuts[k] < len(unit) {
		k++
	}
	if k == len(cuts) || cuts[k] != len(unit) {
		c.Fail("no boundary after a line feed: %v of %s: %v", p.Kind, show(twice), cuts)
	}
	cuts = cuts[:k+1]
	total := int64(len(unit)) * int64(p.Rep)
	r := &cycle{unit: unit, left: total, end: io.EOF}
	if len(p.Extra) > 0 {
		r.piece = p.Extra[0]
	}
	if p.Final != "" {
		r.end = simio.ErrorFor(p.Final)
	}
	sc := sut.NewScanner(p.Kind, r, p.opt(false).JB)
	var pos int64
	start, i := 0, 0
	for sc.Scan() {
		b := sc.Bytes()
		if !bytes.Equal(b, unit[start:cuts[i]]) {
			c.Fail("long stream differs: %v: token at byte %d of a repeated %s is %s, not %s", p.Kind, pos, show(unit), show(b), show(unit[start:cuts[i]]))
		}
		pos += int64(len(b))
		start = cuts[i]
		if i++; i == len(cuts) {
			start, i = 0, 0
		}
	}
	err := sc.Err()
	if pos != total {
		c.Fail("long stream not read: %v stopped after %d of %d bytes with error %v", p.Kind, pos, total, err)
	}
	if p.Final == "" && err != nil || p.Final != "" && !simio.SameErr(err, r.end) {
		c.Fail("unexpected error: a long stream that ends with %v makes the scanner report %v", r.end, err)
	}
	if r.after > 0 {
		c.Fail("read after the end: %d times", r.after)
	}
	c.HashInts(len(cuts), int(total))
	c.Count("long_streams", 1)
	c.Count("long_stream_mebibytes", total>>20)
	c.State(prng.Mix(prng.HashString(string(unit)), uint64(total)))
}
