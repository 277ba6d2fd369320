// Package props holds one simulation per property.
package props

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"slices"
	"strconv"
	"sync"
	"unicode/utf8"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simio"
	"verif.local/sim/sut"
	"verif.local/sim/textgen"
	"verif.local/sim/vsim"
)

var gen = sync.OnceValue(func() *textgen.Gen { return textgen.New(ref.Unicode17()) })

// budget bounds the statements any tokenizing of n bytes may take; it only
// exists to turn endless work into a repeatable verdict.
// A stream that arrives byte by byte inside one token is looked at again from the
// token's start for every byte, which takes about 35 statements for each byte seen;
// the margin must leave room for other ways to write the same code.
func budget(n int) int64 {
	return 200_000 + int64(n)*4_000 + int64(n)*int64(min(n, 4000))*400
}

// Plan is the common stream plan.
type Plan struct {
	Kind    ref.Kind     `json:"kind"`
	Text    []byte       `json:"text"`
	Show    string       `json:"show,omitempty"`
	Cut     int          `json:"cut"` // bytes delivered before the stream ends
	Steps   []simio.Step `json:"steps,omitempty"`
	Final   string       `json:"final,omitempty"` // how the stream ends ("" is EOF)
	Stall   bool         `json:"stall,omitempty"` // the reader makes no progress any more at the cut
	BufInit int          `json:"buf_init,omitempty"`
	BufMax  int          `json:"buf_max,omitempty"`
	SetBuf  bool         `json:"set_buf,omitempty"`
	Jo      *ref.Joiners `json:"joiners,omitempty"`
	JoPrev  *ref.Joiners `json:"joiners_before,omitempty"` // configured first, then replaced by Jo
	BufPrev bool         `json:"buf_before,omitempty"`     // the buffer is set before the joiners
	Pauses  []int64      `json:"pauses,omitempty"`         // simulated time the consumer spends before each Scan
	Damage  []string     `json:"damage,omitempty"`         // fault kinds applied to the text (names only)
	Sweep   *Sweep       `json:"sweep,omitempty"`
	Extra   []int        `json:"extra,omitempty"`
	Face    string       `json:"face,omitempty"`   // what else the reader is
	Rep     int          `json:"repeat,omitempty"` // the stream is the text so many times
	Sub     []*Plan      `json:"sub,omitempty"`
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Text = append([]byte(nil), p.Text...)
	q.Steps = append([]simio.Step(nil), p.Steps...)
	q.Pauses = append([]int64(nil), p.Pauses...)
	q.Extra = append([]int(nil), p.Extra...)
	if p.Jo != nil {
		j := *p.Jo
		q.Jo = &j
	}
	return &q
}

func show(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func summary(pl any) string {
	p := pl.(*Plan)
	if p.Sweep != nil {
		return fmt.Sprintf("%v sweep of code points %04X-%04X", p.Kind, p.Sweep.From, p.Sweep.To)
	}
	if p.Rep > 0 {
		return fmt.Sprintf("%v stream of %d bytes: %s repeated", p.Kind, p.Rep*len(p.Text), show(p.Text))
	}
	var st string
	for i, s := range p.Steps {
		if i == 12 {
			st += " ..."
			break
		}
		st += fmt.Sprintf(" %d", s.N)
		if s.Wait > 0 {
			st += "+wait"
		}
		if s.Scribble {
			st += "*"
		}
		if s.Err != "" {
			st += "/" + s.Err
		}
	}
	o := fmt.Sprintf("%v text=%s cut=%d/%d deliveries=[%s] end=%q", p.Kind, show(p.Text), p.Cut, len(p.Text), st, p.Final)
	if p.SetBuf {
		o += fmt.Sprintf(" buffer=%d/%d", p.BufInit, p.BufMax)
	}
	if p.Jo != nil {
		if p.Jo.Nil {
			o += " joiners=nil"
		} else {
			o += fmt.Sprintf(" joiners=%q/%q", string(p.Jo.Middle), string(p.Jo.Leading))
		}
	}
	return o
}

// stream is what one simulated scan did.
type stream struct {
	cuts []int // byte offset after each token
	err  error
	r    *simio.Reader
}

// reader builds the simulated reader of a plan.
func (p *Plan) reader(text []byte) *simio.Reader {
	cut := p.Cut
	if cut > len(text) || cut < 0 {
		cut = len(text)
	}
	r := &simio.Reader{Data: text[:cut], Steps: p.Steps}
	if p.Final != "" {
		r.Final = simio.ErrorFor(p.Final)
	}
	if p.Stall {
		st := append([]simio.Step(nil), p.Steps...)
		n := 0
		for i, s := range st {
			if n += s.N; s.Err != "" {
				st = st[:i] // the stall replaces the end of the stream
				break
			}
		}
		if n < cut {
			st = append(st, simio.Step{N: cut - n})
		}
		for i := 0; i < 130; i++ {
			st = append(st, simio.Step{})
		}
		r.Steps = st
	}
	return r
}

// countReader records which delivery faults actually happened.
func countReader(c *engine.Ctx, r *simio.Reader, p *Plan) {
	c.Count("reads", int64(r.Reads))
	if f := p.face(); f != "" {
		c.Count("reader."+f, 1)
	}
	c.Count("delivery.empty_reads", int64(r.Empty))
	c.Count("delivery.waits", int64(r.Blocked))
	pos := 0
	for _, s := range p.Steps {
		pos += s.N
		if s.Scribble {
			c.Count("delivery.scribbles", 1)
		}
		if s.Err != "" && s.N > 0 {
			c.Count("delivery.data_with_"+s.Err, 1)
		}
		if pos < r.Sent && s.N > 0 && pos < len(r.Data) && !utf8.RuneStart(r.Data[pos]) {
			c.Count("delivery.cut_inside_char", 1)
		}
	}
	if r.Done {
		c.Count("stream_end."+endName(p), 1)
	}
	c.SimNs += r.Now
}

func endName(p *Plan) string {
	if p.Stall {
		return "stall"
	}
	if p.Final == "" {
		return "eof"
	}
	return p.Final
}

// face is what else the reader is; a static one cannot fail.
func (p *Plan) face() string {
	if slices.Contains(simio.StaticFaces, p.Face) && (len(p.Steps) > 0 || p.Final != "" || p.Stall || p.Cut < len(p.Text)) {
		return ""
	}
	return p.Face
}

// faceFor draws one.
func faceFor(r *prng.R, p *Plan) {
	if !r.P(1, 10) {
		return
	}
	p.Face = prng.Pick(r, simio.Faces)
	if p.Final == "" && !p.Stall && p.Cut == len(p.Text) && r.P(1, 4) {
		p.Face, p.Steps = prng.Pick(r, simio.StaticFaces), nil
	}
}

// scan runs a scanner over the plan's stream, checking what holds for every
// stream: tokens are non-empty, and together a prefix of what was delivered.
func (p *Plan) scan(c *engine.Ctx, text []byte, r *simio.Reader, each func(i int)) *stream {
	st := &stream{r: r}
	vsim.Arm(budget(len(text)))
	defer vsim.Disarm()
	var sc sut.Scanner
	in := simio.Faced(p.face(), r)
	if p.Jo != nil {
		if p.JoPrev != nil || p.BufPrev {
			sc = sut.NewScanner(p.Kind, in, nil)
			if p.JoPrev != nil {
				sut.ScannerJoiners(sc, sut.BytesJoiners(p.JoPrev))
			}
			if p.SetBuf && p.BufPrev {
				sc.Buffer(make([]byte, p.BufInit), p.BufMax)
			}
			sut.ScannerJoiners(sc, sut.BytesJoiners(p.Jo))
		} else {
			sc = sut.NewScanner(p.Kind, in, sut.BytesJoiners(p.Jo))
		}
	} else {
		sc = sut.NewScanner(p.Kind, in, nil)
	}
	if r.Reads != 0 {
		c.Fail("read before scan: constructing the scanner called Read %d times", r.Reads)
	}
	if p.SetBuf && !(p.BufPrev && p.Jo != nil) {
		sc.Buffer(make([]byte, p.BufInit), p.BufMax)
	}
	pos := 0
	for i := 0; ; i++ {
		if i < len(p.Pauses) {
			r.Now += p.Pauses[i]
		}
		if !sc.Scan() {
			break
		}
		b := sc.Bytes()
		if len(b) == 0 {
			c.Fail("empty token: token %d at byte %d is empty", i, pos)
		}
		if pos+len(b) > r.Sent || !bytes.Equal(b, r.Data[pos:pos+len(b)]) {
			c.Fail("token is not the text: token %d at byte %d is %s, delivered text there is %s", i, pos, show(b), show(r.Data[pos:min(r.Sent, pos+len(b)+8)]))
		}
		if i < 4 && sc.Text() != string(b) {
			c.Fail("text differs from bytes: token %d: %q / %q", i, sc.Text(), b)
		}
		pos += len(b)
		st.cuts = append(st.cuts, pos)
		if each != nil {
			each(i)
		}
	}
	st.err = sc.Err()
	if c.Tracing() {
		c.Log("stream %v: tokens %s err=%v reads=%d", p.Kind, tokens(r.Data, st.cuts), st.err, r.Reads)
	} else {
		c.HashInts(st.cuts...)
		c.HashInts(r.Reads, int(r.Now))
	}
	if st.err == bufio.ErrTooLong {
		return st // what follows a full buffer is bufio's affair
	}
	// stopped means stopped
	reads := r.Reads
	for i := 0; i < 2; i++ {
		if sc.Scan() {
			c.Fail("scan resumed: Scan returned true again after false, token %s", show(sc.Bytes()))
		}
		if !simio.SameErr(sc.Err(), st.err) {
			c.Fail("error changed: Err was %v, now %v", st.err, sc.Err())
		}
	}
	if r.Reads != reads || r.After > 0 {
		c.Fail("read after end: Read was called %d more times after the stream had ended", r.Reads-reads+r.After)
	}
	return st
}

// iterate runs an in-memory iterator and returns the token ends.
func iterate(c *engine.Ctx, k ref.Kind, text []byte, o sut.Opt) []int {
	vsim.Arm(budget(len(text)))
	defer vsim.Disarm()
	it := sut.NewIter(k, text, o)
	var cuts []int
	pos := 0
	for i := 0; it.Next(); i++ {
		if it.Start() != pos || it.End() <= pos || it.End() > len(text) {
			c.Fail("iterator position: %v token %d is [%d,%d), previous end %d, text %d bytes", k, i, it.Start(), it.End(), pos, len(text))
		}
		if v := it.Value(); !bytes.Equal(v, text[pos:it.End()]) {
			c.Fail("iterator value: %v token %d [%d,%d) is %s", k, i, pos, it.End(), show(v))
		}
		pos = it.End()
		cuts = append(cuts, pos)
	}
	if pos != len(text) {
		c.Fail("iterator lost bytes: %v stopped at %d of %d", k, pos, len(text))
	}
	return cuts
}

func (p *Plan) opt(str bool) sut.Opt {
	o := sut.Opt{Str: str}
	if p.Jo != nil {
		o.JB, o.JS = sut.BytesJoiners(p.Jo), sut.StringJoiners(p.Jo)
		if p.JoPrev != nil {
			o.PB, o.PS = sut.BytesJoiners(p.JoPrev), sut.StringJoiners(p.JoPrev)
		}
	}
	return o
}

func tokens(text []byte, cuts []int) string {
	var b bytes.Buffer
	last := 0
	for i, e := range cuts {
		if i == 40 {
			fmt.Fprintf(&b, " ...%d tokens", len(cuts))
			break
		}
		fmt.Fprintf(&b, "[%q]", text[last:e])
		last = e
	}
	return b.String()
}

// diff describes the first difference between two token lists.
func diff(text []byte, got, want []int, gname, wname string) string {
	for i := 0; ; i++ {
		if i < len(got) && i < len(want) && got[i] == want[i] {
			continue
		}
		s := 0
		if i > 0 {
			s = got[i-1]
		}
		tok := func(c []int) string {
			if i >= len(c) {
				return "no token"
			}
			return fmt.Sprintf("%q", text[s:c[i]])
		}
		ctx := text[s:min(len(text), s+60)]
		return fmt.Sprintf("token %d at byte %d: %s gives %s, %s gives %s (text there: %q)", i, s, gname, tok(got), wname, tok(want), ctx)
	}
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runeBounds lists the character boundaries of a valid text.
func runeBounds(b []byte) []int {
	var o []int
	for i := range b {
		if i > 0 && utf8.RuneStart(b[i]) {
			o = append(o, i)
		}
	}
	return o
}

// cutAt draws a cut point; charOnly restricts it to character boundaries.
func cutAt(r *prng.R, b []byte, charOnly bool) int {
	if len(b) == 0 {
		return 0
	}
	c := r.Intn(len(b) + 1)
	if charOnly {
		for c > 0 && c < len(b) && !utf8.RuneStart(b[c]) {
			c--
		}
	}
	return c
}

// shrinkText proposes smaller texts.
func shrinkText(b []byte) [][]byte {
	var out [][]byte
	valid := utf8.Valid(b)
	var parts [][]byte
	if valid {
		for i := 0; i < len(b); {
			_, w := utf8.DecodeRune(b[i:])
			parts = append(parts, b[i:i+w])
			i += w
		}
	} else {
		for i := range b {
			parts = append(parts, b[i:i+1])
		}
	}
	n := len(parts)
	join := func(ps ...[][]byte) []byte {
		o := []byte{}
		for _, p := range ps {
			for _, x := range p {
				o = append(o, x...)
			}
		}
		return o
	}
	for size := n / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= n; i += size {
			out = append(out, join(parts[:i], parts[i+size:]))
			if len(out) > 400 {
				return out
			}
		}
	}
	if valid && n <= 60 {
		for i, p := range parts {
			for _, s := range []string{"a", "1", " ", "."} {
				if len(p) > 1 || (p[0] > 'a' && p[0] <= 'z') || (p[0] >= 'A' && p[0] <= 'Z') {
					out = append(out, join(parts[:i], [][]byte{[]byte(s)}, parts[i+1:]))
				}
			}
		}
	}
	return out
}

func shrinkPlan(pl any) []any {
	p := pl.(*Plan)
	var out []any
	add := func(f func(q *Plan)) {
		q := p.clone()
		f(q)
		out = append(out, q)
	}
	if p.Sweep != nil {
		for _, s := range p.Sweep.shrink() {
			add(func(q *Plan) { q.Sweep = s })
		}
		if p.Sweep.To-p.Sweep.From <= 1 {
			add(func(q *Plan) { q.Text = p.Sweep.text(p.Kind); q.Cut = len(q.Text); q.Sweep = nil })
		}
		if len(p.Steps) > 0 {
			add(func(q *Plan) { q.Steps = nil })
		}
		return out
	}
	if p.Rep > 0 {
		for _, n := range []int{p.Rep / 16, p.Rep / 2, p.Rep / 4 * 3, p.Rep / 16 * 15} {
			if n > 0 && n < p.Rep {
				add(func(q *Plan) { q.Rep = n })
			}
		}
		if len(p.Extra) > 0 {
			add(func(q *Plan) { q.Extra = nil })
		}
		if p.Jo != nil {
			add(func(q *Plan) { q.Jo = nil })
		}
		return out
	}
	if len(p.Steps) > 0 {
		add(func(q *Plan) { q.Steps = nil })
	}
	if p.Face != "" {
		add(func(q *Plan) { q.Face = "" })
	}
	if p.Cut != len(p.Text) && p.Cut >= 0 && p.Cut < len(p.Text) {
		add(func(q *Plan) { q.Text = q.Text[:p.Cut]; q.Cut = len(q.Text) })
	}
	if len(p.Pauses) > 0 {
		add(func(q *Plan) { q.Pauses = nil })
	}
	if p.SetBuf && p.BufMax > 1<<16 {
		add(func(q *Plan) { q.SetBuf = false })
	}
	if p.JoPrev != nil {
		add(func(q *Plan) { q.JoPrev = nil })
	}
	if p.BufPrev {
		add(func(q *Plan) { q.BufPrev = false })
	}
	if p.Jo != nil {
		for i := range p.Jo.Middle {
			add(func(q *Plan) { q.Jo.Middle = append(append([]rune(nil), p.Jo.Middle[:i]...), p.Jo.Middle[i+1:]...) })
		}
		for i := range p.Jo.Leading {
			add(func(q *Plan) {
				q.Jo.Leading = append(append([]rune(nil), p.Jo.Leading[:i]...), p.Jo.Leading[i+1:]...)
			})
		}
	}
	for _, t := range shrinkText(p.Text) {
		add(func(q *Plan) {
			q.Text = t
			if p.Cut >= len(p.Text) || p.Cut > len(t) {
				q.Cut = len(t)
			}
		})
	}
	if p.Cut < len(p.Text) && p.Cut > 0 {
		add(func(q *Plan) { q.Cut--; q.Text = q.Text[:q.Cut] })
	}
	for size := len(p.Steps); size >= 1; size /= 2 {
		for i := 0; i+size <= len(p.Steps) && len(out) < 900; i += size {
			add(func(q *Plan) { q.Steps = append(append([]simio.Step(nil), p.Steps[:i]...), p.Steps[i+size:]...) })
		}
	}
	for i := range p.Steps {
		if len(out) > 1100 {
			break
		}
		if s := p.Steps[i]; s.Scribble || s.Wait > 0 {
			add(func(q *Plan) { q.Steps[i].Scribble = false; q.Steps[i].Wait = 0 })
		}
		if i+1 < len(p.Steps) && p.Steps[i].Err == "" {
			add(func(q *Plan) {
				q.Steps[i+1].N += q.Steps[i].N
				q.Steps = append(q.Steps[:i], q.Steps[i+1:]...)
			})
		}
		if p.Steps[i].N > 1 {
			add(func(q *Plan) { q.Steps[i].N-- })
		}
	}
	return out
}

func newPlan() any { return &Plan{} }

// textFor draws the text of a run. invalid allows damaged encodings.
func textFor(r *prng.R, k ref.Kind, p *Plan, invalid bool) {
	n := textgen.Length(r, 220)
	if r.P(1, 60) {
		n = r.Range(1000, 3500)
	}
	p.Text = gen().Text(r, k, n)
	if invalid {
		switch r.Weighted(6, 3, 1) {
		case 1:
			p.Text, p.Damage = textgen.Corrupt(r, p.Text)
		case 2:
			p.Text = textgen.Garbage(r, textgen.Length(r, 80))
		}
	}
	switch r.Intn(largeEvery) {
	case 0:
		p.Text = textgen.Amplify(r, p.Text, textgen.Large(r))
	case 1:
		p.Text = gen().LongToken(r, k, p.Text, r.Range(300, 6000))
	}
	p.Cut = len(p.Text)
}

// largeEvery is how often a text is large.
var largeEvery = 3000

func init() {
	if s := os.Getenv("SIM_LARGE_EVERY"); s != "" { // for timing only
		largeEvery, _ = strconv.Atoi(s)
	}
}

var realAll = []string{"graphemes, words, sentences, phrases: all non-test code, compiled from the working tree with a yield call before every statement", "bufio.Scanner (Go standard library)"}
var stubStream = []string{"io.Reader: simulated stream (chunking, empty reads, waits, errors, scribbling on the lent buffer) on a simulated clock"}

const stateMeasure = "distinct (text, delivery schedule, end of stream) triples by hash, over runs in which at least two tokens or at least one delivery boundary occurred"

func (p *Plan) stateHash() uint64 {
	h := prng.Mix(uint64(p.Kind), prng.HashString(string(p.Text)), uint64(p.Cut), prng.HashString(p.Final), uint64(p.BufInit), uint64(p.BufMax))
	for _, s := range p.Steps {
		h = prng.Mix(h, uint64(s.N), uint64(s.Wait), prng.HashString(s.Err))
	}
	return h
}

func noteStream(c *engine.Ctx, p *Plan, st *stream) {
	countReader(c, st.r, p)
	c.Count("tokens", int64(len(st.cuts)))
	c.Count("bytes", int64(st.r.Sent))
	if len(st.cuts) >= 2 || len(p.Steps) > 1 {
		c.State(p.stateHash())
	}
}
