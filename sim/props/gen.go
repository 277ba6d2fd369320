package props

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/simnet"
	"verif.local/sim/textgen"
	"verif.local/sim/ucdgen"
)

// Delivery is how one complete file travels.
type Delivery struct {
	Enc    string `json:"enc"` // length chunked gzip gzip-chunked close
	Pieces []int  `json:"pieces,omitempty"`
	Chunk  int    `json:"chunk,omitempty"`
	Keep   bool   `json:"keep,omitempty"`  // the connection is kept
	Moved  bool   `json:"moved,omitempty"` // behind a redirect
}

// Fault is what happens to a request.
type Fault struct {
	URL   int    `json:"url"`
	Times int    `json:"times"` // how many attempts it hits; -1: all
	Kind  string `json:"kind"`
	Code  int    `json:"code,omitempty"`
	Body  string `json:"body,omitempty"` // of a refusal: none html full half other
	At    int    `json:"at,omitempty"`   // where a transfer breaks off, in 1/10000
	End   string `json:"end,omitempty"`
	Enc   string `json:"enc,omitempty"`
}

// GPlan is one execution of the table generator (C16).
type GPlan struct {
	A        ucdgen.Assignment `json:"assignment"`
	D        []Delivery        `json:"delivery"`
	Faults   []Fault           `json:"faults,omitempty"`
	Old      string            `json:"old"` // output files before, see oldKinds
	Write    string            `json:"write,omitempty"`
	WriteAt  int               `json:"write_at,omitempty"` // which output file
	Max      int64             `json:"max,omitempty"`
	Short    int64             `json:"short,omitempty"` // how many bytes the disk lacks
	Err      string            `json:"err,omitempty"`   // what a failing operation reports
	MapSeed  uint64            `json:"map_seed"`
	MapOrder string            `json:"map_order"`
	Again    bool              `json:"again,omitempty"` // run once more when the faults are gone
}

func (d Delivery) response(body []byte) (raw []byte, end string) {
	var b bytes.Buffer
	head := "HTTP/1.1 200 OK\r\nDate: Thu, 01 Jan 2026 00:00:00 GMT\r\nLast-Modified: Fri, 01 Aug 2025 00:00:00 GMT\r\nETag: \"5f-1\"\r\nContent-Type: text/plain; charset=utf-8\r\n"
	if strings.HasPrefix(d.Enc, "gzip") {
		body = zip(body)
		head += "Content-Encoding: gzip\r\n"
	}
	b.WriteString(head)
	keep := d.Keep && d.Enc != "close"
	if !keep {
		b.WriteString("Connection: close\r\n")
	}
	switch d.Enc {
	case "chunked", "gzip-chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		b.Write(chunks(body, d.Chunk))
		b.WriteString("0\r\n\r\n")
	case "close":
		b.WriteString("\r\n")
		b.Write(body)
	default:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
	}
	if keep {
		return b.Bytes(), "keep"
	}
	return b.Bytes(), "close"
}

func zip(b []byte) []byte {
	var o bytes.Buffer
	z, _ := gzip.NewWriterLevel(&o, gzip.BestSpeed)
	z.Write(b)
	z.Close()
	return o.Bytes()
}

func chunks(body []byte, n int) []byte {
	if n <= 0 {
		n = 4096
	}
	var b bytes.Buffer
	for len(body) > 0 {
		k := min(n, len(body))
		fmt.Fprintf(&b, "%x\r\n", k)
		b.Write(body[:k])
		b.WriteString("\r\n")
		body = body[k:]
	}
	return b.Bytes()
}

// frac places a fault in [0, n).
func frac(at, n int) int {
	if n <= 0 {
		return 0
	}
	x := at * n / 10000
	if at < 0 { // counted from the end
		x = n + at
	}
	return max(0, min(x, n-1))
}

// faulty builds the response of a fault.
func (f Fault) response(body, other []byte) (raw []byte, r simnet.Response) {
	r.Cut = -1
	end := f.End
	if end == "" || end == "keep" {
		end = "close"
	}
	r.End = end
	const ok = "HTTP/1.1 200 OK\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n"
	switch f.Kind {
	case "refused", "timeout", "dns", "unreachable", "tls":
		r.Dial = f.Kind
	case "mute": // the connection ends before any byte of an answer
		raw = nil
	case "head": // ends within the header
		h := fmt.Sprintf("%sContent-Length: %d\r\n\r\n", ok, len(body))
		raw = []byte(h[:max(1, frac(f.At, len(h)-1))])
	case "garbage":
		raw = []byte("\x15\x03\x01\x00\x02\x02\x16 nonsense\r\n\r\n" + strings.Repeat("z", 40))
	case "status":
		b := map[string][]byte{"html": []byte("<!DOCTYPE html>\n<html><body># error; retry later</body></html>\n"), "full": body, "half": body[:len(body)/2], "other": other, "comment": []byte("# service unavailable; retry later\n")}[f.Body]
		if i := bytes.LastIndexByte(b, '\n'); f.Body == "half" {
			b = b[:i+1] // whole lines: nothing but the status tells
		}
		if f.Code == 304 {
			b = nil
		}
		raw = []byte(fmt.Sprintf("HTTP/1.1 %d Sorry\r\nContent-Type: text/plain\r\nConnection: close\r\n", f.Code))
		if f.Code == 206 {
			raw = append(raw, fmt.Sprintf("Content-Range: bytes 0-%d/%d\r\n", len(b)-1, len(body))...)
		}
		if f.Code != 304 && f.Code != 204 {
			raw = append(raw, fmt.Sprintf("Content-Length: %d\r\n", len(b))...)
		}
		raw = append(append(raw, "\r\n"...), b...)
	case "redirect": // to something that is not there
		raw = []byte(fmt.Sprintf("HTTP/1.1 %d Moved\r\nLocation: /missing/\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", f.Code))
	case "cut": // the transfer breaks off before its announced end
		switch f.Enc {
		case "chunked", "gzip-chunked":
			enc := ""
			if f.Enc == "gzip-chunked" {
				body = zip(body)
				enc = "Content-Encoding: gzip\r\n"
			}
			cs := chunks(body, 1000)
			raw = append([]byte(ok+enc+"Transfer-Encoding: chunked\r\n\r\n"), cs[:frac(f.At, len(cs))]...)
		case "gzip":
			body = zip(body)
			raw = append([]byte(fmt.Sprintf("%sContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", ok, len(body))), body[:frac(f.At, len(body))]...)
		case "gzip-short": // cut before it was sent
			body = zip(body)
			body = body[:max(1, frac(f.At, len(body)))]
			raw = append([]byte(fmt.Sprintf("%sContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", ok, len(body))), body...)
		default:
			n := frac(f.At, len(body))
			if f.At == 0 && f.Body == "line" { // after a whole line somewhere
				n = 1 + bytes.LastIndexByte(body[:len(body)/2], '\n')
			}
			raw = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", ok, len(body))), body[:n]...)
		}
	case "line": // breaks off between two lines
		n := frac(f.At, len(body))
		n = 1 + bytes.LastIndexByte(body[:n], '\n')
		raw = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", ok, len(body))), body[:n]...)
	case "crash": // the generator is killed when it has read that far
		n := frac(f.At, len(body))
		raw = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", ok, len(body))), body[:n]...)
		r.End = "crash"
	default:
		engine.Harness("unknown fault %q", f.Kind)
	}
	return raw, r
}

type world struct {
	files map[string][]byte
	base  map[string][]byte // what complete data produces
	t     *ref.Tables
}

var worlds = map[string]*world{}

type genRun struct {
	exit    int
	killed  bool
	hung    bool
	out     map[string][]byte // regular output files
	odd     map[string]string // outputs that are not regular files
	log     string
	stderr  string
	elapsed time.Duration
}

func genOnce(c *engine.Ctx, dir string, p simnet.Plan, outputs []string) genRun {
	pf := filepath.Join(dir, "plan.json")
	p.Log = filepath.Join(dir, "net.log")
	os.Remove(p.Log)
	js, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(pf, js, 0o644)
	}
	if err != nil {
		engine.Harness("generator plan: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(c.BuildDir, "gen"))
	cmd.Dir = filepath.Join(dir, "internal", "gen")
	cmd.Env = append(os.Environ(), "SIMNET_PLAN="+pf, "GOTRACEBACK=single", "TMPDIR="+filepath.Join(dir, "tmp"))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	start := time.Now()
	err = cmd.Run()
	g := genRun{out: map[string][]byte{}, odd: map[string]string{}, stderr: eb.String(), elapsed: time.Since(start)}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			engine.Harness("generator: %v", err)
		}
		g.exit = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			g.killed, g.exit = true, -1
		}
		if g.exit == 113 {
			engine.Harness("%s", g.stderr)
		}
		g.hung = ctx.Err() != nil
	}
	lb, _ := os.ReadFile(p.Log)
	g.log = string(lb)
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || path == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		if rel == "plan.json" || rel == "net.log" || rel == "raw" || rel == "tmp" || rel == "overlay.json" {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(path)
			if err != nil {
				engine.Harness("%v", err)
			}
			g.out[rel] = b
		} else if !fi.IsDir() {
			g.odd[rel] = fi.Mode().Type().String()
		} else if len(outputs) > 0 {
			for _, o := range outputs {
				if o == rel {
					g.odd[rel] = "directory"
				}
			}
		}
		return nil
	})
	return g
}

func genDir(c *engine.Ctx) (string, func()) {
	dir, err := os.MkdirTemp(c.BuildDir, "gen-*")
	if err != nil {
		engine.Harness("%v", err)
	}
	for _, d := range []string{"words", "phrases", "graphemes", "sentences", "internal/gen", "raw", "tmp"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			engine.Harness("%v", err)
		}
	}
	return dir, func() { os.RemoveAll(dir) }
}

// script writes the raw responses and builds the network plan.
func script(dir string, w *world, ds []Delivery, faults []Fault) simnet.Plan {
	p := simnet.Plan{URLs: map[string][]simnet.Response{}}
	n := 0
	raw := func(b []byte) string {
		f := filepath.Join(dir, "raw", fmt.Sprint(n))
		n++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			engine.Harness("%v", err)
		}
		return f
	}
	for i, u := range ucdgen.URLs {
		var rs []simnet.Response
		always := false
		for _, f := range faults {
			if f.URL != i || always {
				continue
			}
			b, r := f.response(w.files[u], w.files[ucdgen.URLs[(i+3)%len(ucdgen.URLs)]])
			r.Raw, r.Tag = raw(b), f.Kind
			if i < len(ds) {
				r.Pieces = ds[i].Pieces
			}
			rs = append(rs, r)
			for k := 1; k < f.Times; k++ {
				rs = append(rs, r)
			}
			always = f.Times < 0
		}
		if !always {
			d := Delivery{Enc: "length"}
			if i < len(ds) {
				d = ds[i]
			}
			b, end := d.response(w.files[u])
			r := simnet.Response{Raw: raw(b), Cut: -1, End: end, Pieces: d.Pieces}
			if d.Moved {
				v := strings.Replace(u, "/Public/", "/moved/", 1)
				p.URLs[v] = []simnet.Response{r}
				h := "HTTP/1.1 302 Found\r\nLocation: " + strings.TrimPrefix(v, "https://www.unicode.org") + "\r\nContent-Length: 0\r\n\r\n"
				r = simnet.Response{Raw: raw([]byte(h)), Cut: -1, End: "keep"}
			}
			rs = append(rs, r)
		}
		p.URLs[u] = rs
	}
	return p
}

// shorten fills the disk while an output file is due: after the request for
// the data it is made from.
func shorten(p simnet.Plan, target string, room int64) {
	name, nth := "", 0
	switch filepath.Dir(target) {
	case "words":
		name = "Word"
	case "phrases":
		name, nth = "Word", 1
	case "graphemes":
		name = "Grapheme"
	case "sentences":
		name = "Sentence"
	}
	if isTable(target) {
		name += "BreakProperty.txt"
	} else {
		name += "BreakTest.txt"
	}
	for u, rs := range p.URLs {
		if len(rs) == 0 || filepath.Base(u) != name || strings.Contains(u, "/Public/") && p.URLs[strings.Replace(u, "/Public/", "/moved/", 1)] != nil {
			continue
		}
		for len(rs) < nth+2 {
			rs = append(rs, rs[len(rs)-1])
		}
		rs[nth].Room = room
		p.URLs[u] = rs
	}
}

func worldFor(c *engine.Ctx, a ucdgen.Assignment, base bool) *world {
	key := fmt.Sprintf("%+v", a)
	w := worlds[key]
	if w == nil {
		if len(worlds) > 3 {
			worlds = map[string]*world{}
		}
		t := a.Tables()
		w = &world{files: a.Files(t), t: t}
		worlds[key] = w
	}
	if base && w.base == nil {
		dir, done := genDir(c)
		defer done()
		p := script(dir, w, nil, nil)
		p.MapOrder = "sorted"
		g := genOnce(c, dir, p, nil)
		if g.exit != 0 || g.hung || len(g.out) == 0 {
			engine.Harness("the generator fails on complete data (exit %d): %s", g.exit, tail(g.stderr))
		}
		w.base = g.out
	}
	return w
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func names(m map[string][]byte) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func isTable(f string) bool { return !strings.HasSuffix(f, "_test.go") }

func older(f string) []byte {
	return []byte("package " + filepath.Dir(f) + "\n\n// older tables\n" + strings.Repeat("// 0123456789\n", 2000))
}

// oldKinds are what an output file may be before a run.
var oldKinds = []string{"absent", "older", "older", "same", "longer", "same size"}

// oldFile is an output file from before; now is what the run is to make of it.
func oldFile(kind, f string, now []byte) []byte {
	switch kind {
	case "absent":
		return nil
	case "same":
		return now
	case "longer":
		return append(append([]byte(nil), now...), "\n// more tables\nvar older = 1\n"...)
	case "same size": // from other data
		b := append([]byte(nil), now...)
		n := 0
		for i := len(b) - 1; i > 0 && n < 5; i-- {
			if b[i] >= '1' && b[i] <= '8' {
				b[i]++
				n++
			}
		}
		return b
	}
	return older(f)
}

// age sets the time at which an output file was last written.
func age(path string, seed uint64) {
	t := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	switch seed % 4 {
	case 0:
		return // now
	case 1:
		t = t.AddDate(-3, 0, 0)
	case 2:
		t = t.AddDate(40, 0, 0)
	}
	if err := os.Chtimes(path, t, t); err != nil {
		engine.Harness("%v", err)
	}
}

func execGen(c *engine.Ctx, pl any) {
	p := pl.(*GPlan)
	w := worldFor(c, p.A, true)
	outs := names(w.base)
	dir, done := genDir(c)
	defer done()
	before := map[string][]byte{}
	target := ""
	if p.Write != "" {
		target = outs[p.WriteAt%len(outs)]
	}
	for _, f := range outs {
		if b := oldFile(p.Old, f, w.base[f]); b != nil {
			before[f] = b
		}
		path := filepath.Join(dir, f)
		if f == target && !p.late() {
			delete(before, f)
			var err error
			switch p.Write {
			case "nodir":
				err = os.RemoveAll(filepath.Dir(path))
				for o := range before {
					if filepath.Dir(o) == filepath.Dir(f) {
						delete(before, o)
					}
				}
			case "isdir":
				err = os.Mkdir(path, 0o755)
			case "full":
				err = os.Symlink("/dev/full", path)
			default:
				engine.Harness("unknown write fault %q", p.Write)
			}
			if err != nil {
				engine.Harness("%v", err)
			}
		}
	}
	for f, b := range before {
		if p.Write == "nodir" && filepath.Dir(f) == filepath.Dir(target) {
			delete(before, f)
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			engine.Harness("%v", err)
		}
		age(filepath.Join(dir, f), p.MapSeed)
	}
	np := script(dir, w, p.D, p.Faults)
	np.MapSeed, np.MapOrder = p.MapSeed, p.MapOrder
	if p.Write == "limit" {
		np.FileMax = p.Max
	}
	if p.Write == "short" {
		shorten(np, target, max(1, int64(len(w.base[target]))-p.Short))
	}
	if strings.HasPrefix(p.Write, "disk-") {
		df := &simnet.DiskFault{Op: p.Write[5:], Dir: filepath.Dir(target), Base: filepath.Base(target), At: max(0, len(w.base[target])-int(p.Short)), Err: p.Err}
		for _, f := range outs {
			if f != target && filepath.Dir(f) == df.Dir {
				df.Other = filepath.Base(f)
			}
		}
		np.Disk = df
	}
	g := genOnce(c, dir, np, outs)
	c.Count("generator runs", 1)
	persistent, crash := false, false
	for _, f := range p.Faults {
		if f.Times < 0 && f.Kind != "crash" {
			persistent = true
		}
		crash = crash || f.Kind == "crash"
	}
	hit := 0
	for _, l := range strings.Split(g.log, "\n") {
		if l == "" {
			continue
		}
		if !strings.Contains(l, ": disk ") {
			c.Count("requests", 1)
		}
		if i := strings.LastIndex(l, ": "); i > 0 && l[i+2:] != "" {
			c.Count("injected: "+l[i+2:], 1)
		}
		hit++
	}
	if p.Write != "" && !strings.HasPrefix(p.Write, "disk-") {
		c.Count("injected: write "+p.Write, 1)
	}
	c.Log("exit=%d killed=%v requests=%d", g.exit, g.killed, hit)
	for _, f := range outs {
		st := "other"
		b, ok := g.out[f]
		switch {
		case !ok && g.odd[f] != "":
			st = g.odd[f]
		case !ok:
			st = "absent"
		case bytes.Equal(b, w.base[f]):
			st = "complete"
		case before[f] != nil && bytes.Equal(b, before[f]):
			st = "older"
		}
		c.Log("%s %s", f, st)
	}
	c.State(stateOf(p, g))
	what := p.describe()
	if g.hung {
		c.Fail("generator does not end: %s", what)
	}
	if g.killed && !crash {
		c.Fail("generator was killed by a signal: %s", what)
	}
	switch {
	case g.exit == 0:
		c.Count("outcome: success", 1)
	case g.killed:
		c.Count("outcome: killed", 1)
	default:
		c.Count("outcome: failure", 1)
	}
	if persistent && g.exit == 0 {
		c.Fail("generation succeeds although a file cannot be fetched: %s", what)
	}
	if len(p.Faults) == 0 && p.Write == "" && g.exit != 0 {
		c.Fail("generation fails on complete data: %s: %s", what, tail(g.stderr))
	}
	for _, f := range outs {
		b, ok := g.out[f]
		full := ok && bytes.Equal(b, w.base[f])
		if g.exit == 0 && !full {
			c.Fail("generation reports success but %s is not what complete data produces: %s (%d bytes instead of %d%s)", f, what, len(b), len(w.base[f]), oddness(g, f))
		}
		if full || p.Write != "" && (f == target || p.Write == "limit" || p.Write == "short" || !ok) {
			continue
		}
		old, had := before[f]
		if !ok && !had && g.odd[f] == "" {
			continue
		}
		if ok && had && bytes.Equal(b, old) {
			continue
		}
		if isTable(f) || !g.killed {
			c.Fail("%s after a failed run is neither what it was before nor what complete data produces: %s (%d bytes%s)", f, what, len(b), oddness(g, f))
		}
	}
	if p.Again && p.Write == "" {
		np := script(dir, w, p.D, nil)
		np.MapSeed, np.MapOrder = p.MapSeed, p.MapOrder
		g := genOnce(c, dir, np, outs)
		c.Count("generator runs", 1)
		c.Count("recovery runs", 1)
		if g.exit != 0 {
			c.Fail("generation fails on complete data after an earlier failure: %s: %s", what, tail(g.stderr))
		}
		for _, f := range outs {
			if !bytes.Equal(g.out[f], w.base[f]) {
				c.Fail("after recovery %s is not what complete data produces: %s", f, what)
			}
		}
	}
}

// late tells whether the write fault strikes while the output is written.
func (p *GPlan) late() bool {
	return p.Write == "limit" || p.Write == "short" || strings.HasPrefix(p.Write, "disk-")
}

func oddness(g genRun, f string) string {
	if g.odd[f] != "" {
		return ", " + g.odd[f]
	}
	if _, ok := g.out[f]; !ok {
		return ", absent"
	}
	return ""
}

func stateOf(p *GPlan, g genRun) uint64 {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s %d %d %d %s %v", p.Old, p.Write, p.WriteAt, p.Max, p.Short, p.Err, g.exit)
	for _, f := range p.Faults {
		fmt.Fprintf(&b, "%+v", f)
	}
	return prng.HashString(b.String())
}

func (p *GPlan) describe() string {
	var o []string
	for _, f := range p.Faults {
		s := f.Kind
		switch f.Kind {
		case "status":
			s = fmt.Sprintf("status %d (body: %s)", f.Code, f.Body)
		case "cut", "line", "crash", "head":
			s = fmt.Sprintf("%s at %d/10000 (%s, %s)", f.Kind, f.At, f.Enc, f.End)
		}
		n := "every request for"
		if f.Times >= 0 {
			n = fmt.Sprintf("%d request(s) for", f.Times)
		}
		o = append(o, fmt.Sprintf("%s %s: %s", n, filepath.Base(ucdgen.URLs[f.URL]), s))
	}
	if p.Write != "" {
		o = append(o, fmt.Sprintf("output %d: %s %d %d %s", p.WriteAt, p.Write, p.Max, p.Short, p.Err))
	}
	if len(o) == 0 {
		return "no fault"
	}
	return strings.Join(o, "; ")
}

func pieces(r *prng.R) []int {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []int{r.Range(1, 40)}
	case 2:
		return []int{r.Range(1000, 5000)}
	}
	var o []int
	for n := r.Range(1, 6); n > 0; n-- {
		o = append(o, 1+r.Geom(1<<r.Range(0, 12)))
	}
	return o
}

func deliveries(r *prng.R) []Delivery {
	var ds []Delivery
	for range ucdgen.URLs {
		d := Delivery{Enc: prng.Pick(r, []string{"length", "length", "chunked", "gzip", "gzip-chunked", "close"}), Pieces: pieces(r), Chunk: 1 + r.Geom(1<<r.Range(4, 14)), Keep: r.P(1, 2), Moved: r.P(1, 12)}
		ds = append(ds, d)
	}
	return ds
}

func drawFault(r *prng.R) Fault {
	f := Fault{URL: r.Intn(len(ucdgen.URLs)), Times: -1}
	if r.P(1, 5) {
		f.Times = r.Range(1, 3)
	}
	f.End = prng.Pick(r, []string{"close", "close", "reset", "timeout"})
	at := func() int {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return -r.Range(1, 200)
		}
		return r.Intn(10000)
	}
	switch r.Weighted(3, 1, 2, 1, 8, 1, 6, 5, 3) {
	case 0:
		f.Kind = prng.Pick(r, []string{"refused", "timeout", "dns", "unreachable", "tls"})
	case 1:
		f.Kind = "mute"
	case 2:
		f.Kind, f.At = "head", at()
	case 3:
		f.Kind = "garbage"
	case 4:
		f.Kind = "status"
		f.Code = prng.Pick(r, []int{300, 304, 400, 401, 403, 404, 404, 404, 410, 418, 429, 451, 500, 500, 502, 503, 503, 504})
		f.Body = prng.Pick(r, []string{"none", "none", "html", "full", "half", "half", "other", "comment"})
		if r.P(1, 4) { // a success, but not with the file
			f.Code = prng.Pick(r, []int{202, 204, 206, 206, 206})
			f.Body = map[int]string{202: "comment", 204: "none", 206: "half"}[f.Code]
		}
	case 5:
		f.Kind = "redirect"
		f.Code = prng.Pick(r, []int{301, 302, 303, 307, 308})
	case 6:
		f.Kind, f.At = "cut", at()
		f.Enc = prng.Pick(r, []string{"length", "length", "chunked", "gzip", "gzip-chunked", "gzip-short"})
	case 7:
		f.Kind, f.At = "line", at()
	case 8:
		f.Kind, f.At = "crash", at()
		f.Times = -1
	}
	return f
}

func drawAssignment(r *prng.R, full bool) ucdgen.Assignment {
	a := ucdgen.Assignment{Seed: r.Uint64(), Style: r.Uint64(), Tests: r.Range(1, 60)}
	if !full {
		a.Shape = prng.Pick(r, []string{"sparse", "sparse", "blocks", "dense"})
		a.Ranges = r.Range(50, 600)
		return a
	}
	a.Shape = prng.Pick(r, []string{"real", "shift", "sparse", "blocks", "dense", "wide", "planes"})
	a.Ranges = r.Range(10, 1<<r.Range(5, 11))
	if r.P(1, 3) {
		a.Bulk = true
		a.Tests = r.Range(100, 2500)
	}
	return a
}

const genBatch = 24

func planGen(r *prng.R, tier string, i int) any {
	// all runs of a batch use the same data
	ar := prng.New(prng.Mix(0x16, engine.BaseSeed, uint64(i/genBatch)))
	p := &GPlan{A: drawAssignment(ar, false), D: deliveries(r), MapSeed: r.Uint64(), MapOrder: prng.Pick(r, []string{"random", "sorted", "reversed"})}
	p.Old = prng.Pick(r, oldKinds)
	switch {
	case i == 0:
	case r.P(1, 5):
		p.Write = prng.Pick(r, []string{"nodir", "isdir", "full", "limit", "limit", "short", "short", "disk-write", "disk-close", "disk-close", "disk-rename"})
		p.Err = prng.Pick(r, []string{"EIO", "ENOSPC", "EDQUOT"})
		p.WriteAt = r.Intn(7)
		p.Short = 1 + int64(r.Geom(1<<r.Range(0, 17)))
		p.Max = 1 + int64(r.Geom(1<<r.Range(0, 17)))
	default:
		for n := 1 + r.Weighted(6, 2, 1); n > 0; n-- {
			p.Faults = append(p.Faults, drawFault(r))
		}
		p.Again = r.P(1, 6)
	}
	return p
}

func shrinkGen(pl any) []any {
	p := pl.(*GPlan)
	var out []any
	try := func(f func(q *GPlan)) {
		q := *p
		q.D = append([]Delivery(nil), p.D...)
		q.Faults = append([]Fault(nil), p.Faults...)
		f(&q)
		out = append(out, &q)
	}
	for i := range p.Faults {
		if len(p.Faults) > 1 {
			try(func(q *GPlan) { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...) })
		}
	}
	if len(p.D) > 0 {
		try(func(q *GPlan) { q.D = nil })
	}
	if p.MapOrder != "sorted" {
		try(func(q *GPlan) { q.MapOrder, q.MapSeed = "sorted", 0 })
	}
	if p.Again {
		try(func(q *GPlan) { q.Again = false })
	}
	if p.Old != "absent" {
		try(func(q *GPlan) { q.Old = "absent" })
	}
	if p.A.Ranges > 1 || p.A.Shape != "sparse" {
		try(func(q *GPlan) { q.A.Ranges, q.A.Shape = 1, "sparse" })
	}
	if p.A.Tests > 1 {
		try(func(q *GPlan) { q.A.Tests = 1 })
	}
	for i, f := range p.Faults {
		if f.At != 0 && f.At != 5000 {
			try(func(q *GPlan) { q.Faults[i].At = 5000 })
		}
		if f.Kind == "status" && f.Body != "none" {
			try(func(q *GPlan) { q.Faults[i].Body = "none" })
		}
		if f.Times > 1 {
			try(func(q *GPlan) { q.Faults[i].Times = 1 })
		}
	}
	return out
}

// TPlan is one data set taken through the generator and the compiler (C17).
type TPlan struct {
	A     ucdgen.Assignment `json:"assignment"`
	D1    []Delivery        `json:"delivery1"`
	D2    []Delivery        `json:"delivery2"`
	Map1  uint64            `json:"map_seed1"`
	Map2  uint64            `json:"map_seed2"`
	Ord1  string            `json:"map_order1"`
	Ord2  string            `json:"map_order2"`
	Old2  string            `json:"old2,omitempty"` // output files before the second run
	Probe uint64            `json:"probe_seed"`
	N     int               `json:"points"` // code points probed (0: all)
	Runs  bool              `json:"no_probe,omitempty"`
}

func execTables(c *engine.Ctx, pl any) {
	p := pl.(*TPlan)
	w := worldFor(c, p.A, false)
	dir, done := genDir(c)
	defer done()
	np := script(dir, w, p.D1, nil)
	np.MapSeed, np.MapOrder = p.Map1, p.Ord1
	g1 := genOnce(c, dir, np, nil)
	if g1.hung || g1.exit != 0 {
		c.Fail("generation fails on complete data: exit %d: %s", g1.exit, tail(g1.stderr))
	}
	dir2, done2 := genDir(c)
	defer done2()
	if p.Old2 != "" {
		for f, b := range g1.out {
			if b = oldFile(p.Old2, f, b); b == nil {
				continue
			}
			if err := os.WriteFile(filepath.Join(dir2, f), b, 0o644); err != nil {
				engine.Harness("%v", err)
			}
			age(filepath.Join(dir2, f), p.Map2)
		}
		c.Count("outputs before: "+p.Old2, 1)
	}
	np = script(dir2, w, p.D2, nil)
	np.MapSeed, np.MapOrder = p.Map2, p.Ord2
	g2 := genOnce(c, dir2, np, nil)
	if g2.hung || g2.exit != 0 {
		c.Fail("generation fails on complete data: exit %d: %s", g2.exit, tail(g2.stderr))
	}
	c.Count("generator runs", 2)
	if a, b := strings.Join(names(g1.out), " "), strings.Join(names(g2.out), " "); a != b {
		c.Fail("two generations write different files: %s / %s", a, b)
	}
	for _, f := range names(g1.out) {
		c.Log("%s %x", f, prng.HashString(string(g1.out[f])))
		if !bytes.Equal(g1.out[f], g2.out[f]) {
			c.Fail("two generations from the same data differ: %s, %s", f, firstDiff(g1.out[f], g2.out[f]))
		}
		if !isTable(f) {
			checkTests(c, w, f, g1.out[f])
		}
	}
	c.State(prng.Mix(p.A.Seed, p.Map1, p.Map2))
	if p.Runs {
		return
	}
	probe := buildProbe(c, dir, g1.out)
	compare(c, p, w, probe)
}

func firstDiff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := ""
			if i < len(lb) {
				x = lb[i]
			}
			return fmt.Sprintf("line %d: %.120q / %.120q", i+1, la[i], x)
		}
	}
	return "length"
}

// checkTests compares a generated test table with the break test file.
func checkTests(c *engine.Ctx, w *world, f string, src []byte) {
	var url string
	switch filepath.Dir(f) {
	case "words":
		url = ucdgen.WordT
	case "graphemes":
		url = ucdgen.GraphT
	case "sentences":
		url = ucdgen.SentT
	default:
		return
	}
	var want []unicodeTest
	for _, l := range strings.Split(string(w.files[url]), "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		data, comment, _ := strings.Cut(l, "#")
		t := unicodeTest{comment: strings.TrimSpace(comment)}
		for _, seg := range strings.Split(data, "÷") {
			var e []byte
			for _, h := range strings.Fields(seg) {
				if h == "×" {
					continue
				}
				var r rune
				fmt.Sscanf(h, "%X", &r)
				e = append(e, string(r)...)
			}
			if len(e) > 0 {
				t.input = append(t.input, e...)
				t.expected = append(t.expected, e)
			}
		}
		want = append(want, t)
	}
	got, err := parseTests(src)
	if err != nil {
		c.Fail("generated test table is unreadable: %s: %v", f, err)
	}
	if len(got) != len(want) {
		c.Fail("generated test table is wrong: %s has %d tests, the data file %d", f, len(got), len(want))
	}
	for i := range got {
		a, b := fmt.Sprintf("%q %q %q", got[i].input, got[i].expected, got[i].comment), fmt.Sprintf("%q %q %q", want[i].input, want[i].expected, want[i].comment)
		if a != b {
			c.Fail("generated test table is wrong: %s test %d: %s, the data file says %s", f, i, a, b)
		}
	}
	c.Count("break tests compared", int64(len(got)))
}

func buildProbe(c *engine.Ctx, dir string, out map[string][]byte) string {
	repo := os.Getenv("SIM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	src := os.Getenv("SIM_SRC")
	if src == "" {
		src = "/verif/sim"
	}
	replace := map[string]string{}
	for f := range out {
		if isTable(f) {
			replace[filepath.Join(repo, f)] = filepath.Join(dir, f)
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": replace})
	ov := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		engine.Harness("%v", err)
	}
	bin := filepath.Join(dir, "tmp", "probe")
	cmd := exec.Command("go", "build", "-p", "2", "-overlay", ov, "-o", bin, "./cmd/probe")
	cmd.Dir = src
	b, err := cmd.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok || !bytes.Contains(b, []byte(".go:")) {
			engine.Harness("building the probe: %v: %s", err, b)
		}
		c.Fail("tokenizers do not compile with the generated tables: %s", tail(strings.ReplaceAll(string(b), dir, "")))
	}
	c.Count("tokenizers built", 1)
	return bin
}

type query struct {
	kind byte
	text []byte
	pts  []rune
	res  []uint32
}

func ask(c *engine.Ctx, probe string, qs []*query) {
	var in bytes.Buffer
	for _, q := range qs {
		in.WriteByte(q.kind)
		in.Write(binary.LittleEndian.AppendUint32(nil, uint32(len(q.text))))
		in.Write(q.text)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, probe)
	cmd.Stdin = &in
	var eb, ob bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &ob
	if err := cmd.Run(); err != nil {
		if ctx.Err() != nil {
			c.Fail("tokenizers with generated tables do not terminate")
		}
		c.Fail("tokenizers with generated tables crash: %s", crashText(eb.String()))
	}
	o := ob.Bytes()
	for _, q := range qs {
		n := int(binary.LittleEndian.Uint32(o))
		o = o[4:]
		q.res = make([]uint32, n)
		for i := range q.res {
			q.res[i] = binary.LittleEndian.Uint32(o[4*i:])
		}
		o = o[4*n:]
	}
}

func crashText(s string) string {
	if i := strings.IndexByte(s, '\n'); i > 0 {
		s = s[:i]
	}
	return s
}

// translate maps the characters of a context to code points that have the same
// properties in the drawn tables.
func translate(w *world, x *textgen.Gen, r *prng.R, k ref.Kind, s string) []rune {
	u := ref.Unicode17()
	var o []rune
	for _, c := range s {
		if c < 0x80 {
			o = append(o, c)
			continue
		}
		var v rune
		switch k {
		case ref.Graphemes:
			switch {
			case u.I[c] != 0 && u.G[c] != ref.GZWJ:
				v = x.I(r, u.I[c])
			case u.Pict[c]:
				v = x.Pict(r)
			default:
				v = x.G(r, u.G[c])
			}
		case ref.Sentences:
			v = x.S(r, u.S[c])
		default:
			if u.Pict[c] {
				v = x.Pict(r)
			} else {
				v = x.W(r, u.W[c])
			}
		}
		o = append(o, v)
	}
	return o
}

func compare(c *engine.Ctx, p *TPlan, w *world, probe string) {
	r := prng.New(p.Probe)
	x := textgen.New(w.t)
	var pts []rune
	add := func(v rune) {
		if v >= 0 && v <= ref.MaxRune && !(v >= 0xD800 && v <= 0xDFFF) {
			pts = append(pts, v)
		}
	}
	if p.N == 0 {
		for v := rune(0); v <= ref.MaxRune; v++ {
			add(v)
		}
	} else {
		var edge []rune
		same := func(a, b rune) bool {
			t := w.t
			return t.G[a] == t.G[b] && t.I[a] == t.I[b] && t.W[a] == t.W[b] && t.S[a] == t.S[b] && t.Pict[a] == t.Pict[b]
		}
		for v := rune(1); v <= ref.MaxRune; v++ {
			if !same(v-1, v) {
				edge = append(edge, v-1, v)
			}
		}
		if len(edge) > p.N {
			r.Shuffle(len(edge), func(i, j int) { edge[i], edge[j] = edge[j], edge[i] })
			edge = edge[:p.N]
		}
		for _, v := range edge {
			add(v)
		}
		for i := p.N / 2; i > 0; i-- {
			switch r.Intn(3) {
			case 0:
				add(rune(r.Intn(ref.MaxRune + 1)))
			case 1:
				add(rune(r.Intn(0x20000)))
			default:
				add(x.Cell(r))
			}
		}
		for v := rune(0); v < 0x100; v++ {
			add(v)
		}
	}
	const step = 1024
	for lo := 0; lo < len(pts); lo += 16 * step {
		var qs []*query
		for at := lo; at < len(pts) && at < lo+16*step; at += step {
			part := pts[at:min(at+step, len(pts))]
			for k := ref.Graphemes; k < ref.NKinds; k++ {
				for _, ctx := range contexts[k] {
					if p.N == 0 && r.P(2, 3) {
						continue // the full sweep draws some contexts per block
					}
					i := strings.IndexByte(ctx, 'X')
					pre, post := translate(w, x, r, k, ctx[:i]), translate(w, x, r, k, strings.ReplaceAll(ctx[i+1:], "X", "a"))
					var t []byte
					for _, v := range part {
						t = append(t, string(pre)...)
						t = append(t, string(v)...)
						t = append(t, string(post)...)
						t = append(t, '\n')
					}
					qs = append(qs, &query{kind: byte(k), text: t})
				}
			}
			qs = append(qs, &query{kind: 4, text: []byte(string(part)), pts: part})
		}
		check(c, w, probe, qs)
		c.Count("code points probed", int64(min(16*step, len(pts)-lo)))
	}
	var qs []*query
	for i := 0; i < 200; i++ {
		k := ref.Kind(i % int(ref.NKinds))
		qs = append(qs, &query{kind: byte(k), text: x.Text(r, k, r.Range(1, 60))})
	}
	check(c, w, probe, qs)
	c.Count("texts compared", int64(len(qs)))
}

func check(c *engine.Ctx, w *world, probe string, qs []*query) {
	ask(c, probe, qs)
	for _, q := range qs {
		if q.kind == 4 {
			for i, v := range q.pts {
				num := w.t.W[v] == ref.WNumeric || w.t.W[v] == ref.WExtendNumLet
				ideo := w.t.W[v] == ref.WKatakana || unicode.Is(unicode.Han, v) || unicode.Is(unicode.Hiragana, v)
				if got := q.res[i]&2 != 0; got != ideo {
					c.Fail("classification: BleveIdeographic of U+%04X is %v, the data say %v", v, got, ideo)
				}
				if got := q.res[i]&1 != 0; got != num {
					c.Fail("classification: BleveNumeric of U+%04X is %v, the data say %v", v, got, num)
				}
			}
			continue
		}
		k := ref.Kind(q.kind)
		want := ref.Analyse(k, w.t, q.text, nil).Cuts()
		if len(want) == len(q.res) {
			ok := true
			for i := range want {
				if int(q.res[i]) != want[i] {
					ok = false
					break
				}
			}
			if ok {
				continue
			}
		}
		// report the line that differs
		at := 0
		for i := 0; i < len(want) && i < len(q.res) && int(q.res[i]) == want[i]; i++ {
			at = want[i]
		}
		lo := bytes.LastIndexByte(q.text[:at], '\n') + 1
		hi := len(q.text)
		if i := bytes.IndexByte(q.text[at:], '\n'); i >= 0 {
			hi = at + i
		}
		var a, b []int
		for _, v := range q.res {
			if int(v) > lo && int(v) <= hi {
				a = append(a, int(v)-lo)
			}
		}
		for _, v := range want {
			if v > lo && v <= hi {
				b = append(b, v-lo)
			}
		}
		c.Fail("classification: %s of %+q break at %v, with the published properties at %v", k, q.text[lo:hi], a, b)
	}
}

func planTables(r *prng.R, tier string, i int) any {
	ord := []string{"random", "random", "sorted", "reversed"}
	p := &TPlan{A: drawAssignment(r, true), D1: deliveries(r), D2: deliveries(r), Map1: r.Uint64(), Map2: r.Uint64(),
		Ord1: prng.Pick(r, ord), Ord2: prng.Pick(r, ord), Probe: r.Uint64(), N: 6000,
		Old2: prng.Pick(r, oldKinds)}
	if i%8 == 3 {
		p.N = 0
	}
	return p
}

func shrinkTables(pl any) []any {
	p := pl.(*TPlan)
	var out []any
	try := func(f func(q *TPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	if !p.Runs {
		try(func(q *TPlan) { q.Runs = true })
	}
	if p.D1 != nil {
		try(func(q *TPlan) { q.D1 = nil })
	}
	if p.D2 != nil {
		try(func(q *TPlan) { q.D2 = nil })
	}
	if p.Ord1 != "sorted" {
		try(func(q *TPlan) { q.Ord1, q.Map1 = "sorted", 0 })
	}
	if p.Old2 != "" {
		try(func(q *TPlan) { q.Old2 = "" })
	}
	if p.Ord2 != "sorted" {
		try(func(q *TPlan) { q.Ord2, q.Map2 = "sorted", 0 })
	}
	if p.A.Ranges > 1 {
		try(func(q *TPlan) { q.A.Ranges /= 2 })
	}
	if p.A.Tests > 1 {
		try(func(q *TPlan) { q.A.Tests = 1 })
	}
	if p.N == 0 {
		try(func(q *TPlan) { q.N = 6000 })
	}
	if p.N > 500 {
		try(func(q *TPlan) { q.N = 500 })
	}
	return out
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C16", Title: "A failed download or write never passes as successful table generation", Level: "exploration",
		Runs: map[string]int{"quick": 1440, "thorough": 40000}, Batch: genBatch, Slow: true,
		New: func() any { return &GPlan{} }, Gen: planGen, Exec: execGen, Shrink: shrinkGen,
		Summary: func(p any) string { return p.(*GPlan).describe() },
		Rule:    "one evaluation is one simulated execution of the table generator (and, for some, a second one after the faults are gone) under drawn network or disk faults; distinct counts different fault plans together with the outcome",
		Measure: "fault plan x outcome",
		Real:    []string{"internal/gen (main, triegen) as a process of its own", "net/http client and transport", "kernel file system in a scratch directory"},
		Stub:    []string{"network: scripted connections in place of TCP and TLS", "data files: drawn property assignments", "map iteration order: drawn"},
		Assume:  []string{"a transfer whose end is only marked by an orderly close of the connection cannot be told from a complete one", "a connection that stays open without delivering anything is not simulated"},
	})
	engine.Register(&engine.Prop{
		ID: "C17", Title: "Generated tables reproduce the published property data exactly", Level: "exploration",
		Runs: map[string]int{"quick": 64, "thorough": 1500}, Batch: 1, Slow: true,
		New: func() any { return &TPlan{} }, Gen: planTables, Exec: execTables, Shrink: shrinkTables,
		Summary: func(p any) string { q := p.(*TPlan); return fmt.Sprintf("%+v probes=%d", q.A, q.N) },
		Rule:    "one evaluation takes one drawn assignment of properties through two generator executions (different delivery of the files, different map iteration order) and a tokenizer build, and compares the tokenizers with the reference model under the drawn tables",
		Measure: "property assignment x map orders",
		Real:    []string{"internal/gen (main, triegen)", "net/http client and transport", "the tokenizers compiled from the generated tables"},
		Stub:    []string{"network: scripted connections in place of TCP and TLS", "data files: drawn property assignments", "map iteration order: drawn"},
		Assume:  []string{"ASCII keeps its Unicode properties (the tokenizers hard-code them)", "data files are laid out like the published ones"},
	})
}
