package props

import (
	"fmt"
	"os"
	"syscall"
	"unsafe"

	"verif.local/sim/engine"
	"verif.local/sim/prng"
	"verif.local/sim/ref"
	"verif.local/sim/sut"
	"verif.local/sim/vsim"
)

// Far is a text whose positions need more than 31 or 32 bits: a first token of
// gigabytes (pages that are mapped again and again, so that they take no memory),
// and then a tail.
type Far struct {
	Kind    ref.Kind `json:"kind"`
	Str     bool     `json:"str,omitempty"`
	Split   bool     `json:"split,omitempty"`   // a caller's split function finds the first token
	Generic bool     `json:"generic,omitempty"` // internal/iterators
	Off     int      `json:"off"`               // where the text begins in the region
	Pages   int      `json:"pages"`             // of 2 MiB
	Tail    []byte   `json:"tail"`
	Ops     []string `json:"ops"`
}

const (
	farEdge = 1 << 16
	farPage = 1 << 21
)

// farRegion is an edge, pages of 'a', and an edge. Only the edges are written.
var farRegion []byte
var farPages int

func farMemory(pages int) []byte {
	if farPages == pages {
		return farRegion
	}
	if farRegion != nil {
		munmap(farRegion)
		farRegion, farPages = nil, 0
	}
	size := farEdge + pages*farPage + farEdge
	fail := func(what string, e error) []byte {
		fmt.Fprintf(os.Stderr, "far texts are left out: %s: %v\n", what, e)
		return nil
	}
	name := []byte("far\x00")
	fd, _, e := syscall.Syscall(sysMemfdCreate, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		return fail("memfd_create", e)
	}
	defer syscall.Close(int(fd))
	page := make([]byte, farPage)
	for i := range page {
		page[i] = 'a'
	}
	if _, err := syscall.Write(int(fd), page); err != nil {
		return fail("write", err)
	}
	addr, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return fail("mmap", e)
	}
	for i := 0; i < pages; i++ {
		if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, addr+farEdge+uintptr(i)*farPage, farPage, syscall.PROT_READ, syscall.MAP_SHARED|syscall.MAP_FIXED, fd, 0); e != 0 {
			return fail("mmap", e)
		}
	}
	farRegion, farPages = unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&addr))), size), pages
	return farRegion
}

func munmap(b []byte) {
	syscall.Syscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)), 0)
}

func drawFar(r *prng.R, i int, tier string) *Far {
	f := &Far{Kind: ref.Words, Split: true, Pages: 1024, Str: r.P(1, 2)}
	if r.P(1, 2) {
		f.Pages = 2048
	}
	rounds := 8
	if i >= 0 { // the tokenizer itself goes through the gigabytes
		f.Split, f.Pages = false, 1024
		f.Kind = []ref.Kind{ref.Words, ref.Phrases, ref.Sentences, ref.Graphemes}[i%4]
		if tier == "thorough" && i%3 == 0 {
			f.Pages = 2048
		}
		rounds = 1
	} else {
		f.Generic = r.P(1, 2)
		if f.Generic {
			f.Kind = ref.Kind(r.Intn(int(ref.NKinds)))
		}
	}
	f.Off = r.Intn(300)
	if r.P(1, 2) { // the power of two is inside the tail
		f.Off = farEdge - r.Intn(30)
	}
	f.Tail = gen().Text(r, f.Kind, r.Range(5, 60))
	for n := r.Range(3, 20); n > 0; n-- {
		f.Ops = append(f.Ops, "next")
	}
	for n := r.Intn(rounds + 1); n > 0; n-- {
		f.Ops = append(f.Ops, prng.Pick(r, []string{"first", "reset", "text"}))
		for m := r.Range(1, 12); m > 0; m-- {
			f.Ops = append(f.Ops, "next")
		}
	}
	return f
}

func (f *Far) exec(c *engine.Ctx) {
	region := farMemory(f.Pages)
	if region == nil {
		c.Count("far.unavailable", 1)
		return
	}
	at := farEdge + f.Pages*farPage
	for _, e := range [][]byte{region[:farEdge], region[at:]} {
		for i := range e {
			e[i] = 'a'
		}
	}
	tail := f.Tail
	var sep string
	switch {
	case f.Split:
	case f.Kind == ref.Graphemes: // an operating system command
		copy(region[f.Off:], "\x1b]")
		sep = "\a"
	default:
		sep = " "
	}
	tail = append([]byte(sep), tail...)
	if len(tail) > farEdge {
		return
	}
	copy(region[at:], tail)
	text := region[f.Off : at+len(tail)]
	base := at - f.Off // where the tail begins

	// the cuts, by the rules over a text with a short first token
	var cuts []int
	sur, shift := append([]byte("aaaaaaaa"), tail...), base-8
	switch {
	case f.Split:
		cuts, sur, shift = []int{base}, tail, base
	case f.Kind == ref.Graphemes:
		cuts, sur, shift = []int{base + 1}, tail[1:], base+1
	}
	for _, e := range ref.Analyse(f.Kind, ref.Unicode17(), sur, nil).Cuts() {
		cuts = append(cuts, e+shift)
	}
	if n := len(cuts); n > 1 && cuts[n-1] == cuts[n-2] {
		cuts = cuts[:n-1]
	}

	split := sut.SplitFunc(f.Kind)
	bad := func(n int) bool {
		if n == len(text) || n <= len(tail) {
			return false
		}
		c.Fail("the split function is given %d bytes of %d, at no position of any token", n, len(text))
		return true
	}
	fb := func(b []byte, eof bool) (int, []byte, error) {
		if len(b) == len(text) || bad(len(b)) {
			return base, b[:base], nil
		}
		return split(b, eof)
	}
	fs := func(s string, eof bool) (int, string, error) {
		if len(s) == len(text) || bad(len(s)) {
			return base, s[:base], nil
		}
		n, _, err := split([]byte(s), eof)
		return n, s[:n], err
	}
	str := unsafe.String(&text[0], len(text))
	var it sut.Iter
	if f.Generic {
		it = sut.NewGeneric(nil, f.Str, fb, fs)
	} else {
		it = sut.NewIter(f.Kind, nil, sut.Opt{Str: f.Str, Ansi: f.Kind == ref.Graphemes})
		if f.Split {
			sut.SetSplit(it, fb, fs)
		}
	}
	steps := int64(len(text)) * 60
	if f.Split {
		steps = budget(len(tail))
	}
	sut.Give(it, text, str)
	n, pos, start := 0, 0, 0
	for k, op := range f.Ops {
		vsim.Arm(steps)
		engine.Alive()
		switch op {
		case "next":
			ok := it.Next()
			if want := n < len(cuts); ok != want {
				c.Fail("step %d: Next is %v, want %v (position %d of %d)", k, ok, want, pos, len(text))
			}
			if n < len(cuts) {
				start, pos = pos, cuts[n]
				n++
			}
		case "first":
			p, m := sut.Span(it, true)
			if p != unsafe.Pointer(&text[0]) || m != cuts[0] {
				c.Fail("step %d: First has %d bytes, want %d", k, m, cuts[0])
			}
		case "reset", "text":
			if op == "reset" {
				it.Reset()
			} else {
				sut.Give(it, text, str)
			}
			n, pos, start = 0, 0, 0
		}
		if it.Start() != start || it.End() != pos {
			c.Fail("step %d (%s): token is %d-%d, want %d-%d", k, op, it.Start(), it.End(), start, pos)
		}
		p, m := sut.Span(it, false)
		if m != pos-start || m > 0 && p != unsafe.Pointer(&text[start]) {
			c.Fail("step %d (%s): Value has %d bytes, want %d-%d", k, op, m, start, pos)
		}
	}
	vsim.Disarm()
	c.Count("far.texts", 1)
	c.Count("far.gigabytes", int64(len(text)>>30))
	c.State(prng.Mix(uint64(f.Off), uint64(len(text)), prng.HashString(fmt.Sprint(f.Ops)), prng.HashString(string(f.Tail))))
}

func (f *Far) shrink() []any {
	var out []any
	add := func(g Far) { out = append(out, &HPlan{Far: &g}) }
	for n := len(f.Ops) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(f.Ops) && len(out) < 60; i += n {
			g := *f
			g.Ops = append(append([]string(nil), f.Ops[:i]...), f.Ops[i+n:]...)
			add(g)
		}
	}
	for _, t := range shrinkText(f.Tail) {
		if len(out) > 100 {
			break
		}
		g := *f
		g.Tail = t
		add(g)
	}
	return out
}
