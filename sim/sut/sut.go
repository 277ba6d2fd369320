// Package sut is the only place that names the API of the code under test.
package sut

import (
	"bufio"
	"io"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
	"github.com/clipperhouse/uax29/v2/zzshim"

	"verif.local/sim/ref"
)

type Scanner interface {
	Scan() bool
	Bytes() []byte
	Text() string
	Err() error
	Buffer([]byte, int)
}

// Iter is an in-memory iterator, whatever its text type. Value and First
// return the bytes (a copy for strings).
type Iter interface {
	Next() bool
	Value() []byte
	Start() int
	End() int
	Reset()
	SetText([]byte)
	First() []byte
}

func SplitFunc(k ref.Kind) bufio.SplitFunc {
	switch k {
	case ref.Graphemes:
		return graphemes.SplitFunc
	case ref.Words:
		return words.SplitFunc
	case ref.Sentences:
		return sentences.SplitFunc
	}
	return phrases.SplitFunc
}

// nilB and nilS stand for Joiners(nil), which a caller uses to have none.
var (
	nilB = &words.Joiners[[]byte]{}
	nilS = &words.Joiners[string]{}
)

func realB(j *words.Joiners[[]byte]) *words.Joiners[[]byte] {
	if j == nilB {
		return nil
	}
	return j
}
func realS(j *words.Joiners[string]) *words.Joiners[string] {
	if j == nilS {
		return nil
	}
	return j
}

func BytesJoiners(j *ref.Joiners) *words.Joiners[[]byte] {
	if j.Nil {
		return nilB
	}
	return &words.Joiners[[]byte]{Middle: j.Middle, Leading: j.Leading}
}
func StringJoiners(j *ref.Joiners) *words.Joiners[string] {
	if j.Nil {
		return nilS
	}
	return &words.Joiners[string]{Middle: j.Middle, Leading: j.Leading}
}

// NewScanner builds a scanner; shared, when not nil, is used instead of j.
func NewScanner(k ref.Kind, r io.Reader, j *words.Joiners[[]byte]) Scanner {
	switch k {
	case ref.Graphemes:
		return graphemes.FromReader(r)
	case ref.Words:
		s := words.FromReader(r)
		if j != nil {
			s.Joiners(realB(j))
		}
		return s
	case ref.Sentences:
		return sentences.FromReader(r)
	}
	return phrases.FromReader(r)
}

// ScannerJoiners (re)configures the joiners of a word scanner.
func ScannerJoiners(s Scanner, j *words.Joiners[[]byte]) {
	if w, ok := s.(*words.Scanner); ok {
		w.Joiners(realB(j))
	}
}

type bytesIter interface {
	Next() bool
	Value() []byte
	Start() int
	End() int
	Reset()
	SetText([]byte)
	First() []byte
}
type stringIter interface {
	Next() bool
	Value() string
	Start() int
	End() int
	Reset()
	SetText(string)
	First() string
}

type sIter struct{ stringIter }

func (s sIter) Value() []byte    { return []byte(s.stringIter.Value()) }
func (s sIter) First() []byte    { return []byte(s.stringIter.First()) }
func (s sIter) SetText(b []byte) { s.stringIter.SetText(string(b)) }

// NamedBytes and NamedString are callers' own text types.
type NamedBytes []byte
type NamedString string

type nbIter struct{ *words.Iterator[NamedBytes] }

func (s nbIter) Value() []byte    { return s.Iterator.Value() }
func (s nbIter) First() []byte    { return s.Iterator.First() }
func (s nbIter) SetText(b []byte) { s.Iterator.SetText(b) }

type nsIter struct{ *words.Iterator[NamedString] }

func (s nsIter) Value() []byte    { return []byte(s.Iterator.Value()) }
func (s nsIter) First() []byte    { return []byte(s.Iterator.First()) }
func (s nsIter) SetText(b []byte) { s.Iterator.SetText(NamedString(b)) }

// Opt are the options of in-memory iterators.
type Opt struct {
	Str   bool // from a string
	Named bool // from a caller's own string or byte slice type (words with joiners)
	Ansi  bool
	Ansi8 bool
	JB    *words.Joiners[[]byte]
	JS    *words.Joiners[string]
	PB    *words.Joiners[[]byte] // configured before JB and JS
	PS    *words.Joiners[string]
}

func NewIter(k ref.Kind, text []byte, o Opt) Iter {
	var bi bytesIter
	var si stringIter
	switch k {
	case ref.Graphemes:
		if o.Str {
			g := graphemes.FromString(string(text))
			g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = o.Ansi, o.Ansi8
			si = g
		} else {
			g := graphemes.FromBytes(text)
			g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = o.Ansi, o.Ansi8
			bi = g
		}
	case ref.Words:
		if o.Named && o.JB != nil {
			if o.Str {
				w := &words.Iterator[NamedString]{}
				if o.JB == nilB {
					w.Joiners(nil)
				} else {
					w.Joiners(&words.Joiners[NamedString]{Middle: o.JB.Middle, Leading: o.JB.Leading})
				}
				w.SetText(NamedString(text))
				return nsIter{w}
			}
			w := &words.Iterator[NamedBytes]{}
			if o.JB == nilB {
				w.Joiners(nil)
			} else {
				w.Joiners(&words.Joiners[NamedBytes]{Middle: o.JB.Middle, Leading: o.JB.Leading})
			}
			w.SetText(text)
			return nbIter{w}
		}
		if o.Str {
			w := words.FromString(string(text))
			if o.PS != nil {
				w.Joiners(realS(o.PS))
			}
			if o.JS != nil {
				w.Joiners(realS(o.JS))
			}
			si = w
		} else {
			w := words.FromBytes(text)
			if o.PB != nil {
				w.Joiners(realB(o.PB))
			}
			if o.JB != nil {
				w.Joiners(realB(o.JB))
			}
			bi = w
		}
	case ref.Sentences:
		if o.Str {
			si = sentences.FromString(string(text))
		} else {
			bi = sentences.FromBytes(text)
		}
	default:
		if o.Str {
			si = phrases.FromString(string(text))
		} else {
			bi = phrases.FromBytes(text)
		}
	}
	if o.Str {
		return sIter{si}
	}
	return bi
}

// SetAnsi switches the grapheme options of a live iterator.
func SetAnsi(it Iter, a7, a8 bool) {
	switch v := it.(type) {
	case *graphemes.Iterator[[]byte]:
		v.AnsiEscapeSequences, v.AnsiEscapeSequences8Bit = a7, a8
	case sIter:
		g := v.stringIter.(*graphemes.Iterator[string])
		g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = a7, a8
	}
}

func SetJoiners(it Iter, jb *words.Joiners[[]byte], js *words.Joiners[string]) {
	switch v := it.(type) {
	case *words.Iterator[[]byte]:
		v.Joiners(realB(jb))
	case sIter:
		v.stringIter.(*words.Iterator[string]).Joiners(realS(js))
	}
}

// SplitB / SplitS are split functions over the two text types.
type SplitB = func([]byte, bool) (int, []byte, error)
type SplitS = func(string, bool) (int, string, error)

// SetSplit installs a split function into the word iterator or the generic iterator.
func SetSplit(it Iter, b SplitB, s SplitS) {
	switch v := it.(type) {
	case *words.Iterator[[]byte]:
		v.Split(b)
	case *zzshim.BytesIterator:
		v.Split(b)
	case sIter:
		switch w := v.stringIter.(type) {
		case *words.Iterator[string]:
			w.Split(s)
		case *zzshim.StringIterator:
			w.Split(s)
		}
	}
}

// NewGeneric builds the generic iterator of internal/iterators.
func NewGeneric(text []byte, str bool, b SplitB, s SplitS) Iter {
	if str {
		return sIter{zzshim.NewString(s, string(text))}
	}
	return zzshim.NewBytes(b, text)
}

func BleveNumeric(b []byte) bool     { return words.BleveNumeric(b) }
func BleveIdeographic(b []byte) bool { return words.BleveIdeographic(b) }
func AlphaNumeric(b []byte) bool     { return zzshim.AlphaNumeric(b) }

// WordsSplit is the exported split function of words in both text types, as a
// user would pass it to Iterator.Split.
func WordsSplit() (SplitB, SplitS) {
	return SplitB(words.SplitFunc), func(s string, eof bool) (int, string, error) {
		n, tok, err := words.SplitFunc([]byte(s), eof)
		return n, string(tok), err
	}
}

type walker[T any] interface {
	Next() bool
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
	First() T
}

func walk[T ~string | ~[]byte](it walker[T], peek, max int) (n, sum int) {
	for n < max && it.Next() {
		n++
		sum += len(it.Value()) + it.Start()&1 + it.End()&1
		if peek > 0 && n%peek == 0 {
			sum += len(it.First())
		}
	}
	return n, sum
}

// Walk iterates at most max tokens and reads them, peeking at the first token
// every so often; itself it allocates nothing.
func Walk(it Iter, peek, max int) (int, int) {
	switch v := it.(type) {
	case sIter:
		return walk[string](v.stringIter, peek, max)
	case nsIter:
		return walk[NamedString](v.Iterator, peek, max)
	case nbIter:
		return walk[NamedBytes](v.Iterator, peek, max)
	}
	return walk[[]byte](it, peek, max)
}

// Give replaces the text without copying it.
func Give(it Iter, b []byte, s string) {
	switch v := it.(type) {
	case sIter:
		v.stringIter.SetText(s)
	case nsIter:
		v.Iterator.SetText(NamedString(s))
	default:
		it.SetText(b)
	}
}

func span[T ~string | ~[]byte](it walker[T], first bool) (unsafe.Pointer, int) {
	var v T
	if first {
		v = it.First()
	} else {
		v = it.Value()
	}
	// the first word of a string and of a slice is the pointer
	return *(*unsafe.Pointer)(unsafe.Pointer(&v)), len(v)
}

// Span is where the current (or the first) token lies in memory.
func Span(it Iter, first bool) (unsafe.Pointer, int) {
	if v, ok := it.(sIter); ok {
		return span[string](v.stringIter, first)
	}
	return span[[]byte](it, first)
}
