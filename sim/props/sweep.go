package props

import (
	"verif.local/sim/ref"
)

// Sweep is a text that places every code point of a range into contexts that
// tell the classes apart; contexts are separated by line feeds, at which all
// segmentations start afresh.
type Sweep struct {
	From rune `json:"from"`
	To   rune `json:"to"`  // exclusive
	Ctx  int  `json:"ctx"` // -1: all contexts
}

// X marks the place of the code point.
var contexts = [ref.NKinds][]string{
	ref.Graphemes: {"aX", "X\u0308b", "ᄀX", "Xᆨ", "가X", "각X", "क\u094dX", "X\u094dक", "Xक", "\U0001F469\u200dX", "X\u200d\U0001F469", "🇦X", "🇦🇦X🇦", "\u0600X", "\rX", "Xa"},
	ref.Words:     {"aX", "Xb", "aXb", "1X2", "אXא", "א\"X", "カX", "X_", "_X", "X X", " X", "\u200dX", "aX\u0308b", "🇦X🇦", "\rX", "a.X", "1,X", "aX\u00ad1"},
	ref.Phrases:   {"aX", "Xb", "aXb", "1X2", "אXא", "א\"X", "カX", "X_", "_X", "X X", " X", "a X", "X 1", "\u200dX", "aX\u0308b", "🇦X🇦", "\rX", "a.X", "1,X"},
	ref.Sentences: {"a.X", "a. Xb c", "aXB c", "A.X", "X.X", "1X2", "a.)X b", "a! X", "aX A", "aX b", "X", "a.\u0308X", "a. X\u0308b", "a. 1Xb", "X. B", "\rX"},
}

func (s *Sweep) text(k ref.Kind) []byte {
	var o []byte
	for r := s.From; r < s.To; r++ {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		for i, c := range contexts[k] {
			if s.Ctx >= 0 && s.Ctx != i {
				continue
			}
			for _, x := range c {
				if x == 'X' {
					x = r
				}
				o = append(o, string(x)...)
			}
			o = append(o, '\n')
		}
	}
	return o
}

func (s *Sweep) shrink() []*Sweep {
	var out []*Sweep
	if n := s.To - s.From; n > 1 {
		m := s.From + n/2
		out = append(out, &Sweep{s.From, m, s.Ctx}, &Sweep{m, s.To, s.Ctx})
	}
	if s.Ctx < 0 {
		for i := 0; i < 20; i++ {
			out = append(out, &Sweep{s.From, s.To, i})
		}
	}
	return out
}

const sweepStep = 2048
const sweepRuns = (ref.MaxRune + 1 + sweepStep - 1) / sweepStep

func sweepFor(i int) *Sweep {
	lo := rune(i * sweepStep)
	hi := lo + sweepStep
	if hi > ref.MaxRune+1 {
		hi = ref.MaxRune + 1
	}
	return &Sweep{lo, hi, -1}
}
