package props

import (
	"verif.local/sim/prng"
	"verif.local/sim/ref"
)

// An independent recogniser of ECMA-48 control functions, written as a state
// machine over the bytes: it returns the length of the well-formed sequence
// that starts at b, or 0.
func ansiLength(b []byte, seven, eight bool) int {
	const (
		none = iota
		escape
		csiParam
		csiInter
		nF
		str
		strEsc
		oscStr
		oscStrEsc
	)
	if len(b) == 0 {
		return 0
	}
	c1 := false // introduced by an 8-bit control
	state := none
	switch x := b[0]; {
	case x == 0x1b && seven:
		state = escape
	case x >= 0x80 && x <= 0x9f && eight:
		c1 = true
		switch x {
		case 0x9b:
			state = csiParam
		case 0x9d:
			state = oscStr
		case 0x90, 0x98, 0x9e, 0x9f:
			state = str
		default:
			return 1
		}
	default:
		return 0
	}
	for i := 1; i < len(b); i++ {
		x := b[i]
		switch state {
		case escape:
			switch {
			case x == '[':
				state = csiParam
			case x == ']':
				state = oscStr
			case x == 'P', x == 'X', x == '^', x == '_':
				state = str
			case 0x20 <= x && x <= 0x2f:
				state = nF
			case 0x30 <= x && x <= 0x7e:
				return i + 1
			default:
				return 0
			}
		case csiParam, csiInter:
			switch {
			case 0x30 <= x && x <= 0x3f && state == csiParam:
			case 0x20 <= x && x <= 0x2f:
				state = csiInter
			case 0x40 <= x && x <= 0x7e:
				return i + 1
			default:
				return 0
			}
		case nF:
			switch {
			case 0x20 <= x && x <= 0x2f:
			case 0x30 <= x && x <= 0x7e:
				return i + 1
			default:
				return 0
			}
		case str, oscStr, strEsc, oscStrEsc:
			osc := state == oscStr || state == oscStrEsc
			afterEsc := state == strEsc || state == oscStrEsc
			switch {
			case afterEsc && x == '\\':
				return i + 1
			case x == 0x18 || x == 0x1a:
				return i // cancelled: the cancel character is not part of it
			case osc && x == 0x07:
				return i + 1
			case c1 && x == 0x9c:
				return i + 1
			case !c1 && x == 0x1b:
				if osc {
					state = oscStrEsc
				} else {
					state = strEsc
				}
			default:
				if osc {
					state = oscStr
				} else {
					state = str
				}
			}
		}
	}
	return 0
}

var ansiBits = []string{"\x1b", "\x1b", "\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x9c", "\x85", "\x80", "\x1b[", "\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1b\\", "\x07", "\x18", "\x1a", "[", "]", "\\", "P",
	"0", "1;2", "?25", ":", "<", " ", "!", "/", "m", "H", "~", "@", "\x7f", "\x7e", "\x40", "\x2f", "\x30", "\x3f", "\r\n", "\n", "\x00", "\u0301", "\u200d", "é", "\u009b", "\u009c", "\u0085", "\xc2", "\xff", "世", "👍", "🇬🇧", "a", "b", "\u0600"}

var ansiWhole = []string{"\x1b[0m", "\x1b[31;1m", "\x1b[?25l", "\x1b[1 q", "\x1b[!p", "\x1b[<0;1;2M", "\x1b]0;title\x07", "\x1b]8;;http://x\x1b\\", "\x1bPq#0\x1b\\", "\x1bXsos\x1b\\", "\x1b^pm\x1b\\", "\x1b_apc\x1b\\", "\x1b7", "\x1bc", "\x1b(B", "\x1b#8", "\x1b%G", "\x1b $~",
	"\x9b31m", "\x9d0;t\x07", "\x9d0;t\x9c", "\x90q\x9c", "\x98s\x9c", "\x9ep\x9c", "\x9fa\x9c", "\x84", "\x9b1;2 p", "\x1b]0;x\x18", "\x1bPx\x1a", "\x9dx\x18", "\x90x\x1a", "\x1b[1 2m", "\x1b]0;x\x9c", "\x9d0;x\x1b\\", "\x1b[\x1b[0m", "\x1b]\x1b\x1b\\", "\x1b\x1b[m"}

func ansiText(r *prng.R) []byte {
	var o []byte
	for n := r.Range(1, 10); n > 0; n-- {
		switch r.Intn(6) {
		case 0, 1:
			o = append(o, prng.Pick(r, ansiWhole)...)
		case 2, 3:
			for m := r.Range(1, 4); m > 0; m-- {
				o = append(o, prng.Pick(r, ansiBits)...)
			}
		case 4:
			o = append(o, string(gen().Frag(r, ref.Graphemes))...)
		default:
			o = append(o, byte(r.Uint64()))
		}
	}
	if r.P(1, 3) {
		o = o[:cutAt(r, o, false)] // torn
	}
	if r.P(1, 30) { // longer than any fixed window
		pad := longSequence(r)
		at := cutAt(r, o, false)
		if r.P(1, 3) {
			at = 0
		}
		o = append(append(append([]byte(nil), o[:at]...), pad...), o[at:]...)
	}
	return o
}

// longSequence draws a sequence with a long body: mostly a well-formed one.
func longSequence(r *prng.R) []byte {
	n := r.Range(20, 600)
	var body, end []string
	bits := func(s string) (o []string) {
		for i := 0; i < len(s); i++ {
			o = append(o, s[i:i+1])
		}
		return
	}
	intro := prng.Pick(r, []string{"\x1b[", "\x9b", "\x1b", "\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x9d", "\x90", "\x98", "\x9e", "\x9f"})
	switch intro {
	case "\x1b[", "\x9b":
		body, end = bits("0123456789;:?"), bits("mHJ~@")
		if r.P(1, 4) {
			body = bits(" !/$")
		}
	case "\x1b":
		body, end = bits(" !#$%()/"), bits("B08~")
	default:
		if r.P(1, 2) {
			n = r.Range(200, 9000)
		}
		if r.P(1, 40) {
			n = r.Range(30000, 80000)
		}
		if r.P(1, 1000) {
			n = 1<<r.Range(17, 20) + r.Intn(5000)
		}
		body, end = bits("ab;0 Q="), []string{"\a", "\x1b\\", "\x1b\\", "\x9c", "\x18", "\x1a"}
		if r.P(1, 2) {
			body = append(body, bits("\x9b\xc2\r\n\x1b\x00\x85")...)
		}
	}
	o := []byte(intro)
	for len(o) < n {
		o = append(o, prng.Pick(r, body)...)
	}
	if r.P(7, 8) {
		o = append(o, prng.Pick(r, end)...)
	}
	return o
}
