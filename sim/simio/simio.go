// Package simio is the simulated stream: an io.Reader whose every result is
// decided by the plan, on a simulated clock.
package simio

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"verif.local/sim/prng"
	"verif.local/sim/vsim"
)

// Step is one delivery. A step with N bytes may take several Reads when the
// caller's buffer is smaller.
type Step struct {
	N        int    `json:"n,omitempty"`
	Wait     int64  `json:"w,omitempty"` // simulated ns that pass before it
	Err      string `json:"e,omitempty"` // error returned together with the last byte of the step
	Scribble bool   `json:"s,omitempty"` // overwrite the rest of the lent buffer
}

// Errors a reader may end with.
type TempErr struct{}

func (TempErr) Error() string   { return "simulated temporary error" }
func (TempErr) Temporary() bool { return true }
func (TempErr) Timeout() bool   { return true }

var (
	ErrBoom    = errors.New("simulated i/o error")
	ErrWrapped = fmt.Errorf("simulated transport: %w", io.EOF)
	ErrWrap2   = fmt.Errorf("simulated: %w", io.ErrUnexpectedEOF)
	// not comparable: code that compares errors carelessly panics
	errSlice = sliceErr{"simulated uncomparable error"}
)

// deployed are the errors that readers of files, pipes, connections and
// requests end with; every one but the bare ones is a pointer of its own.
var deployed = map[string]error{
	"eintr":        syscall.EINTR,
	"eagain":       &os.PathError{Op: "read", Path: "/dev/stdin", Err: syscall.EAGAIN},
	"reset":        &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	"epipe":        &os.PathError{Op: "read", Path: "|0", Err: syscall.EPIPE},
	"file_closed":  &os.PathError{Op: "read", Path: "text", Err: os.ErrClosed},
	"net_closed":   net.ErrClosed,
	"canceled":     context.Canceled,
	"deadline":     fmt.Errorf("reading the body: %w", context.DeadlineExceeded),
	"final_token":  bufio.ErrFinalToken,
	"too_long":     bufio.ErrTooLong,
	"short_buffer": io.ErrShortBuffer,
}

type sliceErr []string

func (s sliceErr) Error() string { return s[0] }

// ErrorKinds in the order the generator draws them.
var ErrorKinds = []string{"boom", "wrapped_eof", "wrapped_unexpected", "temporary", "unexpected_eof", "no_progress", "closed_pipe", "uncomparable",
	"eintr", "eagain", "reset", "epipe", "file_closed", "net_closed", "canceled", "deadline", "final_token", "short_buffer"}

func ErrorFor(k string) error {
	switch k {
	case "eof":
		return io.EOF
	case "boom":
		return ErrBoom
	case "wrapped_eof":
		return ErrWrapped
	case "wrapped_unexpected":
		return ErrWrap2
	case "temporary":
		return TempErr{}
	case "unexpected_eof":
		return io.ErrUnexpectedEOF
	case "no_progress":
		return io.ErrNoProgress
	case "closed_pipe":
		return io.ErrClosedPipe
	case "uncomparable":
		return errSlice
	}
	if e, ok := deployed[k]; ok {
		return e
	}
	panic("unknown error kind " + k)
}

// SameErr compares errors, uncomparable ones included.
func SameErr(a, b error) bool {
	if s, ok := b.(sliceErr); ok {
		t, ok := a.(sliceErr)
		return ok && len(s) > 0 && len(t) > 0 && &s[0] == &t[0]
	}
	if _, ok := a.(sliceErr); ok {
		return false
	}
	return a == b
}

// Reader delivers Data according to Steps, then the rest in one piece, then
// Final (io.EOF by default).
type Reader struct {
	Data    []byte
	Steps   []Step
	Final   error
	OnRead  func(r *Reader, lent int) // called at the start of every Read
	Yield   bool                      // preemption point inside Read
	Cut     int                       // bytes that will ever be delivered
	Done    bool                      // an error or EOF was returned
	After   int                       // Reads after that
	Closed  bool
	Reads   int
	Empty   int
	Sent    int
	Now     int64 // simulated clock
	Blocked int   // Reads that had to wait
	seed    uint64
	arrived int64
	i       int
	part    int
	err     error
	Hash    uint64
}

func (r *Reader) Read(p []byte) (n int, err error) {
	r.Reads++
	if r.Yield {
		vsim.Point()
	}
	if r.OnRead != nil {
		r.OnRead(r, len(p))
	}
	if r.Done {
		r.After++
		return 0, r.err
	}
	defer func() {
		r.Hash = prng.Mix(r.Hash, uint64(len(p)), uint64(n), uint64(r.Now))
		if r.Yield {
			vsim.Point()
		}
	}()
	if len(p) == 0 {
		return 0, nil
	}
	st := Step{N: len(r.Data) - r.Sent + r.part, Err: "final"}
	if r.i < len(r.Steps) {
		st = r.Steps[r.i]
	}
	if r.part == 0 {
		if r.arrived += st.Wait; r.Now < r.arrived {
			r.Now = r.arrived // nothing there yet: the caller waits
			r.Blocked++
		}
	}
	want := st.N - r.part
	if left := len(r.Data) - r.Sent; want > left {
		want = left
	}
	n = want
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.Data[r.Sent:r.Sent+n])
	r.Sent += n
	if st.Scribble {
		for j := n; j < len(p); j++ {
			r.seed = r.seed*6364136223846793005 + 1442695040888963407
			p[j] = byte(r.seed >> 56)
		}
	}
	if n < want {
		r.part += n
		return n, nil
	}
	r.part = 0
	r.i++
	if st.Err != "" {
		if st.Err == "final" {
			// data first, then the final error on its own
			if n > 0 {
				return n, nil
			}
			err = r.Final
			if err == nil {
				err = io.EOF
			}
		} else {
			err = ErrorFor(st.Err)
		}
		r.Done, r.err = true, err
		return n, err
	}
	if n == 0 {
		r.Empty++
	}
	return n, nil
}

// Chunking draws a delivery schedule for n bytes.  bounds are interesting cut
// positions (character and token boundaries) that it favours.
func Chunking(r *prng.R, n int, bounds []int, waits bool) []Step {
	var st []Step
	mode := r.Weighted(3, 3, 2, 2, 2, 1)
	if n > 20000 && r.P(3, 4) {
		mode = 6
	}
	empties := r.P(1, 3)
	scrib := r.P(1, 3)
	near := map[int]bool{}
	for _, b := range bounds {
		near[b] = true
		near[b+1] = r.P(1, 2)
		near[b-1] = r.P(1, 3)
	}
	pos, run := 0, 0
	small := r.Range(1, 4)
	for pos < n {
		k := 1
		switch mode {
		case 0: // one byte at a time
		case 1:
			k = r.Range(1, small+1)
		case 2:
			k = r.Geom(8)
		case 3: // stop at interesting places
			for pos+k < n && !(near[pos+k] && r.P(2, 3)) {
				k++
			}
		case 4: // mixture
			switch r.Intn(3) {
			case 0:
				k = 1
			case 1:
				k = r.Range(1, 16)
			default:
				k = r.Geom(40)
			}
		case 6: // large pieces and small ones
			if k = r.Range(1, 30000); r.P(1, 3) {
				k = r.Range(1, 40)
			} else if r.P(1, 4) {
				k = 1 << r.Range(8, 16)
			}
		case 5: // whole, or all but the tail
			k = n - pos
			if r.P(2, 3) && k > 4 {
				k -= r.Range(1, 4)
			}
		}
		if pos+k > n {
			k = n - pos
		}
		s := Step{N: k, Scribble: scrib && r.P(1, 2)}
		if waits {
			switch r.Intn(4) {
			case 0:
			case 1:
				s.Wait = int64(r.Range(1, 1000)) * 1000
			case 2:
				s.Wait = int64(r.Range(1, 500)) * 1000000
			default:
				s.Wait = int64(r.Range(1, 600)) * 1000000000
			}
		}
		st = append(st, s)
		pos += k
		if empties && r.P(1, 4) {
			for m := r.Range(1, 3); m > 0; m-- {
				run++
				st = append(st, Step{Scribble: scrib && r.P(1, 2)})
			}
		}
	}
	if len(st) > 0 && r.P(1, 3) {
		st[len(st)-1].Err = "eof" // data together with EOF
	}
	return st
}
