package simio

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strings"
)

// Faces are what else a reader may be, besides an io.Reader: the types and the
// optional methods of the readers found in deployments.
var Faces = []string{"rich", "rich", "bufio", "bufio_small", "limited", "multi", "tee"}

// StaticFaces are readers of a text that is there as a whole.
var StaticFaces = []string{"strings", "bytes", "buffer", "section", "bufio_bytes", "positioned"}

// Faced gives the reader that face. A static face delivers all of the data,
// and the simulated reader counts it as delivered.
func Faced(face string, r *Reader) io.Reader {
	switch face {
	case "":
		return r
	case "rich":
		return &Rich{r}
	case "bufio":
		return bufio.NewReader(r)
	case "bufio_small":
		return bufio.NewReaderSize(r, 16)
	case "limited":
		return io.LimitReader(r, 1<<40)
	case "multi":
		return io.MultiReader(strings.NewReader(""), r)
	case "tee":
		return io.TeeReader(r, io.Discard)
	}
	r.Sent = len(r.Data)
	switch face {
	case "strings":
		return strings.NewReader(string(r.Data))
	case "bytes":
		return bytes.NewReader(r.Data)
	case "buffer":
		return bytes.NewBuffer(append([]byte(nil), r.Data...))
	case "section":
		b := append(append([]byte("before"), r.Data...), "after"...)
		return io.NewSectionReader(bytes.NewReader(b), 6, int64(len(r.Data)))
	case "positioned": // in the middle of a file, as a program that goes on with its work leaves it
		before := "the text before\u0915\u094d"
		f := strings.NewReader(before + string(r.Data))
		f.Seek(int64(len(before)), io.SeekStart)
		return f
	case "bufio_bytes":
		return bufio.NewReader(bytes.NewReader(r.Data))
	}
	panic("unknown face " + face)
}

// Rich is the reader with all that connections, files and buffers also have.
type Rich struct{ *Reader }

var errNoSeek = errors.New("illegal seek")

// WriteTo copies until the end, as a file or a connection does.
func (r *Rich) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 512)
	for {
		k, err := r.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// ReadByte waits for the next byte.
func (r *Rich) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		n, err := r.Read(b[:])
		if n > 0 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// Len is what has arrived and was not read yet.
func (r *Rich) Len() int {
	if r.i < len(r.Steps) {
		return r.Steps[r.i].N - r.part
	}
	return len(r.Data) - r.Sent
}

// Size is that of the file, as far as it is there.
func (r *Rich) Size() int64 { return int64(r.Sent + r.Len()) }

func (r *Rich) Seek(int64, int) (int64, error) { return 0, errNoSeek }
func (r *Rich) Close() error                   { r.Closed = true; return nil }
