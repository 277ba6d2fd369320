// Command probe is built from the repository's tokenizers with generated
// tables in the place of the committed ones, and reports what they do.
//
// Input: records of kind byte, length (uint32, little endian), text.
// Kinds 0-3 segment the text; kind 4 answers, for each character of the text,
// BleveNumeric and BleveIdeographic of the character alone.
// Output: count (uint32), then that many uint32 values.
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

type iter interface {
	Next() bool
	End() int
}

func main() {
	in, out := bufio.NewReaderSize(os.Stdin, 1<<20), bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	for {
		var h [5]byte
		if _, err := io.ReadFull(in, h[:]); err == io.EOF {
			return
		} else if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		text := make([]byte, binary.LittleEndian.Uint32(h[1:]))
		if _, err := io.ReadFull(in, text); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var res []uint32
		if h[0] == 4 {
			for _, r := range string(text) {
				var v uint32
				if words.BleveNumeric([]byte(string(r))) {
					v |= 1
				}
				if words.BleveIdeographic([]byte(string(r))) {
					v |= 2
				}
				res = append(res, v)
			}
		} else {
			var it iter
			switch h[0] {
			case 0:
				x := graphemes.FromBytes(text)
				it = x
			case 1:
				x := words.FromBytes(text)
				it = x
			case 3:
				x := phrases.FromBytes(text)
				it = x
			case 2:
				x := sentences.FromBytes(text)
				it = x
			}
			for it.Next() {
				res = append(res, uint32(it.End()))
			}
		}
		b := binary.LittleEndian.AppendUint32(nil, uint32(len(res)))
		for _, v := range res {
			b = binary.LittleEndian.AppendUint32(b, v)
		}
		out.Write(b)
	}
}
