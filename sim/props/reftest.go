package props

import (
	"fmt"
	"os"
	"path/filepath"

	"verif.local/sim/engine"
	"verif.local/sim/ref"
)

// reftest validates the reference model: it must agree with the official
// Unicode break tests (as the repository's test files carry them).
func init() {
	engine.Commands["reftest"] = func() int {
		bad, n := 0, 0
		for k, dir := range map[ref.Kind]string{ref.Graphemes: "graphemes", ref.Words: "words", ref.Sentences: "sentences"} {
			src, err := os.ReadFile(filepath.Join(os.Getenv("SIM_REPO"), dir, "unicode_test.go"))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			tests, err := parseTests(src)
			if err != nil || len(tests) < 100 {
				fmt.Fprintln(os.Stderr, "reftest: cannot read the tests of", dir, err)
				return 3
			}
			for _, t := range tests {
				n++
				var want []int
				pos := 0
				for _, e := range t.expected {
					pos += len(e)
					want = append(want, pos)
				}
				if got := ref.Analyse(k, ref.Unicode17(), t.input, nil).Cuts(); !equal(got, want) {
					bad++
					fmt.Fprintf(os.Stderr, "reftest: %v %q: model %v, Unicode %v (%s)\n", k, t.input, got, want, t.comment)
				}
			}
		}
		fmt.Printf("reference model: %d official break tests, %d disagreements\n", n, bad)
		if bad > 0 {
			return 3
		}
		return 0
	}
}
