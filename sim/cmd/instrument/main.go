// Command instrument reads the current working tree of the repository and
// writes instrumented copies of its non-test Go files plus the overlay file
// that makes "go build" use them.  Nothing in the repository is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	vsimPath  = "verif.local/sim/vsim"
	vsyncPath = "verif.local/sim/vsync"
)

type edit struct {
	off  int
	del  int
	text string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	gen := flag.Bool("gen", false, "instrument internal/gen (map iteration order) instead of the library")
	bare := flag.Bool("bare", false, "only add the window on the internal packages: no instrumentation")
	flag.Parse()
	replace := map[string]string{}
	if *gen {
		instrumentGen(*repo, *out, replace)
	} else {
		instrumentLib(*repo, *out, replace, *bare)
	}
	js, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
}

func instrumentLib(repo, out string, replace map[string]string, bare bool) {
	total := 0
	type file struct {
		path, rel string
		src       []byte
	}
	var files []file
	maps := false
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if fi.IsDir() {
			b := fi.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "comparative") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir // another module
				}
			}
			return nil
		}
		if bare || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		files = append(files, file{path, rel, src})
		maps = maps || bytes.Contains(src, []byte("map["))
		return nil
	})
	die(err)
	var ranges map[string][]edit
	if maps {
		ranges, _ = mapRanges(repo, "./...", "github.com/clipperhouse/uax29/v2")
	}
	for _, f := range files {
		res, n := instrumentFile(f.path, f.src, ranges[f.path])
		total += n
		dst := filepath.Join(out, "src", f.rel)
		die(os.MkdirAll(filepath.Dir(dst), 0o755))
		die(os.WriteFile(dst, res, 0o644))
		replace[f.path] = dst
	}
	// a window on the internal packages, importable from outside the module
	shim := filepath.Join(out, "src", "zzshim.go")
	die(os.MkdirAll(filepath.Dir(shim), 0o755))
	die(os.WriteFile(shim, []byte(`package zzshim

import (
	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
)

type StringIterator = iterators.Iterator[string]
type BytesIterator = iterators.Iterator[[]byte]

func NewString(f func(string, bool) (int, string, error), s string) *StringIterator {
	return iterators.New[string](f, s)
}
func NewBytes(f func([]byte, bool) (int, []byte, error), b []byte) *BytesIterator {
	return iterators.New[[]byte](f, b)
}
func AlphaNumeric(b []byte) bool { return filter.AlphaNumeric(b) }
`), 0o644))
	replace[filepath.Join(repo, "zzshim", "zzshim.go")] = shim
	fmt.Fprintf(os.Stderr, "instrument: %d yield points in %d files\n", total, len(replace)-1)
}

func instrumentFile(path string, src []byte, edits []edit) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	die(err)
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	n := 0
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off: off(s.Pos()), text: "zvsim.Y();"})
			n++
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			// an empty loop body still counts
			if len(x.Body.List) == 0 {
				edits = append(edits, edit{off: off(x.Body.Lbrace) + 1, text: "zvsim.Y();"})
				n++
			}
		}
		return true
	})
	n += charges(f, func(p token.Pos, t string) { edits = append(edits, edit{off: off(p), text: t}) })
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			t := strconv.Quote(vsyncPath)
			if im.Name == nil {
				t = "sync " + t
			}
			edits = append(edits, edit{off: off(im.Path.Pos()), del: len(im.Path.Value), text: t})
		}
	}
	if n > 0 {
		edits = append(edits, edit{off: off(f.Name.End()), text: "; import zvsim " + strconv.Quote(vsimPath)})
	}
	return apply(src, edits), n
}

// Functions of the standard library that look at a bounded part of their
// argument; all others of these packages look at all of it.
var constant = map[string]bool{
	"DecodeRune": true, "DecodeRuneInString": true, "DecodeLastRune": true, "DecodeLastRuneInString": true,
	"EncodeRune": true, "AppendRune": true, "FullRune": true, "FullRuneInString": true, "RuneLen": true, "RuneStart": true, "ValidRune": true,
	"HasPrefix": true, "HasSuffix": true, "TrimPrefix": true, "TrimSuffix": true, "CutPrefix": true, "CutSuffix": true,
	"TrimLeft": true, "TrimRight": true, "TrimSpace": true, "Trim": true, "TrimLeftFunc": true, "TrimRightFunc": true, "TrimFunc": true,
	"Equal": true, "Compare": true, "NewReader": true, "NewBuffer": true, "NewBufferString": true, "NewReplacer": true,
	"Cut": true, "EqualFold": true,
	"Lines": true, "SplitSeq": true, "SplitAfterSeq": true, "FieldsSeq": true, "FieldsFuncSeq": true,
}

// charges finds calls into the standard library, and conversions, that read or
// copy a whole text, and wraps their first argument and result.
func charges(f *ast.File, ins func(p token.Pos, t string)) int {
	pkgs := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "bytes", "strings", "unicode/utf8":
			name := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			pkgs[name] = p
		}
	}
	n := 0
	wrap := func(e ast.Expr, fn string) {
		ins(e.Pos(), "zvsim."+fn+"(")
		ins(e.End(), ")")
		n++
	}
	skip := map[ast.Expr]bool{} // conversions the compiler makes without copying
	textType := func(e ast.Expr) bool {
		switch t := e.(type) {
		case *ast.Ident:
			return t.Name == "string"
		case *ast.ArrayType:
			el, ok := t.Elt.(*ast.Ident)
			return ok && t.Len == nil && (el.Name == "byte" || el.Name == "rune")
		case *ast.ParenExpr:
			return false
		}
		return false
	}
	plain := func(e ast.Expr) bool { // no text worth charging for
		switch x := e.(type) {
		case *ast.BasicLit:
			return true
		case *ast.Ident:
			return x.Name == "nil"
		}
		return false
	}
	visit := func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR // constants must stay constant
		case *ast.BinaryExpr:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
				skip[x.X], skip[x.Y] = true, true
			}
		case *ast.IndexExpr:
			skip[x.Index] = true
		case *ast.SwitchStmt:
			if x.Tag != nil {
				skip[x.Tag] = true
			}
		case *ast.RangeStmt:
			skip[x.X] = true
		case *ast.CallExpr:
			if textType(x.Fun) && len(x.Args) == 1 && !skip[ast.Expr(x)] {
				if !plain(x.Args[0]) {
					if _, ok := x.Fun.(*ast.Ident); ok {
						wrap(x.Args[0], "S")
					} else {
						wrap(x.Args[0], "R")
					}
				}
				return true
			}
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok || len(x.Args) == 0 || x.Ellipsis.IsValid() {
				return true
			}
			id, ok := sel.X.(*ast.Ident)
			if !ok || pkgs[id.Name] == "" || constant[sel.Sel.Name] {
				return true
			}
			if plain(x.Args[0]) {
				return true
			}
			if c, ok := x.Args[0].(*ast.CallExpr); ok && textType(c.Fun) {
				skip[c] = true // charged here
			}
			switch name := sel.Sel.Name; {
			case strings.HasPrefix(name, "Index"):
				wrap(x, "I")
				wrap(x.Args[0], "L")
			case strings.HasPrefix(name, "Contains"):
				wrap(x, "B")
				wrap(x.Args[0], "L")
			case strings.HasPrefix(name, "Valid") || strings.HasPrefix(name, "RuneCount"):
				wrap(x.Args[0], "C")
			default:
				wrap(x.Args[0], "C")
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	return n
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := edits[i], edits[j]
		return a.off < b.off || a.off == b.off && a.del == 0 && b.del > 0
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.text)
		last = e.off + e.del
	}
	b.Write(src[last:])
	return []byte(b.String())
}
