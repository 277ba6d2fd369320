package props

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
)

type unicodeTest struct {
	input    []byte
	expected [][]byte
	comment  string
}

// parseTests reads the table of a generated unicode_test.go.
func parseTests(src []byte) (out []unicodeTest, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return nil, err
	}
	bytesOf := func(e ast.Expr) []byte {
		var b []byte
		for _, x := range e.(*ast.CompositeLit).Elts {
			v, err := strconv.ParseUint(x.(*ast.BasicLit).Value, 0, 8)
			if err != nil {
				panic(err)
			}
			b = append(b, byte(v))
		}
		return b
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Names) != 1 || vs.Names[0].Name != "unicodeTests" || len(vs.Values) != 1 {
				continue
			}
			for _, e := range vs.Values[0].(*ast.CompositeLit).Elts {
				var t unicodeTest
				for _, kv := range e.(*ast.CompositeLit).Elts {
					p := kv.(*ast.KeyValueExpr)
					switch p.Key.(*ast.Ident).Name {
					case "input":
						t.input = bytesOf(p.Value)
					case "expected":
						for _, x := range p.Value.(*ast.CompositeLit).Elts {
							t.expected = append(t.expected, bytesOf(x))
						}
					case "comment":
						t.comment, err = strconv.Unquote(p.Value.(*ast.BasicLit).Value)
						if err != nil {
							return nil, err
						}
					}
				}
				out = append(out, t)
			}
			return out, nil
		}
	}
	return nil, fmt.Errorf("no table of tests")
}
