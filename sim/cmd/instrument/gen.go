package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// mapRanges finds every "for k, v := range m" over a map in the packages of dir
// that belong to the module and rewrites it so that the order comes from the
// simulator.
func mapRanges(dir, pattern, module string) (map[string][]edit, int) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Module,Name", pattern)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	die(err)
	all := map[string][]edit{}
	type pkg struct {
		ImportPath, Export, Dir, Name string
		GoFiles                       []string
		Module                        *struct{ Path string }
	}
	exports := map[string]string{}
	var own []pkg
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == module {
			own = append(own, p)
		}
	}
	sites := 0
	for _, p := range own {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		var files []*ast.File
		var srcs [][]byte
		var paths []string
		for _, g := range p.GoFiles {
			fp := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(fp)
			die(err)
			f, err := parser.ParseFile(fset, fp, src, parser.ParseComments)
			die(err)
			files = append(files, f)
			srcs = append(srcs, src)
			paths = append(paths, fp)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			tf := fset.File(f.Pos())
			off := func(p token.Pos) int { return tf.Offset(p) }
			src := srcs[i]
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var edits []edit
			ast.Inspect(f, func(nd ast.Node) bool {
				r, ok := nd.(*ast.RangeStmt)
				if !ok {
					return true
				}
				tv, ok := info.Types[r.X]
				if !ok || tv.Type == nil {
					return true
				}
				if _, ok := tv.Type.Underlying().(*types.Map); !ok {
					return true
				}
				blank := func(e ast.Expr) bool {
					if e == nil {
						return true
					}
					id, ok := e.(*ast.Ident)
					return ok && id.Name == "_"
				}
				pre := "if !zkv.In() { continue };"
				op := r.Tok.String()
				if !blank(r.Key) {
					pre += text(r.Key) + op + "zkv.K;"
				}
				if !blank(r.Value) {
					pre += text(r.Value) + op + "zkv.V();"
				}
				edits = append(edits,
					edit{off: off(r.For), del: off(r.X.Pos()) - off(r.For), text: "for _, zkv := range zmaporder.Pairs("},
					edit{off: off(r.X.End()), text: ")"},
					edit{off: off(r.Body.Lbrace) + 1, text: pre})
				sites++
				return true
			})
			if len(edits) > 0 {
				edits = append(edits, edit{off: off(f.Name.End()), text: "; import zmaporder \"verif.local/sim/maporder\""})
				all[paths[i]] = edits
			}
		}
	}
	return all, sites
}

// instrumentGen rewrites the map iterations of the generator, and adds the file
// that installs the simulated network before main runs.
func instrumentGen(repo, out string, replace map[string]string) {
	dir := filepath.Join(repo, "internal", "gen")
	all, sites := mapRanges(dir, ".", "github.com/clipperhouse/uax29/v2/internal/gen")
	for path, edits := range all {
		rel, _ := filepath.Rel(repo, path)
		dst := filepath.Join(out, "gensrc", rel)
		src, err := os.ReadFile(path)
		die(err)
		die(os.MkdirAll(filepath.Dir(dst), 0o755))
		die(os.WriteFile(dst, apply(src, edits), 0o644))
		replace[path] = dst
	}
	ini := filepath.Join(out, "gensrc", "zz_init.go")
	die(os.MkdirAll(filepath.Dir(ini), 0o755))
	die(os.WriteFile(ini, []byte("package main\n\nimport (\n\tzzos \"os\"\n\n\t\"verif.local/sim/simnet\"\n)\n\nfunc init() {\n\tsimnet.Install()\n\tzzos.SimDisk = simnet.Disk\n}\n"), 0o644))
	instrumentOS(out, replace)
	replace[filepath.Join(dir, "zz_verif_init.go")] = ini
	fmt.Fprintf(os.Stderr, "instrument: %d map iterations in the generator\n", sites)
}

// instrumentOS puts the simulated disk under (*os.File).Write, (*os.File).Close
// and os.Rename of the generator process: these are the calls through which an
// operating system reports that a file has not been stored.
func instrumentOS(out string, replace map[string]string) {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	die(err)
	dir := filepath.Join(strings.TrimSpace(string(root)), "src", "os")
	edit := func(file string, pairs ...string) {
		b, err := os.ReadFile(filepath.Join(dir, file))
		die(err)
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				die(fmt.Errorf("the standard library's os/%s is not as expected: %q", file, pairs[i]))
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		dst := filepath.Join(out, "gensrc", "os_"+file)
		die(os.WriteFile(dst, []byte(s), 0o644))
		replace[filepath.Join(dir, file)] = dst
	}
	edit("file_posix.go",
		"\treturn f.file.close()\n", `	err := f.file.close()
	if err == nil && SimDisk != nil {
		if _, e := SimDisk("close", f.name, 0); e != nil {
			return &PathError{Op: "close", Path: f.name, Err: e}
		}
	}
	return err
`)
	edit("file.go",
		"\tn, e := f.write(b)\n", `	if SimDisk != nil {
		if m, e := SimDisk("write", f.name, len(b)); e != nil {
			n, _ := f.write(b[:m])
			return max(n, 0), f.wrapErr("write", e)
		}
	}
	n, e := f.write(b)
`,
		"\nfunc Rename(oldpath, newpath string) error {\n", `
func Rename(oldpath, newpath string) error {
	if SimDisk != nil {
		if _, e := SimDisk("rename", newpath, 0); e != nil {
			return &LinkError{"rename", oldpath, newpath, e}
		}
	}
`,
		"\n// Write writes len(b) bytes from b to the File.\n", `
// SimDisk is the simulated disk.
var SimDisk func(op, name string, n int) (int, error)

// Write writes len(b) bytes from b to the File.
`)
}
