// domain lists changes to the library that only show for some values: after an assignment or on entry of a function
// a number or vector is capped, cut off or rounded to zero. One per line as JSON, for mutrun.py.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type Mut struct {
	File, Op, Func string
	Line           int
	Off, End       int
	New            string
	Old, Now       string
}

func main() {
	dir := os.Args[1]
	names, _ := filepath.Glob(dir + "/*.go")
	fs := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	base := map[*ast.File]string{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "debug.go") {
			continue
		}
		src, _ := os.ReadFile(n)
		f, err := parser.ParseFile(fs, n, src, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		srcs[f], base[f] = src, filepath.Base(n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fs, "source", nil), Error: func(error) {}}
	conf.Check("cp", fs, files, info)
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range files {
		src := srcs[f]
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(at int, op, what string) {
			ls := bytes.LastIndexByte(src[:at], '\n') + 1
			m := Mut{File: base[f], Op: op, Func: fn, Line: 1 + bytes.Count(src[:at], []byte("\n")), Off: at, End: at, New: what}
			m.Old = strings.TrimSpace(string(src[ls:at]))
			m.Now = m.Old + what
			enc.Encode(m)
		}
		mutate := func(at int, t types.Type, x string) {
			if t == nil {
				return
			}
			switch t.String() {
			case "float64":
				for _, k := range []string{"1", "10", "100", "1000"} {
					emit(at, "cap", fmt.Sprintf("; if %s > %s && %s < 1e300 { %s = %s }", x, k, x, x, k))
				}
				for _, k := range []string{"0", "-1", "-10", "-100"} {
					emit(at, "floor", fmt.Sprintf("; if %s < %s && %s > -1e300 { %s = %s }", x, k, x, x, k))
				}
				for _, k := range []string{"1e-2", "1e-3", "1e-5"} {
					emit(at, "zero", fmt.Sprintf("; if %s < %s && %s > -%s { %s = 0 }", x, k, x, k, x))
				}
			case "int", "int64", "uint", "uint32":
				for _, k := range []string{"2", "8", "32", "300"} {
					emit(at, "int", fmt.Sprintf("; if %s > %s { %s = %s }", x, k, x, k))
				}
			case "cp.Vector":
				for _, k := range []string{"1", "10", "100", "1000"} {
					emit(at, "vcap", fmt.Sprintf("; if %s.LengthSq() > %s*%s { %s = %s.Normalize().Mult(%s) }", x, k, k, x, x, k))
				}
				for _, k := range []string{"1e-2", "1e-3", "1e-5"} {
					emit(at, "vzero", fmt.Sprintf("; if %s.LengthSq() < %s*%s { %s = Vector{} }", x, k, k, x))
				}
			}
		}
		block := func(list []ast.Stmt) {
			for _, s := range list {
				a, ok := s.(*ast.AssignStmt)
				if !ok {
					continue
				}
				for _, l := range a.Lhs {
					var t types.Type
					switch e := l.(type) {
					case *ast.Ident:
						if e.Name == "_" {
							continue
						}
						if o := info.Defs[e]; o != nil {
							t = o.Type()
						} else if o := info.Uses[e]; o != nil {
							t = o.Type()
						}
					case *ast.SelectorExpr:
						t = info.Types[e].Type
					default:
						continue
					}
					mutate(off(a.End()), t, string(src[off(l.Pos()):off(l.End())]))
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					if o := info.Defs[n]; o != nil && n.Name != "_" {
						mutate(off(fd.Body.Lbrace)+1, o.Type(), n.Name)
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					block(b.List)
				case *ast.CaseClause:
					block(b.Body)
				}
				return true
			})
		}
	}
}
