// mutate lists small changes to the library's source, one per line as JSON.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type Mut struct {
	File, Op, Func string
	Line           int
	Off, End       int
	New            string
	Old, Now       string
}

func main() {
	dir := os.Args[1]
	files, _ := filepath.Glob(dir + "/*.go")
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(op string, a, b int, new string) {
			if string(src[a:b]) == new {
				return
			}
			ls := bytes.LastIndexByte(src[:a], '\n') + 1
			le := b + bytes.IndexByte(src[b:], '\n')
			m := Mut{File: filepath.Base(f), Op: op, Func: fn, Line: 1 + bytes.Count(src[:a], []byte("\n")), Off: a, End: b, New: new}
			m.Old = strings.TrimSpace(string(src[ls:le]))
			m.Now = strings.TrimSpace(string(src[ls:a]) + new + string(src[b:le]))
			enc.Encode(m)
		}
		swap := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<", ">"}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"},
		}
		names := map[string]string{
			"a": "b", "b": "a", "body_a": "body_b", "body_b": "body_a", "r1": "r2", "r2": "r1", "n1": "n2", "n2": "n1",
			"X": "Y", "Y": "X", "L": "R", "R": "L", "T": "B", "B": "T", "AnchorA": "AnchorB", "AnchorB": "AnchorA",
			"v1": "v2", "v2": "v1", "e1": "e2", "e2": "e1", "min": "max", "max": "min", "Min": "Max", "Max": "Min",
			"m_inv": "i_inv", "i_inv": "m_inv", "true": "false", "false": "true", "Add": "Sub", "Sub": "Add", "Dot": "Cross", "Cross": "Dot",
			"ta": "tb", "tb": "ta", "v": "v_bias", "v_bias": "v", "w": "w_bias", "w_bias": "w", "prev": "next", "next": "prev",
			"Perp": "ReversePerp", "ReversePerp": "Perp", "Point": "Vect", "Vect": "Point", "jnAcc": "jtAcc", "jtAcc": "jnAcc", "start": "end", "end": "start",
			"staticShapes": "dynamicShapes", "dynamicShapes": "staticShapes", "GrooveA": "GrooveB", "GrooveB": "GrooveA",
			"thread_a": "thread_b", "threadA": "threadB", "threadB": "threadA", "handlerA": "handlerB", "handlerB": "handlerA", "p0": "p1", "p1": "p2", "v0": "v1",
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			if fn == "String" || fn == "DebugInfo" || strings.HasPrefix(fn, "assert") {
				continue
			}
			var inAssert func(n ast.Node) bool
			inAssert = func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return false
				}
				id, ok := c.Fun.(*ast.Ident)
				return ok && (strings.HasPrefix(id.Name, "assert") || id.Name == "panic" || id.Name == "log")
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if n == nil {
					return false
				}
				if inAssert(n) {
					return false
				}
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						emit("op", off(x.OpPos), off(x.OpPos)+len(x.Op.String()), s)
					}
					if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL {
						emit("drop-right", off(x.X.End()), off(x.End()), "")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("drop-right", off(x.X.End()), off(x.End()), "")
						emit("drop-left", off(x.Pos()), off(x.Y.Pos()), "")
					}
				case *ast.UnaryExpr:
					if x.Op == token.SUB || x.Op == token.NOT {
						emit("drop-unary", off(x.OpPos), off(x.OpPos)+1, "")
					}
				case *ast.AssignStmt:
					t := x.Tok.String()
					if r := map[string]string{"+=": "-=", "-=": "+=", "*=": "/=", "/=": "*="}[t]; r != "" {
						emit("assign", off(x.TokPos), off(x.TokPos)+2, r)
						emit("assign", off(x.TokPos), off(x.TokPos)+2, "=")
					}
					if x.Tok != token.DEFINE {
						emit("drop-stmt", off(x.Pos()), off(x.End()), "")
					}
				case *ast.IncDecStmt:
					emit("drop-stmt", off(x.Pos()), off(x.End()), "")
				case *ast.ExprStmt:
					emit("drop-stmt", off(x.Pos()), off(x.End()), "")
				case *ast.IfStmt:
					c := x.Cond
					emit("if-true", off(c.Pos()), off(c.End()), "("+string(src[off(c.Pos()):off(c.End())])+" || true)")
					emit("if-false", off(c.Pos()), off(c.End()), "("+string(src[off(c.Pos()):off(c.End())])+" && false)")
				case *ast.BranchStmt:
					emit("drop-stmt", off(x.Pos()), off(x.End()), "")
				case *ast.BasicLit:
					if x.Kind == token.INT && x.Value == "0" {
						emit("const", off(x.Pos()), off(x.End()), "1")
					} else if x.Kind == token.INT && x.Value == "1" {
						emit("const", off(x.Pos()), off(x.End()), "2")
					} else if x.Kind == token.FLOAT || x.Kind == token.INT {
						emit("const", off(x.Pos()), off(x.End()), x.Value+"*2")
					}
				case *ast.Ident:
					if r := names[x.Name]; r != "" {
						emit("name", off(x.Pos()), off(x.End()), r)
					}
				}
				return true
			})
		}
		_ = fmt.Sprint
	}
}
