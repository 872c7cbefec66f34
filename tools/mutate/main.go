// mutate lists small source changes of a package tree as JSON lines: used to look for changes the checks miss.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

var swap = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.SHL: {">>"},
}

func main() {
	root := os.Args[1]
	n := 0
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	var files []string
	for _, g := range []string{"*.go", "binding/*.go"} {
		m, _ := filepath.Glob(filepath.Join(root, g))
		files = append(files, m...)
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, f)
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b int, repl, kind string) {
			old := string(src[a:b])
			if old == repl {
				return
			}
			n++
			enc.Encode(mutant{n, rel, 1 + bytes.Count(src[:a], []byte("\n")), a, b, old, repl, kind, fn})
		}
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				fn = "(decl)"
			} else {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					if x.Op == token.ADD {
						if lit, ok := x.Y.(*ast.BasicLit); ok && lit.Kind == token.STRING {
							break
						}
					}
					for _, s := range swap[x.Op] {
						emit(off(x.OpPos), off(x.OpPos)+len(x.Op.String()), s, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(off(x.Pos()), off(x.End()), "("+text(x.X)+")", "drop-right")
						emit(off(x.Pos()), off(x.End()), "("+text(x.Y)+")", "drop-left")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(off(x.Pos()), off(x.End()), text(x.X), "not")
					}
				case *ast.IfStmt:
					emit(off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+text(x.Cond)+")", "if-true")
					emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", "if-false")
				case *ast.BlockStmt:
					for _, st := range x.List {
						del(emit, off, st, text)
					}
				case *ast.CaseClause:
					for _, st := range x.Body {
						del(emit, off, st, text)
					}
					if len(x.List) > 1 {
						for i, e := range x.List {
							if i == 0 {
								emit(off(e.Pos()), off(x.List[1].Pos()), "", "case-item")
							} else {
								emit(off(x.List[i-1].End()), off(e.End()), "", "case-item")
							}
						}
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(off(x.Pos()), off(x.End()), fmt.Sprint(v+1), "int")
							if v > 0 {
								emit(off(x.Pos()), off(x.End()), fmt.Sprint(v-1), "int")
							}
						}
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil && !strings.Contains(x.Value, ":\"") {
							if s == "" {
								emit(off(x.Pos()), off(x.End()), `"x"`, "str")
							} else {
								emit(off(x.Pos()), off(x.End()), strconv.Quote(s[:len(s)-1]), "str")
							}
						}
					case token.CHAR:
						emit(off(x.Pos()), off(x.End()), `'~'`, "char")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(off(x.Pos()), off(x.End()), "false", "bool")
					}
					if x.Name == "false" {
						emit(off(x.Pos()), off(x.End()), "true", "bool")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(off(r.Pos()), off(r.End()), "nil", "err-nil")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(off(x.Low.Pos()), off(x.Low.End()), "("+text(x.Low)+")+1", "low")
						emit(off(x.Low.Pos()), off(x.Low.End()), "("+text(x.Low)+")-1", "low")
					}
					if x.High != nil {
						emit(off(x.High.Pos()), off(x.High.End()), "("+text(x.High)+")-1", "high")
						emit(off(x.High.Pos()), off(x.High.End()), "("+text(x.High)+")+1", "high")
					}
				case *ast.IndexExpr:
					if _, ok := x.Index.(*ast.BasicLit); !ok {
						emit(off(x.Index.Pos()), off(x.Index.End()), "("+text(x.Index)+")-1", "idx")
					}
				case *ast.CallExpr:
					if len(x.Args) >= 2 && x.Ellipsis == 0 {
						for i := 0; i+1 < len(x.Args); i++ {
							emit(off(x.Args[i].Pos()), off(x.Args[i+1].End()), text(x.Args[i+1])+", "+text(x.Args[i]), "swap-args")
						}
					}
				}
				return true
			})
		}
	}
	_ = printer.Fprint
}

func del(emit func(int, int, string, string), off func(token.Pos) int, st ast.Stmt, text func(ast.Node) string) {
	a, b := off(st.Pos()), off(st.End())
	switch s := st.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
		emit(a, b, "", "del")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(a, b, "", "del")
		} else if len(s.Lhs) == len(s.Rhs) {
			for i := range s.Lhs {
				_ = i
			}
		}
	case *ast.BranchStmt:
		switch s.Tok {
		case token.CONTINUE:
			emit(a, b, "break", "branch")
			emit(a, b, "", "del")
		case token.BREAK:
			emit(a, b, "", "del")
			emit(a, b, "continue", "branch")
		}
	case *ast.ReturnStmt:
		emit(a, b, "", "del")
	case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		emit(a, b, "", "del")
	}
}
