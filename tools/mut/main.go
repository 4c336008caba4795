// mut lists small changes of Go files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	Off, End int
	New      string `json:"new"`
	Func     string `json:"func"`
	Line     int    `json:"line"`
	Kind     string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		fset := token.NewFileSet()
		src, _ := os.ReadFile(file)
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				switch x := t.(type) {
				case *ast.IndexListExpr:
					t = x.X
				case *ast.IndexExpr:
					t = x.X
				}
				name = t.(*ast.Ident).Name + "." + name
			}
			emit := func(a, b token.Pos, s, kind string) {
				enc.Encode(mut{file, off(a), off(b), s, name, fset.Position(a).Line, kind})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
						token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.SHL: {">>"}}[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "lit")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "lit")
							}
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap")
					}
				case *ast.SliceExpr:
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice")
					}
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "", "del")
						case *ast.DeferStmt:
							emit(s.Pos(), s.End(), "", "del")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "del")
							}
						case *ast.ReturnStmt:
							if len(y.Results) == 0 {
								emit(s.Pos(), s.End(), "", "del")
							}
						}
					}
				}
				return true
			})
		}
	}
}
