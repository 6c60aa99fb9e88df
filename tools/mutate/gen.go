// gen FILE...: single-place changes of Go source files, as JSON lines
// {"file","off","end","new","line","op","src"}. Used by mutate.py to find
// realistic changes that the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	Src  string `json:"src"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		b, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, b, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		cur := ""
		emit := func(from, to token.Pos, repl, op string) {
			s := string(b[off(from):off(to)])
			if len(s) > 160 {
				s = s[:160] + "..."
			}
			enc.Encode(mut{fn, off(from), off(to), repl, fs.Position(from).Line, op, strings.Join(strings.Fields(s), " "), cur})
		}
		text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			switch cur {
			case "Info", "Name", "GoString", "String", "Describe", "Doc":
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.BlockStmt:
					for i, s := range t.List {
						stmts(s, emit, text)
						if i+1 < len(t.List) {
							// swap with the next one
							a, c := t.List[i], t.List[i+1]
							if simple(a) && simple(c) {
								emit(a.Pos(), c.End(), text(c)+"\n"+text(a), "swap")
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range t.Body {
						stmts(s, emit, text)
					}
					emit(t.Pos(), t.End(), "", "del case")
				case *ast.CommClause:
					for _, s := range t.Body {
						stmts(s, emit, text)
					}
					emit(t.Pos(), t.End(), "", "del comm")
				case *ast.IfStmt:
					emit(t.Cond.Pos(), t.Cond.End(), "!("+text(t.Cond)+")", "negate")
					emit(t.Cond.Pos(), t.Cond.End(), "false && ("+text(t.Cond)+")", "if false")
					emit(t.Cond.Pos(), t.Cond.End(), "true || ("+text(t.Cond)+")", "if true")
				case *ast.BinaryExpr:
					r := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"},
						token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}[t.Op]
					for _, x := range r {
						emit(t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), x, "op")
					}
				case *ast.BasicLit:
					if t.Kind == token.INT {
						emit(t.Pos(), t.End(), "("+t.Value+"+1)", "int+1")
						if t.Value != "0" {
							emit(t.Pos(), t.End(), "("+t.Value+"-1)", "int-1")
						}
					}
				case *ast.CallExpr:
					if s, ok := t.Fun.(*ast.SelectorExpr); ok {
						if s.Sel.Name == "Copy" && len(t.Args) == 0 {
							emit(t.Pos(), t.End(), text(s.X), "no copy")
						}
						if s.Sel.Name == "WithCancel" {
							emit(t.Args[0].Pos(), t.Args[0].End(), "context.Background()", "background")
						}
					}
					if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "make" && len(t.Args) == 1 {
						if _, ok := t.Args[0].(*ast.ChanType); ok {
							emit(t.Rparen, t.Rparen, ", 10", "buffer")
						}
					}
					for _, a := range t.Args {
						if id, ok := a.(*ast.Ident); ok {
							switch id.Name {
							case "ctx", "sub_ctx", "child_ctx":
								emit(id.Pos(), id.End(), "context.Background()", "background")
							case "new_scope", "subscope", "sub_scope", "child_scope":
								emit(id.Pos(), id.End(), "scope", "outer scope")
							}
						}
					}
				}
				return true
			})
			locks(fd, emit, text)
		}
	}
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.DeferStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
		return true
	}
	return false
}

func stmts(s ast.Stmt, emit func(a, b token.Pos, r, op string), text func(ast.Node) string) {
	switch t := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
		emit(s.Pos(), s.End(), "", "del")
	case *ast.DeferStmt:
		emit(s.Pos(), s.End(), "", "del defer")
		if !strings.Contains(text(s), "Unlock") {
			emit(s.Pos(), s.End(), text(t.Call), "defer now")
		}
	case *ast.GoStmt:
		emit(s.Pos(), s.End(), text(t.Call), "no go")
	case *ast.AssignStmt:
		if t.Tok == token.ASSIGN {
			emit(s.Pos(), s.End(), "", "del assign")
		} else if t.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "del op assign")
		}
	case *ast.ReturnStmt:
		if len(t.Results) == 0 {
			emit(s.Pos(), s.End(), "", "del return")
		}
	case *ast.BranchStmt:
		emit(s.Pos(), s.End(), "", "del branch")
		switch t.Tok {
		case token.BREAK:
			emit(s.Pos(), s.End(), "continue", "break->continue")
		case token.CONTINUE:
			emit(s.Pos(), s.End(), "break", "continue->break")
		}
	case *ast.IfStmt:
		if t.Else == nil && t.Init == nil {
			emit(s.Pos(), s.End(), "", "del if")
		}
	case *ast.RangeStmt, *ast.ForStmt:
		emit(s.Pos(), s.End(), "", "del loop")
	}
}

// locks: a method without its locks.
func locks(fd *ast.FuncDecl, emit func(a, b token.Pos, r, op string), text func(ast.Node) string) {
	var first, last ast.Node
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(s.Sel.Name, "ock") {
				if first == nil {
					first = c
				}
				last = c
			}
		}
		return true
	})
	if first == nil {
		return
	}
	body := text(fd.Body)
	for _, w := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		out := ""
		_ = out
		_ = w
	}
	r := []string{}
	for _, l := range strings.Split(body, "\n") {
		x := strings.TrimSpace(l)
		if strings.HasSuffix(x, "ock()") && !strings.Contains(x, "=") {
			continue
		}
		r = append(r, l)
	}
	emit(fd.Body.Pos(), fd.Body.End(), strings.Join(r, "\n"), fmt.Sprintf("no locks"))
	_ = last
}
