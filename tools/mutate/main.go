// mutate FILE OUTDIR writes OUTDIR/<n>.go for every small change of FILE, and
// OUTDIR/list: n, line, what.  A tool for trying the checks, used by mutate.py.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
)

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.GTR: {token.GEQ, token.LSS},
	token.LEQ: {token.LSS}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
}

func main() {
	src, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	list, _ := os.Create(filepath.Join(out, "list"))
	for n, total := 0, -1; total < 0 || n < total; n++ {
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, src, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		m := &mut{fs: fs, want: n}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				m.fn = fd
				m.block(fd.Body)
			}
		}
		total = m.n
		if m.what == "" {
			continue
		}
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fs, f); err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(out, fmt.Sprintf("%d.go", n)), b.Bytes(), 0o644)
		fmt.Fprintf(list, "%d\t%d\t%s\t%s\n", n, m.line, m.fn2, m.what)
	}
}

type mut struct {
	fs      *token.FileSet
	want, n int
	what    string
	line    int
	fn      *ast.FuncDecl
	fn2     string
}

func (m *mut) hit(pos token.Pos, what string) bool {
	m.n++
	if m.n-1 == m.want {
		m.what, m.line, m.fn2 = what, m.fs.Position(pos).Line, m.fn.Name.Name
		return true
	}
	return false
}
func (m *mut) src(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, m.fs, n)
	s := bytes.ReplaceAll(b.Bytes(), []byte("\n"), []byte(" "))
	if len(s) > 90 {
		s = s[:90]
	}
	return string(s)
}
func blank(x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{x}}
}
func logs(x ast.Expr) bool {
	c, ok := x.(*ast.CallExpr)
	if !ok {
		return false
	}
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		if s.Sel.Name == "Info" || s.Sel.Name == "V" || s.Sel.Name == "Error" {
			return true
		}
	}
	return false
}
func (m *mut) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	m.stmts(b.List)
}
func (m *mut) stmts(l []ast.Stmt) {
	for i := range l {
		m.stmt(&l[i])
	}
}
func (m *mut) stmt(p *ast.Stmt) {
	switch s := (*p).(type) {
	case *ast.ExprStmt:
		if logs(s.X) {
			return
		}
		if m.hit(s.Pos(), "delete: "+m.src(s)) {
			*p = &ast.EmptyStmt{Implicit: true}
			return
		}
		m.expr(&s.X)
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			if m.hit(s.Pos(), "delete: "+m.src(s)) {
				if len(s.Lhs) == len(s.Rhs) {
					l := []ast.Expr{}
					for range s.Lhs {
						l = append(l, ast.NewIdent("_"))
					}
					s.Lhs, s.Tok = l, token.ASSIGN
				} else {
					*p = &ast.EmptyStmt{Implicit: true}
				}
				return
			}
		}
		for i := range s.Rhs {
			m.expr(&s.Rhs[i])
		}
	case *ast.IncDecStmt:
		if m.hit(s.Pos(), "delete: "+m.src(s)) {
			*p = &ast.EmptyStmt{Implicit: true}
		}
	case *ast.IfStmt:
		if m.hit(s.Pos(), "if true: "+m.src(s.Cond)) {
			s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
			return
		}
		if m.hit(s.Pos(), "if false: "+m.src(s.Cond)) {
			s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			return
		}
		if s.Init != nil {
			m.stmt(&s.Init)
		}
		m.expr(&s.Cond)
		m.block(s.Body)
		if s.Else != nil {
			m.stmt(&s.Else)
		}
	case *ast.ForStmt:
		if s.Cond != nil {
			m.expr(&s.Cond)
		}
		m.block(s.Body)
	case *ast.RangeStmt:
		if m.hit(s.Pos(), "once: for range "+m.src(s.X)) {
			s.Body.List = append(s.Body.List, &ast.BranchStmt{Tok: token.BREAK})
			return
		}
		if m.hit(s.Pos(), "never: for range "+m.src(s.X)) {
			s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: ast.NewIdent("true"), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
			return
		}
		m.block(s.Body)
	case *ast.ReturnStmt:
		if k := len(s.Results); k > 0 {
			if id, ok := s.Results[k-1].(*ast.Ident); !ok || id.Name != "nil" {
				if rt := m.fn.Type.Results; rt != nil {
					last := rt.List[len(rt.List)-1].Type
					if t, ok := last.(*ast.Ident); ok && t.Name == "error" {
						if m.hit(s.Pos(), "no error: "+m.src(s)) {
							s.Results[k-1] = ast.NewIdent("nil")
							if ok && id != nil {
								*p = &ast.BlockStmt{List: []ast.Stmt{blank(id), s}}
							}
							return
						}
					}
				}
			}
		}
		for i := range s.Results {
			m.expr(&s.Results[i])
		}
	case *ast.BranchStmt:
		if s.Tok == token.CONTINUE || s.Tok == token.BREAK {
			if m.hit(s.Pos(), "swap "+s.Tok.String()) {
				if s.Tok == token.CONTINUE {
					s.Tok = token.BREAK
				} else {
					s.Tok = token.CONTINUE
				}
			}
		}
	case *ast.BlockStmt:
		m.block(s)
	case *ast.SwitchStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			m.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			m.stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.DeferStmt:
		if m.hit(s.Pos(), "delete: "+m.src(s)) {
			*p = &ast.EmptyStmt{Implicit: true}
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, x := range g.Specs {
				if v, ok := x.(*ast.ValueSpec); ok {
					for i := range v.Values {
						m.expr(&v.Values[i])
					}
				}
			}
		}
	}
}
func (m *mut) expr(p *ast.Expr) {
	switch x := (*p).(type) {
	case *ast.BinaryExpr:
		for _, t := range swaps[x.Op] {
			if x.Op == token.ADD {
				if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
					continue
				}
			}
			if m.hit(x.OpPos, x.Op.String()+" becomes "+t.String()+": "+m.src(x)) {
				x.Op = t
				return
			}
		}
		m.expr(&x.X)
		m.expr(&x.Y)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			if m.hit(x.Pos(), "no !: "+m.src(x)) {
				*p = x.X
				return
			}
		}
		m.expr(&x.X)
	case *ast.ParenExpr:
		m.expr(&x.X)
	case *ast.CallExpr:
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "errors") {
				return
			}
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
			if m.hit(x.Pos(), "no append: "+m.src(x)) {
				*p = x.Args[0]
				return
			}
		}
		for i := range x.Args {
			m.expr(&x.Args[i])
		}
	case *ast.BasicLit:
		if x.Kind == token.INT {
			if m.hit(x.Pos(), "plus one: "+x.Value) {
				*p = &ast.BinaryExpr{X: x, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
			}
		}
		if x.Kind == token.STRING {
			if m.hit(x.Pos(), "other string: "+x.Value) {
				x.Value = x.Value[:len(x.Value)-1] + "x" + x.Value[len(x.Value)-1:]
			}
		}
	case *ast.Ident:
		if x.Name == "true" || x.Name == "false" {
			if m.hit(x.Pos(), "not "+x.Name) {
				*p = ast.NewIdent(map[string]string{"true": "false", "false": "true"}[x.Name])
			}
		}
	case *ast.IndexExpr:
		m.expr(&x.Index)
	case *ast.SliceExpr:
		if x.Low != nil {
			m.expr(&x.Low)
		}
		if x.High != nil {
			m.expr(&x.High)
		}
	case *ast.CompositeLit:
		for i := range x.Elts {
			if kv, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
				m.expr(&kv.Value)
			} else {
				m.expr(&x.Elts[i])
			}
		}
	case *ast.FuncLit:
		m.block(x.Body)
	case *ast.SelectorExpr:
		m.expr(&x.X)
	}
}
