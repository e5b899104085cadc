// Command instr rewrites Go packages so that their goroutines, channels, selects and
// locks are run by the controlled scheduler (package mcrt).
//
//	instr CONFIG REPO OUT OVERLAY
//
// CONFIG names the packages; the rewritten files go to OUT and are added to the
// overlay file OVERLAY.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const base = "github.com/john-nguyen09/phpintel/internal/zzverif/"

type config struct {
	// Packages lists package directories below the repository.
	Packages []string `json:"packages"`
	// Imports replaces import paths (default: sync -> mcsync).
	Imports map[string]string `json:"imports"`
	// Point lists, per package, methods or functions ("T.m", "f", "T.*") at whose entry a scheduling point is put.
	Point map[string][]string `json:"point"`
	// Exclusive lists, per package, methods that mutate their receiver: two overlapping calls are reported.
	Exclusive map[string][]string `json:"exclusive"`
	// Calls replaces qualified calls ("storage.NewGoLevelDB" -> "mcstore.New").
	Calls map[string]string `json:"calls"`
	// NoSched leaves goroutines, channels and locks alone (only Imports, Point, Calls).
	NoSched bool `json:"nosched"`
}

var fset = token.NewFileSet()

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

type fakeImporter struct{}

func (fakeImporter) Import(p string) (*types.Package, error) {
	pkg := types.NewPackage(p, filepath.Base(p))
	pkg.MarkComplete()
	return pkg, nil
}

func main() {
	cfgFile, repo, out, overlay := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	b, err := os.ReadFile(cfgFile)
	if err != nil {
		die("%v", err)
	}
	var cfg config
	if err := json.Unmarshal(b, &cfg); err != nil {
		die("%v", err)
	}
	if cfg.Imports == nil {
		cfg.Imports = map[string]string{}
	}
	if !cfg.NoSched {
		if _, ok := cfg.Imports["sync"]; !ok {
			cfg.Imports["sync"] = base + "mcsync"
		}
		if _, ok := cfg.Imports["sync/atomic"]; !ok {
			cfg.Imports["sync/atomic"] = base + "mcatomic"
		}
	}
	ob, err := os.ReadFile(overlay)
	if err != nil {
		die("%v", err)
	}
	var ov struct{ Replace map[string]string }
	if err := json.Unmarshal(ob, &ov); err != nil {
		die("%v", err)
	}
	for _, pkg := range cfg.Packages {
		dir := filepath.Join(repo, pkg)
		es, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		var files []*ast.File
		var names []string
		for _, e := range es {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src := p
			if r, ok := ov.Replace[p]; ok {
				src = r
			}
			f, err := parser.ParseFile(fset, src, nil, 0)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			names = append(names, p)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		tc := types.Config{Importer: fakeImporter{}, Error: func(error) {}}
		tc.Check(pkg, fset, files, info)
		for i, f := range files {
			r := &rewriter{cfg: &cfg, pkg: pkg, info: info, file: f}
			r.run()
			o := filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"__"+filepath.Base(names[i]))
			w, err := os.Create(o)
			if err != nil {
				die("%v", err)
			}
			if err := format.Node(w, fset, f); err != nil {
				die("%s: %v", names[i], err)
			}
			w.Close()
			ov.Replace[names[i]] = o
		}
	}
	nb, _ := json.Marshal(ov)
	if err := os.WriteFile(overlay, nb, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	cfg   *config
	pkg   string
	info  *types.Info
	file  *ast.File
	used  map[string]bool
	n     int
	chans map[string]bool
}

func (r *rewriter) mc(name string) ast.Expr {
	r.used["mcrt"] = true
	return &ast.SelectorExpr{X: ast.NewIdent("mcrt"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.mc(name), Args: args}
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

func (r *rewriter) run() {
	r.used = map[string]bool{}
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if np, ok := r.cfg.Imports[p]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(guessName(p))
			}
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}
			im.EndPos = 0
		}
	}
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.entry(fd)
		}
	}
	for _, d := range r.file.Decls {
		r.decl(d)
	}
	for n := range r.used {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + n)}}
		r.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, r.file.Decls...)
		r.file.Imports = append(r.file.Imports, spec)
	}
	// an import whose every use was replaced must go
	if len(r.cfg.Calls) > 0 {
		r.prune()
	}
}

func (r *rewriter) prune() {
	usedNames := map[string]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedNames[id.Name] = true
			}
		}
		return true
	})
	for from := range r.cfg.Calls {
		q := strings.SplitN(from, ".", 2)[0]
		if usedNames[q] {
			continue
		}
		for _, d := range r.file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.IMPORT {
				continue
			}
			for _, sp := range gd.Specs {
				im := sp.(*ast.ImportSpec)
				p, _ := strconv.Unquote(im.Path.Value)
				name := guessName(p)
				if im.Name != nil {
					name = im.Name.Name
				}
				if name == q {
					im.Name = ast.NewIdent("_")
				}
			}
		}
	}
}

func guessName(p string) string {
	n := filepath.Base(p)
	switch n {
	case "concurrent-map":
		return "cmap"
	}
	return n
}

func matches(list []string, fd *ast.FuncDecl) bool {
	name := fd.Name.Name
	recv := ""
	if fd.Recv != nil && len(fd.Recv.List) == 1 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			recv = id.Name
		}
	}
	for _, l := range list {
		if recv == "" && l == name {
			return true
		}
		if recv != "" && (l == recv+"."+name || l == recv+".*" || l == "*."+name) {
			return true
		}
	}
	return false
}

func (r *rewriter) entry(fd *ast.FuncDecl) {
	if matches(r.cfg.Point[r.pkg], fd) {
		fd.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Point", str(r.pkg+"."+fd.Name.Name))}}, fd.Body.List...)
	}
	if matches(r.cfg.Exclusive[r.pkg], fd) && fd.Recv != nil && len(fd.Recv.List) == 1 && len(fd.Recv.List[0].Names) == 1 {
		recv := fd.Recv.List[0].Names[0].Name
		fd.Body.List = append([]ast.Stmt{
			&ast.ExprStmt{X: r.call("Enter", ast.NewIdent(recv), str(fd.Name.Name))},
			&ast.DeferStmt{Call: r.call("Leave", ast.NewIdent(recv))},
		}, fd.Body.List...)
	}
}

func (r *rewriter) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			r.block(d.Body)
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			if vs, ok := s.(*ast.ValueSpec); ok {
				for i := range vs.Values {
					vs.Values[i] = r.expr(vs.Values[i])
				}
			}
		}
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) fresh(p string) string {
	r.n++
	return fmt.Sprintf("mc_%s%d", p, r.n)
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func define(name string, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	sched := !r.cfg.NoSched
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		s.Chan, s.Value = r.expr(s.Chan), r.expr(s.Value)
		if sched {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", s.Chan), Args: []ast.Expr{s.Value}}}
		}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 && sched {
			if u, ok := isRecv(s.Rhs[0]); ok {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.GoStmt:
		s.Call.Fun = r.expr(s.Call.Fun)
		r.exprs(s.Call.Args)
		if !sched {
			return s
		}
		if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
			return &ast.ExprStmt{X: r.call("Go", fl)}
		}
		var pre []ast.Stmt
		f := r.fresh("f")
		pre = append(pre, define(f, s.Call.Fun))
		var args []ast.Expr
		for _, a := range s.Call.Args {
			if _, ok := a.(*ast.BasicLit); ok {
				args = append(args, a)
				continue
			}
			n := r.fresh("a")
			pre = append(pre, define(n, a))
			args = append(args, ast.NewIdent(n))
		}
		body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(f), Args: args, Ellipsis: s.Call.Ellipsis}},
		}}}
		pre = append(pre, &ast.ExprStmt{X: r.call("Go", body)})
		return &ast.BlockStmt{List: pre}
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Tag = r.expr(s.Tag)
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		ch := r.isChan(s.X)
		s.X = r.expr(s.X)
		r.block(s.Body)
		if ch && sched {
			c := r.fresh("c")
			v, ok := r.fresh("v"), r.fresh("ok")
			lv := v
			if s.Key == nil {
				lv = "_"
			}
			list := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(lv), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ast.NewIdent(c))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			if s.Key != nil {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v)}})
			}
			list = append(list, s.Body)
			// the channel expression is evaluated once, in the for statement's init
			return &ast.ForStmt{Init: define(c, s.X), Body: &ast.BlockStmt{List: list}}
		}
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.SelectStmt:
		if !sched {
			r.block(s.Body)
			return s
		}
		return r.selectStmt(s)
	case *ast.CommClause:
		s.Comm = r.stmt(s.Comm)
		s.Body = r.stmts(s.Body)
	case *ast.DeclStmt:
		r.decl(s.Decl)
	}
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	res := r.fresh("s")
	hasDefault := "false"
	idx := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDefault = "true"
			clauses = append(clauses, &ast.CaseClause{Body: body})
			continue
		}
		var head []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, &ast.CallExpr{Fun: r.call("SendCase", r.expr(c.Chan)), Args: []ast.Expr{r.expr(c.Value)}})
		case *ast.ExprStmt:
			u, _ := isRecv(c.X)
			cases = append(cases, r.call("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u, _ := isRecv(c.Rhs[0])
			n := r.fresh("c")
			pre = append(pre, define(n, r.expr(u.X)))
			cases = append(cases, r.call("RecvCase", ast.NewIdent(n)))
			f := "Got"
			if len(c.Lhs) == 2 {
				f = "Got2"
			}
			r.exprs(c.Lhs)
			head = []ast.Stmt{&ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{r.call(f, ast.NewIdent(n), ast.NewIdent(res))}}}
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}, Body: append(head, body...)})
		idx++
	}
	if hasDefault == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{str("no case")}}}}})
	}
	sw := &ast.SwitchStmt{
		Init: define(res, r.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)),
		Tag:  &ast.SelectorExpr{X: ast.NewIdent(res), Sel: ast.NewIdent("Index")},
		Body: &ast.BlockStmt{List: clauses},
	}
	if len(pre) == 0 {
		return sw
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	sched := !r.cfg.NoSched
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		e.X = r.expr(e.X)
		if e.Op == token.ARROW && sched {
			return r.call("Recv", e.X)
		}
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CallExpr:
		if sel, ok := e.Fun.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok {
				if to, ok := r.cfg.Calls[id.Name+"."+sel.Sel.Name]; ok {
					q := strings.SplitN(to, ".", 2)
					r.used[q[0]] = true
					e.Fun = &ast.SelectorExpr{X: ast.NewIdent(q[0]), Sel: ast.NewIdent(q[1])}
					r.exprs(e.Args)
					return e
				}
			}
		}
		if id, ok := e.Fun.(*ast.Ident); ok && sched {
			if id.Name == "close" && len(e.Args) == 1 {
				e.Args[0] = r.expr(e.Args[0])
				return r.call("Close", e.Args[0])
			}
			if id.Name == "make" && len(e.Args) > 0 {
				if ct, ok := e.Args[0].(*ast.ChanType); ok {
					var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
					if len(e.Args) > 1 {
						n = r.expr(e.Args[1])
					}
					return &ast.CallExpr{Fun: &ast.IndexExpr{X: r.mc("MakeChan"), Index: ct.Value}, Args: []ast.Expr{n}}
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	}
	return e
}
