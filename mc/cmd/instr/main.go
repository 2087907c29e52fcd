// Command instr rewrites the packages under test for the controlled runtime and writes the
// results, with an overlay file for the go command, to a scratch directory. It changes how
// concurrency primitives are reached, nothing else:
//
//	go f(x)            -> rt.Go(...)            sync, sync/atomic, time, net -> shim packages
//	channel operations -> rt.Send/Recv/Select   range over a map -> sorted keys
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path      string
		GoVersion string
	}
}

var (
	fset    = token.NewFileSet()
	list    = map[string]*listPkg{}
	checked = map[string]*types.Package{}
)

var shims = map[string]string{
	"sync":        "verifmc/rt/vsync",
	"sync/atomic": "verifmc/vatomic",
	"time":        "verifmc/rt/vtime",
	"net":         "verifmc/rt/vnet",
	"context":     "verifmc/rt/vctx",
}

func main() {
	mc := flag.String("mc", "", "")
	modfile := flag.String("modfile", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Standard,ImportMap,Module",
		"gitee.com/coco/go808", "gitee.com/coco/go808/protocol", "github.com/funny/link", "github.com/sirupsen/logrus")
	cmd.Dir = *mc
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal(err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			fatal(err)
		}
		list[p.ImportPath] = p
	}
	overlay := map[string]string{}
	for path, p := range list {
		under := strings.HasPrefix(path, "gitee.com/coco/go808") || path == "github.com/funny/link"
		if !under {
			continue
		}
		if err := rewrite(p, *out, overlay); err != nil {
			fatal(fmt.Errorf("%s: %v", path, err))
		}
	}
	if err := logrus(*out, overlay); err != nil {
		fatal(err)
	}
	if err := pool(*out, overlay); err != nil {
		fatal(err)
	}
	if err := relocate(*out, *modfile, overlay); err != nil {
		fatal(err)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

// ---- type checking from source, declarations only for dependencies ----

type imp struct{ m map[string]string }

func (i imp) Import(path string) (*types.Package, error) {
	if r, ok := i.m[path]; ok {
		path = r
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := checked[path]; ok {
		return p, nil
	}
	lp := list[path]
	if lp == nil {
		return nil, fmt.Errorf("package %s not listed", path)
	}
	files, err := parseFiles(lp)
	if err != nil {
		return nil, err
	}
	p, _ := check(lp, files, nil, true)
	checked[path] = p
	return p, nil
}

func parseFiles(lp *listPkg) ([]*ast.File, error) {
	var files []*ast.File
	for _, n := range lp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(lp.Dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	return files, nil
}

func check(lp *listPkg, files []*ast.File, info *types.Info, ignoreBodies bool) (*types.Package, error) {
	var first error
	conf := types.Config{
		Importer:         imp{lp.ImportMap},
		IgnoreFuncBodies: ignoreBodies,
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if first == nil {
				first = err
			}
		},
	}
	p, _ := conf.Check(lp.ImportPath, fset, files, info)
	return p, first
}

// ---- rewriting ----

type rw struct {
	info    *types.Info
	n       int
	changed bool
	used    bool
}

func rewrite(lp *listPkg, out string, overlay map[string]string) error {
	files, err := parseFiles(lp)
	if err != nil {
		return err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	if _, err := check(lp, files, info, false); err != nil {
		return err
	}
	gover := "1.21"
	if lp.Module != nil && lp.Module.GoVersion != "" {
		if v := minor(lp.Module.GoVersion); v > 21 {
			gover = "1." + strconv.Itoa(v)
		}
	}
	var vars []string
	for i, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							vars = append(vars, n.Name)
						}
					}
				}
			}
		}
		r := &rw{info: info}
		r.file(f)
		if !r.changed {
			continue
		}
		f.Comments = nil
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.File:
				n.Doc = nil
			case *ast.GenDecl:
				n.Doc = nil
			case *ast.FuncDecl:
				n.Doc = nil
			case *ast.Field:
				n.Doc, n.Comment = nil, nil
			case *ast.ValueSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.TypeSpec:
				n.Doc, n.Comment = nil, nil
			case *ast.ImportSpec:
				n.Doc, n.Comment = nil, nil
			}
			return true
		})
		if r.used {
			addImport(f, "verifrt", "verifmc/rt")
		}
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "//go:build go%s\n\n", gover)
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			return err
		}
		name := filepath.Join(lp.Dir, lp.GoFiles[i])
		dst := filepath.Join(out, strings.ReplaceAll(lp.ImportPath, "/", "_")+"_"+lp.GoFiles[i])
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			return err
		}
		overlay[name] = dst
	}
	// package-level state can be put back between executions
	var b bytes.Buffer
	imports := ""
	if len(vars) > 0 {
		imports = "import verifrt \"verifmc/rt\"\n\n"
	}
	fmt.Fprintf(&b, "//go:build go%s\n\npackage %s\n\n%svar verifSaved []func()\n\n", gover, lp.Name, imports)
	fmt.Fprintf(&b, "// VerifReset restores the package-level variables to what they were at the first call.\nfunc VerifReset() {\n\tif verifSaved == nil {\n\t\tverifSaved = []func(){func() {}}\n")
	for _, v := range vars {
		fmt.Fprintf(&b, "\t\tverifSaved = append(verifSaved, verifrt.Snapshot(&%s))\n", v)
		fmt.Fprintf(&b, "\t\tverifrt.Vars[%q] = &%s\n", lp.ImportPath+"."+v, v)
	}
	fmt.Fprintf(&b, "\t\treturn\n\t}\n\tfor _, f := range verifSaved {\n\t\tf()\n\t}\n}\n")
	dst := filepath.Join(out, strings.ReplaceAll(lp.ImportPath, "/", "_")+"_zz_verif_reset.go")
	if err := os.WriteFile(dst, b.Bytes(), 0644); err != nil {
		return err
	}
	overlay[filepath.Join(lp.Dir, "zz_verif_reset.go")] = dst
	return nil
}

func minor(v string) int {
	f := strings.Split(v, ".")
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n
}

func addImport(f *ast.File, name, path string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	g := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{g}, f.Decls...)
}

func (r *rw) file(f *ast.File) {
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if to, ok := shims[p]; ok {
			if s.Name == nil {
				s.Name = ast.NewIdent(p[strings.LastIndexByte(p, '/')+1:])
			}
			if s.Name.Name == "_" {
				continue
			}
			s.Path.Value = strconv.Quote(to)
			s.EndPos = token.NoPos
			r.changed = true
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
}

func (r *rw) call(fn string, args ...ast.Expr) *ast.CallExpr {
	r.changed, r.used = true, true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent(fn)}, Args: args}
}

func (r *rw) tmp(prefix string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("verif%s%d", prefix, r.n))
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type().Underlying()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type().Underlying()
		}
	}
	return nil
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rw) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, r.stmt(s))
	}
	return out
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recv2 recognizes v, ok = <-ch on the right-hand side.
func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isRecv(s.Rhs[0]); ok {
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := isRecv(v.Values[0]); ok {
							v.Values[0] = r.call("Recv2", r.expr(u.X))
							continue
						}
					}
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: r.call("Send", r.expr(s.Chan), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.DeferStmt:
		if r.isBuiltin(s.Call.Fun, "close") {
			s.Call = r.call("Close", r.expr(s.Call.Args[0]))
			return s
		}
		r.callParts(s.Call)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Tag = r.expr(s.Tag)
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = r.expr(s.List[i])
		}
		s.Body = r.stmts(s.Body)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		_, isRange := s.Stmt.(*ast.RangeStmt)
		inner := r.stmt(s.Stmt)
		if b, ok := inner.(*ast.BlockStmt); ok && isRange {
			// keep the label on the loop itself
			s.Stmt = b.List[len(b.List)-1]
			b.List[len(b.List)-1] = s
			return b
		}
		s.Stmt = inner
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	}
	return s
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(goName(call.Fun, fset.Position(s.Pos())))}
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.block(fl.Body)
		return &ast.ExprStmt{X: r.call("Go", name, fl)}
	}
	// evaluate function and arguments now
	var lhs, rhs, args []ast.Expr
	fun := call.Fun
	isB := false
	if id, ok := fun.(*ast.Ident); ok {
		_, isB = r.info.Uses[id].(*types.Builtin)
	}
	if !isB {
		fv := r.tmp("f")
		lhs = append(lhs, fv)
		rhs = append(rhs, r.expr(fun))
		fun = fv
	}
	for _, a := range call.Args {
		av := r.tmp("a")
		if tv, ok := r.info.Types[a]; ok && tv.IsNil() || ok && tv.Value != nil {
			args = append(args, a)
			continue
		}
		lhs = append(lhs, av)
		rhs = append(rhs, r.expr(a))
		args = append(args, av)
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	var body ast.Stmt = &ast.ExprStmt{X: inner}
	if isB && (r.isBuiltin(call.Fun, "close")) {
		body = &ast.ExprStmt{X: r.call("Close", args[0])}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	list := []ast.Stmt{}
	if len(lhs) > 0 {
		list = append(list, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs})
	}
	list = append(list, &ast.ExprStmt{X: r.call("Go", name, lit)})
	return &ast.BlockStmt{List: list}
}

func goName(e ast.Expr, p token.Position) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return e.Sel.Name
	}
	return filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line)
}

func (r *rw) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	switch t.(type) {
	case *types.Map:
		s.X = r.expr(s.X)
		r.block(s.Body)
		m := r.tmp("m")
		key := r.tmp("k")
		var pre []ast.Stmt
		// for key of sorted keys: skip keys deleted meanwhile
		ok := r.tmp("ok")
		val := ast.Expr(ast.NewIdent("_"))
		isBlank := func(e ast.Expr) bool {
			if e == nil {
				return true
			}
			id, k := e.(*ast.Ident)
			return k && id.Name == "_"
		}
		var vtmp *ast.Ident
		if !isBlank(s.Value) {
			vtmp = r.tmp("v")
			val = vtmp
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: key}}})
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !isBlank(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{key}})
		}
		if vtmp != nil {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{vtmp}})
		}
		s.Body.List = append(pre, s.Body.List...)
		// the map expression is evaluated once, through an immediately ranged helper
		x := s.X
		s.X = r.call("Keys", m)
		s.Key, s.Value, s.Tok = ast.NewIdent("_"), key, token.DEFINE
		// for m := range once? keep the loop statement itself so that labels stay valid
		return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}, s}}
	case *types.Chan:
		x := r.expr(s.X)
		r.block(s.Body)
		ch := r.tmp("c")
		ok := r.tmp("ok")
		var pre []ast.Stmt
		if s.Key == nil || isBlankIdent(s.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ch)}})
		} else if s.Tok == token.DEFINE {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ch)}})
		} else {
			v := r.tmp("v")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ch)}},
				&ast.IfStmt{Cond: ok, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}}})
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		s.Body.List = append(pre, s.Body.List...)
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			&ast.ForStmt{Body: s.Body}}}
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	return s
}

func isBlankIdent(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var ops []ast.Expr
	sel := r.tmp("s")
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	for _, cs := range s.Body.List {
		c := cs.(*ast.CommClause)
		cc := &ast.CaseClause{}
		if c.Comm == nil {
			hasDefault = true
			cc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			cc.Body = r.stmts(c.Body)
			// a default clause, so that the switch terminates where the select did
			cc.List = nil
			sw.Body.List = append(sw.Body.List, cc)
			continue
		}
		cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		ch := r.tmp("c")
		var bind []ast.Stmt
		switch comm := c.Comm.(type) {
		case *ast.SendStmt:
			v := r.tmp("x")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(comm.Chan)}})
			val := r.expr(comm.Value)
			_ = v
			ops = append(ops, r.call("SendOp", ch, val))
		case *ast.ExprStmt:
			u, _ := isRecv(comm.X)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(u.X)}})
			ops = append(ops, r.call("RecvOp", ch))
		case *ast.AssignStmt:
			u, _ := isRecv(comm.Rhs[0])
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(u.X)}})
			ops = append(ops, r.call("RecvOp", ch))
			fn := "Val"
			if len(comm.Lhs) == 2 {
				fn = "Val2"
			}
			lhs := make([]ast.Expr, len(comm.Lhs))
			for i := range comm.Lhs {
				lhs[i] = r.expr(comm.Lhs[i])
			}
			bind = append(bind, &ast.AssignStmt{Lhs: lhs, Tok: comm.Tok, Rhs: []ast.Expr{r.call(fn, ch, sel)}})
		}
		cc.Body = append(bind, r.stmts(c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	hd := "false"
	if hasDefault {
		hd = "true"
	}
	args := append([]ast.Expr{ast.NewIdent(hd)}, ops...)
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Select", args...)}})
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func (r *rw) callParts(c *ast.CallExpr) {
	c.Fun = r.expr(c.Fun)
	for i := range c.Args {
		c.Args[i] = r.expr(c.Args[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			if r.isBuiltin(e.Fun, "close") {
				return r.call("Close", r.expr(e.Args[0]))
			}
			if r.isBuiltin(e.Fun, "len") {
				if c, ok := r.typeOf(e.Args[0]).(*types.Chan); ok {
					fn := "Len"
					if c.Dir() == types.SendOnly {
						fn = "LenS"
					}
					return r.call(fn, r.expr(e.Args[0]))
				}
			}
		}
		r.callParts(e)
	}
	return e
}

// ---- dependencies that would order threads behind the detector's back ----

// logrus: no entry pool.
func logrus(out string, overlay map[string]string) error {
	lp := list["github.com/sirupsen/logrus"]
	if lp == nil {
		return nil
	}
	name := filepath.Join(lp.Dir, "logger.go")
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	s := string(b)
	s = strings.Replace(s, "entry, ok := logger.entryPool.Get().(*Entry)\n\tif ok {\n\t\treturn entry\n\t}\n", "", 1)
	s = strings.Replace(s, "logger.entryPool.Put(entry)", "", 1)
	dst := filepath.Join(out, "logrus_logger.go")
	overlay[name] = dst
	return os.WriteFile(dst, []byte(s), 0644)
}

// sync.Pool of the standard library: no reuse (its random reuse would make the detector's
// view of a schedule depend on chance).
func pool(out string, overlay map[string]string) error {
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	name := filepath.Join(strings.TrimSpace(string(goroot)), "src", "sync", "pool.go")
	b, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	s := string(b)
	a := strings.Replace(s, "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif true {\n\t\treturn\n\t}\n", 1)
	a = strings.Replace(a, "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif true {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", 1)
	if a == s {
		return fmt.Errorf("cannot patch %s", name)
	}
	dst := filepath.Join(out, "sync_pool.go")
	overlay[name] = dst
	return os.WriteFile(dst, []byte(a), 0644)
}

// relocate copies dependencies with changed files into modules of their own, because the go
// command does not take overlays of the module cache.
func relocate(out, modfile string, overlay map[string]string) error {
	mod, err := os.ReadFile(modfile)
	if err != nil {
		return err
	}
	for _, path := range []string{"github.com/funny/link", "github.com/sirupsen/logrus"} {
		lp := list[path]
		if lp == nil {
			return fmt.Errorf("%s not found", path)
		}
		dir := filepath.Join(out, filepath.Base(path))
		if err := os.MkdirAll(dir, 0755); err != nil {
			return err
		}
		for _, n := range append(append([]string{}, lp.GoFiles...), "zz_verif_reset.go", "go.mod") {
			src := filepath.Join(lp.Dir, n)
			if r, ok := overlay[src]; ok {
				delete(overlay, src)
				src = r
			}
			b, err := os.ReadFile(src)
			if os.IsNotExist(err) && n == "go.mod" {
				b, err = []byte("module "+path+"\n\ngo 1.13\n"), nil
			}
			if os.IsNotExist(err) && n == "zz_verif_reset.go" {
				continue
			}
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
				return err
			}
		}
		mod = append(mod, []byte(fmt.Sprintf("\nreplace %s => %s\n", path, dir))...)
	}
	return os.WriteFile(modfile, mod, 0644)
}
