// instr rewrites packages so that every goroutine start, channel operation,
// lock, atomic, timer, context, pipe and process call goes through the
// controlled scheduler (lib/vsched). It works on the type-checked source and
// does not depend on how the code is laid out.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type config struct {
	Packages []string `json:"packages"`
	Access   []string `json:"access"` // packages in which accesses to struct fields are reported
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("instr: ")
	cfgPath := flag.String("config", "", "")
	_ = flag.String("repo", "", "")
	mod := flag.String("module", "", "directory of the main module")
	ov := flag.String("overlay", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	var cfg config
	b, err := os.ReadFile(*cfgPath)
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		log.Fatal(err)
	}
	cmd := exec.Command("go", append([]string{"list", "-mod=readonly", "-overlay", *ov, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module"}, cfg.Packages...)...)
	cmd.Dir = *mod
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		log.Fatal("go list: ", err)
	}
	type pkg struct {
		ImportPath, Dir, Export string
		GoFiles                 []string
	}
	pkgs := map[string]*pkg{}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		pkgs[p.ImportPath] = p
	}
	mm := exec.Command("go", "list", "-m", "-mod=readonly")
	mm.Dir = *mod
	mb, err := mm.Output()
	if err != nil {
		log.Fatal("go list -m: ", err)
	}
	vs := strings.TrimSpace(string(mb)) + "/zzverif/vsched"
	base := struct{ Replace map[string]string }{}
	if ob, err := os.ReadFile(*ov); err == nil {
		_ = json.Unmarshal(ob, &base)
	}
	acc := map[string]bool{}
	inPat := func(pats []string, ip string) bool {
		for _, p := range pats {
			if b, ok := strings.CutSuffix(p, "/..."); ok && (ip == b || strings.HasPrefix(ip, b+"/")) || p == ip {
				return true
			}
		}
		return false
	}
	var targets []string
	for ip := range pkgs {
		if inPat(cfg.Packages, ip) && !strings.Contains(ip, "/zzverif/") && !strings.Contains(ip, "/examples") && len(pkgs[ip].GoFiles) > 0 {
			targets = append(targets, ip)
			if inPat(cfg.Access, ip) {
				acc[ip] = true
			}
		}
	}
	sort.Strings(targets)
	repl := map[string]string{}
	for i, ip := range targets {
		p := pkgs[ip]
		if p == nil {
			log.Fatal("no package ", ip)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			var src any
			if r, ok := base.Replace[path]; ok {
				sb, err := os.ReadFile(r)
				if err != nil {
					log.Fatal(err)
				}
				src = sb
			}
			f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
			if err != nil {
				log.Fatal(err)
			}
			files = append(files, f)
			names = append(names, path)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			q := pkgs[path]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(q.Export)
		}), GoVersion: "go1.25"}
		tp, err := conf.Check(ip, fset, files, info)
		if err != nil {
			log.Fatal("type check: ", err)
		}
		for j, f := range files {
			r := &rewriter{info: info, fset: fset, pkg: tp, access: acc[ip], file: filepath.Base(names[j])}
			for k, d := range f.Decls {
				f.Decls[k] = r.decl(d)
			}
			r.imports(f, vs)
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, f); err != nil {
				log.Fatal("print ", names[j], ": ", err)
			}
			dst := filepath.Join(*out, fmt.Sprintf("p%d_%s", i, filepath.Base(names[j])))
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				log.Fatal(err)
			}
			repl[names[j]] = dst
		}
	}
	jb, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), jb, 0o644); err != nil {
		log.Fatal(err)
	}
}

type rewriter struct {
	info   *types.Info
	fset   *token.FileSet
	pkg    *types.Package
	access bool
	file   string
	n      int
	used   bool
}

func (r *rewriter) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent("vs__" + strconv.Itoa(r.n))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// imports adds the scheduler import and blanks imports no longer used.
func (r *rewriter) imports(f *ast.File, vs string) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, sp := range f.Imports {
		if sp.Name != nil && (sp.Name.Name == "_" || sp.Name.Name == ".") {
			continue
		}
		path, _ := strconv.Unquote(sp.Path.Value)
		name := ""
		if sp.Name != nil {
			name = sp.Name.Name
		} else {
			if o, ok := r.info.Implicits[sp].(*types.PkgName); ok {
				name = o.Name()
			} else {
				name = filepath.Base(path)
			}
		}
		if !used[name] {
			sp.Name = ast.NewIdent("_")
		}
	}
	if r.used {
		sp := &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vs)}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
		f.Imports = append(f.Imports, sp)
	}
}

func (r *rewriter) decl(d ast.Decl) ast.Decl {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			d.Body = r.block(d.Body)
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				for i := range v.Values {
					v.Values[i] = r.expr(v.Values[i])
				}
			}
		}
	}
	return d
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.accesses(s)...)
		out = append(out, r.stmt(s))
	}
	return out
}

// ---- accesses to struct fields ----

func (r *rewriter) accesses(s ast.Stmt) []ast.Stmt {
	if !r.access {
		return nil
	}
	var out []ast.Stmt
	seen := map[string]bool{}
	add := func(e *ast.SelectorExpr, write bool) {
		id, ok := e.X.(*ast.Ident)
		if !ok {
			return
		}
		v, ok := r.info.Uses[id].(*types.Var)
		if !ok {
			return
		}
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
			return
		}
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		if skipType(sel.Obj().Type()) {
			return
		}
		_ = pt
		k := fmt.Sprintf("%s.%s/%v", id.Name, e.Sel.Name, write)
		if seen[k] {
			return
		}
		seen[k] = true
		r.used = true
		addr := call(&ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("P")}, &ast.UnaryExpr{Op: token.AND, X: &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(e.Sel.Name)}})
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("Ptr")}}}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{addr}}}}}
		site := fmt.Sprintf("%s@%s:%d", e.Sel.Name, r.file, r.fset.Position(e.Pos()).Line)
		w := "false"
		if write {
			w = "true"
		}
		out = append(out, &ast.ExprStmt{X: call(r.vs("Acc"), fn, ast.NewIdent(w), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(site)})})
	}
	var reads func(n ast.Node)
	reads = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BinaryExpr:
				if n.Op == token.LAND || n.Op == token.LOR {
					reads(n.X)
					return false
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND { // taking an address is no access
					return false
				}
			case *ast.SelectorExpr:
				add(n, false)
			}
			return true
		})
	}
	lhs := func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.SelectorExpr:
			add(e, true)
			if _, ok := e.X.(*ast.Ident); !ok {
				reads(e.X)
			}
		case *ast.IndexExpr:
			if se, ok := e.X.(*ast.SelectorExpr); ok {
				if t := r.typeOf(e.X); t != nil {
					if _, isMap := t.Underlying().(*types.Map); isMap {
						add(se, true)
						reads(e.Index)
						return
					}
				}
			}
			reads(e)
		default:
			reads(e)
		}
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			reads(e)
		}
		if s.Tok != token.DEFINE {
			for _, e := range s.Lhs {
				lhs(e)
			}
		}
	case *ast.IncDecStmt:
		lhs(s.X)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(c.Args) > 0 {
				if se, ok := c.Args[0].(*ast.SelectorExpr); ok {
					add(se, true)
				}
			}
		}
		reads(s.X)
	case *ast.SendStmt:
		reads(s.Chan)
		reads(s.Value)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			reads(e)
		}
	case *ast.GoStmt:
		for _, e := range s.Call.Args {
			reads(e)
		}
		reads(s.Call.Fun)
	case *ast.DeferStmt:
		for _, e := range s.Call.Args {
			reads(e)
		}
	case *ast.IfStmt:
		if s.Init == nil {
			reads(s.Cond)
		} else if a, ok := s.Init.(*ast.AssignStmt); ok {
			for _, e := range a.Rhs {
				reads(e)
			}
		}
	case *ast.RangeStmt:
		reads(s.X)
	case *ast.SwitchStmt:
		if s.Init == nil && s.Tag != nil {
			reads(s.Tag)
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			switch cm := c.(*ast.CommClause).Comm.(type) {
			case *ast.SendStmt:
				reads(cm.Chan)
				reads(cm.Value)
			case *ast.ExprStmt:
				reads(cm.X)
			case *ast.AssignStmt:
				reads(cm.Rhs[0])
			}
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, e := range v.Values {
						reads(e)
					}
				}
			}
		}
	}
	return out
}

// skipType: synchronisation objects are not data.
func skipType(t types.Type) bool {
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.") || strings.HasPrefix(s, "*sync.")
}

// ---- statements ----

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.vs("Send"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = call(r.vs("Recv2"), r.expr(u.X))
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		e := r.expr(s.Call)
		if c, ok := e.(*ast.CallExpr); ok {
			s.Call = c
		} else {
			s.Call = call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})
		}
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Body = r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = r.expr(s.List[i])
		}
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Tag = r.expr(s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.clauses(s.Body)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post)
		s.Body = r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s, "")
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(in, s.Label.Name)
		case *ast.RangeStmt:
			return r.rangeStmt(in, s.Label.Name)
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.SelectStmt:
		return r.selectStmt(s, "")
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := v.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							v.Values[0] = call(r.vs("Recv2"), r.expr(u.X))
							continue
						}
					}
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
	return s
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for i := range b.List {
		b.List[i] = r.stmt(b.List[i])
	}
}

func lab(l string, s ast.Stmt) ast.Stmt {
	if l == "" {
		return s
	}
	return &ast.LabeledStmt{Label: ast.NewIdent(l), Stmt: s}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, label string) ast.Stmt {
	if !isChan(r.typeOf(s.X)) {
		s.X = r.expr(s.X)
		s.Body = r.block(s.Body)
		return lab(label, s)
	}
	c, ok := r.tmp(), r.tmp()
	var head []ast.Stmt
	v := r.tmp()
	head = append(head,
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Recv2"), c)}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if s.Key != nil {
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
	}
	ch := r.expr(s.X)
	body := r.block(s.Body)
	body.List = append(head, body.List...)
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}},
		lab(label, &ast.ForStmt{Body: body}),
	}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDefault := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	res := r.tmp()
	idx := 0
	for _, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		cc := &ast.CaseClause{}
		var head []ast.Stmt
		switch cm := c.Comm.(type) {
		case nil:
			hasDefault = "true"
			cc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
		case *ast.SendStmt:
			t := r.tmp()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{call(call(r.vs("SSend"), r.expr(cm.Chan)), r.expr(cm.Value))}})
			cases = append(cases, t)
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			cases = append(cases, call(r.vs("SRecv"), r.expr(u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			t := r.tmp()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(u.X)}})
			cases = append(cases, call(r.vs("SRecv"), t))
			rhs := []ast.Expr{call(r.vs("RV"), t, res)}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: res, Sel: ast.NewIdent("OK")})
			}
			for i := range cm.Lhs {
				cm.Lhs[i] = r.expr(cm.Lhs[i])
			}
			head = append(head, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		if c.Comm != nil {
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
		}
		cc.Body = append(head, r.stmts(c.Body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{res}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("SelectN"), append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)}})
	// the last clause becomes the default so that terminating-statement
	// analysis accepts a select that ends a function
	if n := len(sw.Body.List); n > 0 {
		sw.Body.List[n-1].(*ast.CaseClause).List = nil
	}
	sw.Tag = &ast.SelectorExpr{X: res, Sel: ast.NewIdent("I")}
	return &ast.BlockStmt{List: append(pre, lab(label, sw))}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: call(r.vs("Go"), r.expr(fl))}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, a)
			continue
		}
		t := r.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		args = append(args, t)
	}
	nc := &ast.CallExpr{Args: args, Ellipsis: c.Ellipsis}
	if tv := r.info.Types[c.Fun]; tv.IsBuiltin() {
		probe := &ast.CallExpr{Fun: c.Fun, Args: args}
		body := r.rewriteBuiltin(c, probe)
		pre = append(pre, &ast.ExprStmt{X: call(r.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})})
		return &ast.BlockStmt{List: pre}
	}
	// a call of a modelled method (go mu.Unlock()) is wrapped whole
	if ne, ok := r.special(c); ok {
		return &ast.ExprStmt{X: call(r.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: ne}}}})}
	}
	f := r.tmp()
	pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}}}, pre...)
	nc.Fun = f
	pre = append(pre, &ast.ExprStmt{X: call(r.vs("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return &ast.BlockStmt{List: pre}
}

// ---- expressions ----

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(r.vs("Recv"), r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low = r.expr(e.Low)
		e.High = r.expr(e.High)
		e.Max = r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value)
		if t := r.info.Types[e.Key]; t.Type != nil {
			e.Key = r.expr(e.Key)
		}
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.FuncLit:
		e.Body = r.block(e.Body)
	case *ast.SelectorExpr:
		return r.selector(e)
	case *ast.CallExpr:
		return r.callExpr(e)
	}
	return e
}

func (r *rewriter) rewriteBuiltin(orig, c *ast.CallExpr) ast.Expr {
	id, ok := ast.Unparen(orig.Fun).(*ast.Ident)
	if !ok || len(orig.Args) == 0 || !isChan(r.typeOf(orig.Args[0])) {
		return c
	}
	switch id.Name {
	case "close":
		return call(r.vs("Close"), c.Args...)
	case "len":
		return call(r.vs("Len"), c.Args...)
	}
	return c
}

func (r *rewriter) callExpr(c *ast.CallExpr) ast.Expr {
	if tv := r.info.Types[c.Fun]; tv.IsBuiltin() {
		orig := &ast.CallExpr{Fun: c.Fun, Args: append([]ast.Expr(nil), c.Args...)}
		if len(c.Args) > 0 && !r.info.Types[c.Args[0]].IsType() {
			r.exprs(c.Args)
		} else if len(c.Args) > 1 {
			r.exprs(c.Args[1:])
		}
		return r.rewriteBuiltin(orig, c)
	}
	if ne, ok := r.special(c); ok {
		return ne
	}
	c.Fun = r.expr(c.Fun)
	r.exprs(c.Args)
	return c
}

var pkgFuncs = map[string]string{
	"time.Now": "Now", "time.Since": "Since", "time.Until": "Until", "time.Sleep": "Sleep", "time.After": "After", "time.Tick": "Tick",
	"time.NewTimer": "NewTimer", "time.NewTicker": "NewTicker", "time.AfterFunc": "AfterFunc",
	"context.WithCancel": "CtxWithCancel", "context.WithTimeout": "CtxWithTimeout", "context.WithDeadline": "CtxWithDeadline", "context.WithValue": "CtxWithValue",
	"os.Pipe": "Pipe", "runtime.Gosched": "Yield", "syscall.Syscall": "Syscall",
	"os/signal.Ignore": "SignalNop", "os/signal.Reset": "SignalNop",
}

var methods = map[string]string{
	"(*sync.Mutex).Lock": "MuLock", "(*sync.Mutex).Unlock": "MuUnlock", "(*sync.Mutex).TryLock": "MuTryLock",
	"(*sync.RWMutex).Lock": "RWLock", "(*sync.RWMutex).Unlock": "RWUnlock", "(*sync.RWMutex).TryLock": "RWTryLock",
	"(*sync.RWMutex).RLock": "RWRLock", "(*sync.RWMutex).RUnlock": "RWRUnlock", "(*sync.RWMutex).TryRLock": "RWTryRLock", "(*sync.RWMutex).RLocker": "RWRLocker",
	"(sync.Locker).Lock": "LkLock", "(sync.Locker).Unlock": "LkUnlock",
	"(*sync.Once).Do":        "OnceDo",
	"(*sync.WaitGroup).Add":  "WGAdd",
	"(*sync.WaitGroup).Done": "WGDone", "(*sync.WaitGroup).Wait": "WGWait", "(*sync.WaitGroup).Go": "WGGo",
	"(*sync.Cond).Wait": "CondWait", "(*sync.Cond).Signal": "CondSignal", "(*sync.Cond).Broadcast": "CondBroadcast",
	"(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut",
	"(*time.Timer).Stop": "TimerStop", "(*time.Timer).Reset": "TimerReset", "(*time.Ticker).Stop": "TickerStop", "(*time.Ticker).Reset": "TickerReset",
	"(*os.File).Read": "FileRead", "(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString", "(*os.File).Close": "FileClose",
	"(*os.File).SetReadDeadline": "FileSetReadDeadline", "(*os.File).SetDeadline": "FileSetDeadline",
	"(*os/exec.Cmd).Run": "CmdRun", "(*os/exec.Cmd).Start": "CmdStart", "(*os/exec.Cmd).Wait": "CmdWait",
	"(*os.Process).Kill": "ProcKill", "(*os.Process).Signal": "ProcSignal",
	"(io.Reader).Read": "IORead",
}

// recv makes the address of the object a method is called on, following
// embedded fields.
func (r *rewriter) recv(e *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	x := e.X
	t := sel.Recv()
	idx := sel.Index()
	x = r.expr(x)
	for _, i := range idx[:len(idx)-1] {
		u := t
		if p, ok := u.Underlying().(*types.Pointer); ok {
			u = p.Elem()
		}
		f := u.Underlying().(*types.Struct).Field(i)
		x = &ast.SelectorExpr{X: x, Sel: ast.NewIdent(f.Name())}
		t = f.Type()
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return x
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x
	}
	return &ast.UnaryExpr{Op: token.AND, X: x}
}

func fullName(sel *types.Selection) string {
	if f, ok := sel.Obj().(*types.Func); ok {
		return f.FullName()
	}
	return ""
}

func isReadMethod(sel *types.Selection) bool {
	f, ok := sel.Obj().(*types.Func)
	if !ok || f.Name() != "Read" {
		return false
	}
	t := sel.Recv()
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return false
	}
	sg := f.Type().(*types.Signature)
	return sg.Params().Len() == 1 && sg.Params().At(0).Type().String() == "[]byte" && sg.Results().Len() == 2
}

func (r *rewriter) special(c *ast.CallExpr) (ast.Expr, bool) {
	e, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return nil, false
	}
	if sel := r.info.Selections[e]; sel != nil && sel.Kind() == types.MethodVal {
		n := fullName(sel)
		m := methods[n]
		if m == "" && isReadMethod(sel) {
			m = "IORead"
		}
		if m != "" {
			rc := r.recv(e, sel)
			r.exprs(c.Args)
			return &ast.CallExpr{Fun: r.vs(m), Args: append([]ast.Expr{rc}, c.Args...), Ellipsis: c.Ellipsis}, true
		}
		if strings.HasPrefix(n, "(*sync/atomic.") {
			rc := r.recv(e, sel)
			r.exprs(c.Args)
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: call(r.vs("At"), rc), Sel: e.Sel}, Args: c.Args}, true
		}
		return nil, false
	}
	if f, ok := r.info.Uses[e.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" && len(c.Args) > 0 {
		r.exprs(c.Args)
		c.Args[0] = call(r.vs("At"), c.Args[0])
		return c, true
	}
	return nil, false
}

func (r *rewriter) selector(e *ast.SelectorExpr) ast.Expr {
	if f, ok := r.info.Uses[e.Sel].(*types.Func); ok && f.Pkg() != nil && r.info.Selections[e] == nil {
		if v := pkgFuncs[f.Pkg().Path()+"."+f.Name()]; v != "" {
			return r.vs(v)
		}
		return e
	}
	if sel := r.info.Selections[e]; sel != nil && sel.Kind() == types.MethodVal {
		// a method value: bind it
		m := methods[fullName(sel)]
		if m != "" {
			sg := sel.Type().(*types.Signature)
			if sg.Params().Len() == 0 && sg.Results().Len() == 0 {
				return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.vs(m), r.recv(e, sel))}}}}
			}
		}
	}
	e.X = r.expr(e.X)
	return e
}
