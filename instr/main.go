// instr reads the current tree of the repository and writes an instrumented
// copy in which every source of nondeterminism goes to package simrt. It judges
// nothing; it knows Go, not ouro.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{
	"net": "xnet", "time": "xtime", "sync": "xsync", "log": "xlog", "os": "xos", "math/rand": "xrand",
	"math/rand/v2": "xrandv2", "crypto/rand": "xcrand", "context": "xctx", "runtime": "xruntime",
}

type edit struct {
	pos, end int // byte offsets; text replaces [pos,end)
	kind     int // 0: suffix of a node ending here, 1: prefix or replacement
	seq      int
	text     string
}

type pkgInfo struct {
	path, dir string
	bp        *build.Package
	files     []*ast.File
	names     []string
	src       map[string][]byte
	types     *types.Package
	info      *types.Info
	yield     string
}

type builder struct {
	fset   *token.FileSet
	module string
	root   string
	pkgs   map[string]*pkgInfo
	gc     types.Importer
	order  []*pkgInfo
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	module, goVer := "", "1.20"
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			module = strings.Trim(f[1], `"`)
		}
		if len(f) == 2 && f[0] == "go" {
			p := strings.Split(f[1], ".")
			if len(p) >= 2 {
				if n, _ := strconv.Atoi(p[1]); n > 20 {
					goVer = p[0] + "." + p[1]
				}
			}
		}
	}
	b := &builder{fset: token.NewFileSet(), module: module, root: *repo, pkgs: map[string]*pkgInfo{}}
	b.gc = importer.ForCompiler(b.fset, "gc", nil)
	var dirs []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	for _, d := range dirs {
		bp, err := build.Default.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			die("%v", err)
		}
		rel, _ := filepath.Rel(*repo, d)
		path := module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		b.pkgs[path] = &pkgInfo{path: path, dir: rel, bp: bp}
	}
	var paths []string
	for p := range b.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if _, err := b.check(p); err != nil {
			die("%v", err)
		}
	}
	for _, p := range b.order {
		b.write(p, filepath.Join(*out, p.dir))
	}
	gomod := fmt.Sprintf("module %s\n\ngo %s\n\nrequire verif v0.0.0\n", module, goVer)
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gomod), 0o644); err != nil {
		die("%v", err)
	}
}

// Import implements types.Importer.
func (b *builder) Import(path string) (*types.Package, error) {
	if _, ok := b.pkgs[path]; ok {
		return b.check(path)
	}
	return b.gc.Import(path)
}

func (b *builder) check(path string) (*types.Package, error) {
	p := b.pkgs[path]
	if p.types != nil {
		return p.types, nil
	}
	p.src = map[string][]byte{}
	p.yield = "YL"
	for _, n := range p.bp.GoFiles {
		full := filepath.Join(b.root, p.dir, n)
		src, err := os.ReadFile(full)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(b.fset, full, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.src[n] = src
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			if s == "sync" || s == "time" || s == "net" {
				p.yield = "Y"
			}
		}
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	var first error
	cfg := types.Config{Importer: b, Error: func(err error) {
		if first == nil {
			first = err
		}
	}}
	t, _ := cfg.Check(path, b.fset, p.files, p.info)
	if first != nil {
		return nil, first
	}
	p.types = t
	b.order = append(b.order, p)
	return t, nil
}

// ---- one file -----------------------------------------------------------

type rw struct {
	p     *pkgInfo
	fset  *token.FileSet
	src   []byte
	tf    *token.File
	edits []edit
	n     int
}

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }
func (r *rw) add(pos, end, kind int, text string) {
	r.n++
	r.edits = append(r.edits, edit{pos, end, kind, r.n, text})
}
func (r *rw) before(p token.Pos, text string)  { r.add(r.off(p), r.off(p), 1, text) }
func (r *rw) after(p token.Pos, text string)   { r.add(r.off(p), r.off(p), 0, text) }
func (r *rw) repl(p, e token.Pos, text string) { r.add(r.off(p), r.off(e), 1, text) }

func apply(src []byte, base, end int, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := edits[i], edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	at := base
	for _, e := range edits {
		if e.pos < at {
			die("overlapping edits at offset %d: %q", e.pos, e.text)
		}
		sb.Write(src[at:e.pos])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(src[at:end])
	return sb.String()
}

// render returns the rewritten text of one node.
func (r *rw) render(n ast.Node) string {
	sub := &rw{p: r.p, fset: r.fset, src: r.src, tf: r.tf}
	sub.walk(n)
	return apply(r.src, r.off(n.Pos()), r.off(n.End()), sub.edits)
}

func (r *rw) typ(e ast.Expr) types.Type {
	tv, ok := r.p.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return tv.Type.Underlying()
}
func (r *rw) isChan(e ast.Expr) bool { _, ok := r.typ(e).(*types.Chan); return ok }
func (r *rw) isMap(e ast.Expr) bool  { _, ok := r.typ(e).(*types.Map); return ok }
func (r *rw) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.p.info.Uses[id].(*types.Builtin)
	return ok
}

// sharedMap reports whether e denotes a map other tasks may reach: a field or
// a package variable, written as a plain selector chain.
func (r *rw) sharedMap(e ast.Expr) bool {
	if !r.isMap(e) {
		return false
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return plainChain(x)
	case *ast.Ident:
		v, ok := r.p.info.Uses[x].(*types.Var)
		return ok && v.Parent() == r.p.types.Scope()
	}
	return false
}

// sharedVar reports whether e is an addressable variable that other tasks may
// reach: a field written as a plain selector chain, or a package variable.
func (r *rw) sharedVar(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if s := r.p.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
			return plainChain(x)
		}
	case *ast.Ident:
		v, ok := r.p.info.Uses[x].(*types.Var)
		return ok && v.Parent() == r.p.types.Scope()
	}
	return false
}

// mentions reports whether an expression reads the variable written as text.
func (r *rw) mentions(e ast.Expr, text string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.Ident:
			found = found || r.text(x) == text
		}
		return true
	})
	return found
}

func plainChain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plainChain(x.X)
	case *ast.StarExpr:
		return plainChain(x.X)
	case *ast.ParenExpr:
		return plainChain(x.X)
	}
	return false
}

// mapMarks emits the concurrent-map checks of one statement's own expressions.
func (r *rw) mapMarks(s ast.Stmt) string {
	var out []string
	seen := map[string]bool{}
	mark := func(e ast.Expr, w bool) {
		fn := "MapR"
		if w {
			fn = "MapW"
		}
		t := string(r.src[r.off(e.Pos()):r.off(e.End())])
		c := fmt.Sprintf("simrt_.%s(func() any { return %s });", fn, t)
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	// Names declared by this very statement are not in scope before it.
	declared := map[string]bool{}
	uses := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			if id, is := n.(*ast.Ident); is && declared[id.Name] {
				ok = false
			}
			return true
		})
		return ok
	}
	var scan func(n ast.Node, write bool)
	scan = func(n ast.Node, write bool) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.IndexExpr:
				if r.sharedMap(x.X) && uses(x.X) {
					mark(x.X, write)
				}
			case *ast.CallExpr:
				if r.builtin(x.Fun, "delete") && len(x.Args) == 2 && r.sharedMap(x.Args[0]) && uses(x.Args[0]) {
					mark(x.Args[0], true)
				}
				if r.builtin(x.Fun, "len") && len(x.Args) == 1 && r.sharedMap(x.Args[0]) && uses(x.Args[0]) {
					mark(x.Args[0], false)
				}
			}
			return true
		})
	}
	asg := func(x *ast.AssignStmt) {
		if x.Tok == token.DEFINE {
			defer func() {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						declared[id.Name] = true
					}
				}
			}()
		}
		for _, l := range x.Lhs {
			if ix, ok := l.(*ast.IndexExpr); ok && r.sharedMap(ix.X) && uses(ix.X) {
				mark(ix.X, true)
				scan(ix.Index, false)
				continue
			}
			scan(l, false)
		}
		for _, e := range x.Rhs {
			scan(e, false)
		}
	}
	init := func(s ast.Stmt) {
		if a, ok := s.(*ast.AssignStmt); ok {
			asg(a)
		} else if s != nil {
			scan(s, false)
		}
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		asg(x)
	case *ast.IncDecStmt:
		scan(x.X, true)
	case *ast.ExprStmt:
		scan(x.X, false)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			scan(e, false)
		}
	case *ast.IfStmt:
		init(x.Init)
		scan(x.Cond, false)
	case *ast.SwitchStmt:
		init(x.Init)
		if x.Tag != nil {
			scan(x.Tag, false)
		}
	case *ast.RangeStmt:
		if r.sharedMap(x.X) {
			mark(x.X, false)
		}
	case *ast.SendStmt:
		scan(x.Value, false)
	case *ast.DeclStmt:
		scan(x, false)
	}
	return strings.Join(out, "")
}

func (r *rw) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause:
			r.walk(s)
			continue
		}
		in := s
		for {
			l, ok := in.(*ast.LabeledStmt)
			if !ok {
				break
			}
			in = l.Stmt
		}
		r.before(s.Pos(), "simrt_."+r.p.yield+"();"+r.mapMarks(in))
		if in != s {
			switch in.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt:
			default: // a goto may come here time and again
				r.before(in.Pos(), "simrt_."+r.p.yield+"();")
			}
		}
		r.walk(s)
	}
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	r.add(r.off(b.Lbrace)+1, r.off(b.Lbrace)+1, 1, "simrt_."+r.p.yield+"();")
	r.stmts(b.List)
}

func (r *rw) walk(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			r.stmts(x.List)
			return false
		case *ast.CaseClause:
			for _, e := range x.List {
				r.walk(e)
			}
			r.stmts(x.Body)
			return false
		case *ast.ForStmt:
			if x.Init != nil {
				r.walk(x.Init)
			}
			if x.Cond != nil {
				r.walk(x.Cond)
			}
			if x.Post != nil {
				if _, ok := x.Post.(*ast.IncDecStmt); !ok {
					r.walk(x.Post)
				}
			}
			r.loopBody(x.Body)
			return false
		case *ast.RangeStmt:
			r.rng(x)
			return false
		case *ast.SelectStmt:
			r.sel(x)
			return false
		case *ast.GoStmt:
			r.goStmt(x)
			return false
		case *ast.SendStmt:
			r.before(x.Pos(), "simrt_.SendTo(")
			r.walk(x.Chan)
			r.repl(x.Chan.End(), x.Value.Pos(), ")(")
			r.walk(x.Value)
			r.after(x.End(), ")")
			return false
		case *ast.AssignStmt:
			// v, ok := <-ch
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					for _, l := range x.Lhs {
						r.walk(l)
					}
					r.recv(u, "Recv2")
					return false
				}
			}
			// x.f += e and x.f = ... x.f ...: a read, then a write.
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE && r.sharedVar(x.Lhs[0]) {
				l := r.text(x.Lhs[0])
				op := strings.TrimSuffix(x.Tok.String(), "=")
				if op != "" || r.mentions(x.Rhs[0], l) {
					r.before(x.Pos(), "simrt_.AsgTo(&")
					if op != "" {
						r.repl(x.TokPos, x.Rhs[0].Pos(), ")("+l+" "+op+" (")
						r.walk(x.Rhs[0])
						r.after(x.Rhs[0].End(), "))")
					} else {
						r.repl(x.TokPos, x.Rhs[0].Pos(), ")(")
						r.walk(x.Rhs[0])
						r.after(x.Rhs[0].End(), ")")
					}
					return false
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv(u, "Recv2")
					return false
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.recv(x, "Recv")
				return false
			}
		case *ast.CallExpr:
			if r.builtin(x.Fun, "close") {
				r.repl(x.Fun.Pos(), x.Fun.End(), "simrt_.Close")
				r.walk(x.Args[0])
				return false
			}
			if r.builtin(x.Fun, "len") && len(x.Args) == 1 && r.isChan(x.Args[0]) {
				r.repl(x.Fun.Pos(), x.Fun.End(), "simrt_.Len")
				r.walk(x.Args[0])
				return false
			}
		case *ast.IncDecStmt:
			if r.sharedVar(x.X) {
				fn := "Inc"
				if x.Tok == token.DEC {
					fn = "Dec"
				}
				r.before(x.Pos(), "simrt_."+fn+"(&")
				r.repl(x.TokPos, x.TokPos+2, ")")
				return false
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) recv(u *ast.UnaryExpr, fn string) {
	r.repl(u.OpPos, u.OpPos+2, "simrt_."+fn+"(")
	r.walk(u.X)
	r.after(u.End(), ")")
}

func (r *rw) goStmt(g *ast.GoStmt) {
	c := g.Call
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.p.info.Uses[id].(*types.Builtin); ok {
			r.repl(g.Go, g.Go+2, "simrt_.GoCall(func() {")
			r.walk(c)
			r.after(c.End(), "})")
			return
		}
	}
	call := "simrt_.GoCall("
	if c.Ellipsis.IsValid() {
		call = "simrt_.GoCallSlice("
		r.repl(c.Ellipsis, c.Ellipsis+3, "")
	}
	r.repl(g.Go, g.Go+2, call)
	r.walk(c.Fun)
	if len(c.Args) == 0 {
		r.repl(c.Lparen, c.Lparen+1, "")
	} else {
		r.repl(c.Lparen, c.Lparen+1, ",")
		for _, a := range c.Args {
			r.walk(a)
		}
	}
}

func (r *rw) rng(x *ast.RangeStmt) {
	switch {
	case r.isChan(x.X):
		ch := r.render(x.X)
		head := ""
		if x.Key == nil {
			head = fmt.Sprintf("for _, simrt_ok := simrt_.Recv2(%s); simrt_ok; _, simrt_ok = simrt_.Recv2(%s) ", ch, ch)
		} else if x.Tok == token.DEFINE {
			k := r.text(x.Key)
			head = fmt.Sprintf("for %s, simrt_ok := simrt_.Recv2(%s); simrt_ok; %s, simrt_ok = simrt_.Recv2(%s) ", k, ch, k, ch)
		} else {
			k := r.text(x.Key)
			head = fmt.Sprintf("for simrt_v, simrt_ok := simrt_.Recv2(%s); simrt_ok; simrt_v, simrt_ok = simrt_.Recv2(%s) ", ch, ch)
			r.repl(x.For, x.Body.Lbrace, head)
			r.add(r.off(x.Body.Lbrace)+1, r.off(x.Body.Lbrace)+1, 1, k+" = simrt_v;")
			r.loopBody(x.Body)
			return
		}
		r.repl(x.For, x.Body.Lbrace, head)
		r.loopBody(x.Body)
	case r.isMap(x.X):
		m := r.render(x.X)
		k, v := "_", "_"
		if x.Key != nil {
			k = r.text(x.Key)
		}
		if x.Value != nil {
			v = r.text(x.Value)
		}
		ptr := func(s string) string {
			if s == "_" {
				return "nil"
			}
			return "&" + s
		}
		dk, dv := k, v
		if x.Tok != token.DEFINE {
			dk, dv = "_", "_"
		}
		r.repl(x.For, x.Body.Lbrace, fmt.Sprintf("for simrt_it, %s, %s := simrt_.MapIter(%s); simrt_it.Next(%s, %s); ", dk, dv, m, ptr(k), ptr(v)))
		r.loopBody(x.Body)
	default:
		r.walk(x.X)
		r.loopBody(x.Body)
	}
}

func (r *rw) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rw) sel(s *ast.SelectStmt) {
	var lhs, rhs []string
	hasDef := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			r.repl(cc.Case, cc.Colon, "default")
			r.stmts(cc.Body)
			continue
		}
		i := len(lhs)
		v := fmt.Sprintf("simrt_c%d", i)
		lhs = append(lhs, v)
		pre := ""
		var e ast.Expr
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, fmt.Sprintf("simrt_.SendCase(%s)(%s)", r.render(x.Chan), r.render(x.Value)))
		case *ast.ExprStmt:
			e = x.X
		case *ast.AssignStmt:
			e = x.Rhs[0]
			if len(x.Lhs) == 1 {
				pre = fmt.Sprintf("%s %s %s.V;", r.render(x.Lhs[0]), x.Tok, v)
			} else {
				pre = fmt.Sprintf("%s, %s %s %s.V, %s.OK;", r.render(x.Lhs[0]), r.render(x.Lhs[1]), x.Tok, v, v)
			}
		}
		if e != nil {
			rhs = append(rhs, fmt.Sprintf("simrt_.RecvCase(%s)", r.render(unparen(e).(*ast.UnaryExpr).X)))
		}
		r.repl(cc.Case, cc.Colon, fmt.Sprintf("case %d", i))
		r.add(r.off(cc.Colon)+1, r.off(cc.Colon)+1, 1, pre)
		r.stmts(cc.Body)
	}
	head := "switch "
	if len(lhs) > 0 {
		head += strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}
	head += fmt.Sprintf("simrt_.Select(%v", hasDef)
	for _, l := range lhs {
		head += ", " + l
	}
	head += ") "
	r.repl(s.Select, s.Body.Lbrace, head)
	if !hasDef {
		r.add(r.off(s.Body.Rbrace), r.off(s.Body.Rbrace), 1, "default: panic(\"unreachable\");")
	}
}

// ---- files --------------------------------------------------------------

func (b *builder) write(p *pkgInfo, dir string) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	name := p.types.Name()
	isMain := name == "main"
	var inits []string
	initOf := map[ast.Expr]int{}
	for i, in := range p.info.InitOrder {
		initOf[in.Rhs] = i
	}
	covered := map[string]bool{}
	for _, in := range p.info.InitOrder {
		for _, l := range in.Lhs {
			covered[l.Name()] = true
		}
	}
	nInit := 0
	for fi, f := range p.files {
		src := p.src[p.names[fi]]
		r := &rw{p: p, fset: b.fset, src: src, tf: b.fset.File(f.Pos())}
		if isMain {
			r.repl(f.Name.Pos(), f.Name.End(), "ouroapp")
		}
		r.after(f.Name.End(), "; import simrt_ \"verif/simrt\"")
		tail := "\nvar _ = simrt_.Y\n"
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if sh, ok := shims[path]; ok {
				alias := ""
				if im.Name == nil {
					base := path[strings.LastIndex(path, "/")+1:]
					if base == "v2" {
						base = "rand"
					}
					alias = base + " "
				}
				r.repl(im.Path.Pos(), im.Path.End(), alias+strconv.Quote("verif/simrt/shim/"+sh))
			}
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" && x.Body != nil {
					n := fmt.Sprintf("simrt_init%d", nInit)
					nInit++
					r.repl(x.Name.Pos(), x.Name.End(), n)
					inits = append(inits, n)
				}
				if isMain && x.Recv == nil && x.Name.Name == "main" {
					r.repl(x.Name.Pos(), x.Name.End(), "Main")
				}
				if x.Body != nil {
					r.walk(x.Body)
				}
			case *ast.GenDecl:
				r.walk(x)
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					for _, v := range vs.Values {
						i, ok := initOf[v]
						if !ok {
							continue
						}
						var ls []string
						for _, l := range p.info.InitOrder[i].Lhs {
							ls = append(ls, l.Name())
						}
						tail += fmt.Sprintf("\nfunc simrt_var%d() { %s = %s }\n", i, strings.Join(ls, ", "), r.render(v))
					}
				}
			}
		}
		txt := apply(src, 0, len(src), r.edits) + tail
		if err := os.WriteFile(filepath.Join(dir, p.names[fi]), []byte(txt), 0o644); err != nil {
			die("%v", err)
		}
	}
	var sb strings.Builder
	pn := name
	if isMain {
		pn = "ouroapp"
	}
	fmt.Fprintf(&sb, "package %s\n\nimport simrt_ \"verif/simrt\"\n\nvar _ = simrt_.Y\n\nfunc init() {\n", pn)
	for _, n := range p.types.Scope().Names() {
		if v, ok := p.types.Scope().Lookup(n).(*types.Var); ok && !covered[v.Name()] {
			fmt.Fprintf(&sb, "\tsimrt_.OnReset(func() { simrt_.Zero(&%s) })\n", n)
		}
	}
	for _, n := range p.types.Scope().Names() {
		if _, ok := p.types.Scope().Lookup(n).(*types.Var); ok {
			fmt.Fprintf(&sb, "\tsimrt_.OnGlobal(&%s)\n", n)
		}
	}
	for i := range p.info.InitOrder {
		fmt.Fprintf(&sb, "\tsimrt_.OnReset(simrt_var%d)\n", i)
	}
	for _, n := range inits {
		fmt.Fprintf(&sb, "\tsimrt_.OnReset(%s)\n", n)
	}
	sb.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dir, "zz_simrt_reset.go"), []byte(sb.String()), 0o644); err != nil {
		die("%v", err)
	}
}
