package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter rewrites the packages of module "vsa" so that every
// synchronisation operation goes through vsa/internal/gomc.  It edits source
// text in place (line numbers are preserved), guided by go/types.

const gomcPath = "vsa/internal/gomc/"

// rewrite table: import path -> name -> shim package, new name ("" keeps it)
type target struct{ pkg, name string }

func all(pkg string, names ...string) map[string]target {
	m := map[string]target{}
	for _, n := range names {
		m[n] = target{pkg, n}
	}
	return m
}

var table = map[string]map[string]target{
	"sync": all("gsync", "Mutex", "RWMutex", "WaitGroup", "Once", "OnceFunc", "OnceValue", "OnceValues", "Cond", "NewCond", "Pool", "Map", "Locker"),
	"time": all("gtime", "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker"),
	"fmt":  all("gfmt", "Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"),
	"log": {"Print": {"gfmt", "LogPrint"}, "Printf": {"gfmt", "LogPrintf"}, "Println": {"gfmt", "LogPrintln"},
		"Fatal": {"gfmt", "Fatal"}, "Fatalf": {"gfmt", "Fatalf"}, "Fatalln": {"gfmt", "Fatalln"}},
	"os":          {"Exit": {"gfmt", "Exit"}},
	"context":     all("gctx", "WithCancel", "WithTimeout", "WithDeadline"),
	"io":          {"WriteString": {"gfmt", "WriteString"}},
	"crypto/rand": {"Read": {"graw", "RandRead"}},
	"runtime":     {"Gosched": {"rt", "Yield"}},
	"os/signal":   {"Notify": {"ghttp", "Notify"}, "Stop": {"ghttp", "StopNotify"}, "NotifyContext": {"ghttp", "NotifyContext"}},
	"net/http":    {"Server": {"ghttp", "Server"}, "ListenAndServe": {"ghttp", "ListenAndServe"}, "Handle": {"ghttp", "Handle"}, "HandleFunc": {"ghttp", "HandleFunc"}, "DefaultServeMux": {"ghttp", "DefaultServeMux"}},
}

func init() {
	m := map[string]target{}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		m[n] = target{"gatomic", n}
		for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
			m[p+n] = target{"graw", p + n}
		}
	}
	for _, n := range []string{"Bool", "Pointer", "Value"} {
		m[n] = target{"gatomic", n}
	}
	for _, n := range []string{"LoadPointer", "StorePointer", "SwapPointer", "CompareAndSwapPointer"} {
		m[n] = target{"graw", n}
	}
	table["sync/atomic"] = m
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

type instrumenter struct {
	repo  string
	out   string // scratch directory for rewritten files
	fset  *token.FileSet
	pkgs  map[string]*listPkg
	typed map[string]*types.Package
	gc    types.Importer
	// Replace is the overlay map.
	Replace    map[string]string
	renameMain map[string]bool // packages whose main() is renamed
	noFine     bool            // leave plain accesses alone
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for _, e := range env {
			if strings.HasPrefix(e, k+"=") && e != k+"=" {
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("HOME", "/root")
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GOMODCACHE", "/root/go/pkg/mod")
	set("GOCACHE", "/root/.cache/go-build")
	set("GONOSUMDB", "*")
	set("GONOSUMCHECK", "1")
	return env
}

func runGo(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

func newInstrumenter(repo, out string) (*instrumenter, error) {
	in := &instrumenter{repo: repo, out: out, fset: token.NewFileSet(), pkgs: map[string]*listPkg{}, typed: map[string]*types.Package{}, Replace: map[string]string{}, renameMain: map[string]bool{}}
	b, err := runGo(repo, "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports,Module,Error", "./...")
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		q := p
		in.pkgs[p.ImportPath] = &q
	}
	in.gc = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := in.pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	return in, nil
}

func (in *instrumenter) ours(path string) bool {
	p := in.pkgs[path]
	return p != nil && p.Module != nil && p.Module.Path == "vsa" && !strings.HasPrefix(path, gomcPath)
}

// Import implements types.Importer: module packages come from source.
func (in *instrumenter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if t := in.typed[path]; t != nil {
		return t, nil
	}
	if in.ours(path) {
		return in.process(path)
	}
	return in.gc.Import(path)
}

func (in *instrumenter) process(path string) (*types.Package, error) {
	if t := in.typed[path]; t != nil {
		return t, nil
	}
	p := in.pkgs[path]
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(in.fset, fn, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files, srcs, names = append(files, af), append(srcs, src), append(names, fn)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	cfg := types.Config{Importer: in, GoVersion: "go1.24", FakeImportC: true}
	tp, err := cfg.Check(path, in.fset, files, info)
	if err != nil {
		return nil, fmt.Errorf("typecheck %s: %w", path, err)
	}
	in.typed[path] = tp
	var fine *fineInfo
	if !in.noFine {
		fine = newFineInfo(files, info)
	}
	for i := range files {
		r := &rewriter{pkg: tp, fine: fine, in: in, info: info, file: files[i], src: srcs[i], used: map[string]bool{}, main: in.renameMain[path]}
		text := r.rewrite()
		rel := strings.ReplaceAll(strings.TrimPrefix(names[i], in.repo+"/"), "/", "__")
		dst := filepath.Join(in.out, rel)
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			return nil, err
		}
		in.Replace[names[i]] = dst
	}
	return tp, nil
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type rewriter struct {
	pkg   *types.Package
	fine  *fineInfo
	in    *instrumenter
	info  *types.Info
	file  *ast.File
	src   []byte
	edits []edit
	used  map[string]bool
	nsel  int
	main  bool
	seq   int
}

func (r *rewriter) off(p token.Pos) int { return r.in.fset.Position(p).Offset }

func (r *rewriter) add(off, end int, text string) {
	r.seq++
	r.edits = append(r.edits, edit{off, end, text, r.seq})
}
func (r *rewriter) ins(p token.Pos, text string)    { r.add(r.off(p), r.off(p), text) }
func (r *rewriter) rep(a, b token.Pos, text string) { r.add(r.off(a), r.off(b), text) }
func (r *rewriter) sh(pkg string) string            { r.used[pkg] = true; return "gomc_" + pkg }

func (r *rewriter) apply(edits []edit, from, to int) string {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// pure insertions before replacements at the same offset
		zi, zj := edits[i].off == edits[i].end, edits[j].off == edits[j].end
		if zi != zj {
			return zi
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := from
	for _, e := range edits {
		if e.off < pos {
			// overlapping (already covered by an outer replacement): skip
			continue
		}
		b.Write(r.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(r.src[pos:to])
	return b.String()
}

// text renders a node with its own edits applied.
func (r *rewriter) text(n ast.Node) string {
	save := r.edits
	r.edits = nil
	r.walk(n)
	s := r.apply(r.edits, r.off(n.Pos()), r.off(n.End()))
	r.edits = save
	return s
}

func (r *rewriter) isChan(e ast.Expr) (*types.Chan, bool) {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil, false
	}
	c, ok := tv.Type.Underlying().(*types.Chan)
	return c, ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvExpr(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) recv(u *ast.UnaryExpr, fn string) {
	r.rep(u.OpPos, u.X.Pos(), r.sh("rt")+"."+fn+"(")
	r.ins(u.X.End(), ")")
	r.walk(u.X)
}

// walk collects the edits of a subtree.
func (r *rewriter) walk(root ast.Node) {
	if root == nil {
		return
	}
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case nil:
			return false
		case *ast.BlockStmt:
			r.fineList(n.List)
			return true
		case *ast.CaseClause:
			r.fineList(n.Body)
			return true
		case *ast.IncDecStmt:
			return !r.fineIncDec(n)
		case *ast.FuncDecl:
			r.funcDecl(n)
			return true
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					if t, ok := table[pn.Imported().Path()][n.Sel.Name]; ok {
						r.rep(n.Pos(), n.End(), r.sh(t.pkg)+"."+t.name)
					}
					return false
				}
			}
			return true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r.recv(n, "Recv")
				return false
			}
			return true
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recvExpr(n.Rhs[0]); u != nil {
					for _, l := range n.Lhs {
						r.walk(l)
					}
					r.recv(u, "Recv2")
					return false
				}
			}
			return !r.fineAssign(n)
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recvExpr(n.Values[0]); u != nil {
					if n.Type != nil {
						r.walk(n.Type)
					}
					r.recv(u, "Recv2")
					return false
				}
			}
			return true
		case *ast.SendStmt:
			r.ins(n.Chan.Pos(), r.sh("rt")+".Send(")
			r.rep(n.Chan.End(), n.Value.Pos(), ")(")
			r.ins(n.Value.End(), ")")
			r.walk(n.Chan)
			r.walk(n.Value)
			return false
		case *ast.CallExpr:
			if len(n.Args) == 1 {
				if r.isBuiltin(n.Fun, "close") {
					r.rep(n.Fun.Pos(), n.Fun.End(), r.sh("rt")+".Close")
					r.walk(n.Args[0])
					return false
				}
				if r.isBuiltin(n.Fun, "len") {
					if c, ok := r.isChan(n.Args[0]); ok {
						f := ".Len"
						if c.Dir() == types.SendOnly {
							f = ".LenS"
						}
						r.rep(n.Fun.Pos(), n.Fun.End(), r.sh("rt")+f)
						r.walk(n.Args[0])
						return false
					}
				}
			}
			return true
		case *ast.RangeStmt:
			r.rangeStmt(n)
			return false
		case *ast.GoStmt:
			r.goStmt(n)
			return false
		case *ast.SelectStmt:
			r.selectStmt(n, "")
			return false
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok && len(sel.Body.List) > 0 {
				r.rep(n.Pos(), sel.Pos(), "")
				r.selectStmt(sel, n.Label.Name+": ")
				return false
			}
			return true
		}
		return true
	})
}

func (r *rewriter) funcDecl(n *ast.FuncDecl) {
	if r.main && n.Recv == nil && n.Name.Name == "main" {
		r.rep(n.Name.Pos(), n.Name.End(), "gomcUserMain")
	}
	if n.Body == nil && n.Recv == nil && n.Doc != nil {
		for _, c := range n.Doc.List {
			if strings.HasPrefix(c.Text, "//go:linkname ") {
				switch {
				case strings.HasSuffix(c.Text, "runtime.procPin"):
					r.rep(c.Pos(), c.End(), "// procPin is modelled")
					r.ins(n.End(), " { return "+r.sh("rt")+".ProcPin() }")
				case strings.HasSuffix(c.Text, "runtime.procUnpin"):
					r.rep(c.Pos(), c.End(), "// procUnpin is modelled")
					r.ins(n.End(), " {}")
				}
			}
		}
	}
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	tv := r.info.Types[n.X]
	wrap := ""
	if tv.Type != nil {
		switch tv.Type.Underlying().(type) {
		case *types.Chan:
			wrap = "RangeChan"
		case *types.Map:
			wrap = "RangeMap"
		}
	}
	if n.Key != nil {
		r.walk(n.Key)
	}
	if n.Value != nil {
		r.walk(n.Value)
	}
	if wrap != "" {
		r.ins(n.X.Pos(), r.sh("rt")+"."+wrap+"(")
	}
	r.walk(n.X)
	if wrap != "" {
		r.ins(n.X.End(), ")")
	}
	r.walk(n.Body)
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	call := n.Call
	if lit, ok := unparen(call.Fun).(*ast.FuncLit); ok && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		if len(call.Args) == 0 {
			r.rep(n.Go, lit.Pos(), r.sh("rt")+".Go(")
			r.walk(lit)
			r.rep(lit.End(), call.End(), ")")
			return
		}
		r.rep(n.Go, call.Pos(), "")
		r.walk(lit.Type)
		r.ins(lit.Body.Lbrace+1, " "+r.sh("rt")+".Go(func() {")
		r.walk(lit.Body)
		r.ins(lit.Body.Rbrace, "})")
		for _, a := range call.Args {
			r.walk(a)
		}
		return
	}
	// builtins and conversions: evaluate late (no observable difference here)
	if tv, ok := r.info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		r.rep(n.Go, call.Pos(), r.sh("rt")+".Go(func() { ")
		r.walk(call)
		r.ins(call.End(), " })")
		return
	}
	var b strings.Builder
	b.WriteString("{ ")
	fmt.Fprintf(&b, "gomcF := %s; ", r.text(call.Fun))
	var args []string
	for i, a := range call.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() > 1 {
			args = append(args, r.text(a))
			continue
		}
		v := fmt.Sprintf("gomcA%d", i)
		fmt.Fprintf(&b, "%s := %s; ", v, r.text(a))
		args = append(args, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	fmt.Fprintf(&b, "%s.Go(func() { gomcF(%s%s) }) }", r.sh("rt"), strings.Join(args, ", "), ell)
	r.rep(n.Pos(), n.End(), b.String())
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label string) {
	if len(n.Body.List) == 0 {
		r.rep(n.Pos(), n.End(), "{ "+r.sh("rt")+`.BlockForever(); panic("unreachable") }`)
		return
	}
	r.nsel++
	id := r.nsel
	rtp := r.sh("rt")
	var head strings.Builder
	head.WriteString("{ ")
	var vars []string
	hasDefault := false
	i := 0
	for _, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			r.rep(cc.Pos(), cc.Colon+1, "default:")
			r.fineList(cc.Body)
			for _, s := range cc.Body {
				r.walk(s)
			}
			continue
		}
		v := fmt.Sprintf("gomcC%d_%d", id, i)
		vars = append(vars, v)
		assign := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&head, "%s := %s.SendC(%s)(%s); ", v, rtp, r.text(c.Chan), r.text(c.Value))
		case *ast.ExprStmt:
			u := recvExpr(c.X)
			fmt.Fprintf(&head, "%s := %s.RecvC(%s); ", v, rtp, r.text(u.X))
		case *ast.AssignStmt:
			u := recvExpr(c.Rhs[0])
			fmt.Fprintf(&head, "%s := %s.RecvC(%s); ", v, rtp, r.text(u.X))
			l0 := r.text(c.Lhs[0])
			if len(c.Lhs) == 2 {
				assign = fmt.Sprintf("%s, %s %s %s.V, %s.Ok; ", l0, r.text(c.Lhs[1]), c.Tok, v, v)
			} else {
				assign = fmt.Sprintf("%s %s %s.V; ", l0, c.Tok, v)
			}
			if c.Tok == token.DEFINE && len(c.Lhs) >= 1 {
				// Go rejects unused variables the same way in a select case
				_ = assign
			}
		}
		r.rep(cc.Pos(), cc.Colon+1, fmt.Sprintf("case %d: %s", i, assign))
		r.fineList(cc.Body)
		for _, s := range cc.Body {
			r.walk(s)
		}
		i++
	}
	fmt.Fprintf(&head, "%sswitch %s.Select(%v, %s) {", label, rtp, hasDefault, strings.Join(vars, ", "))
	r.rep(n.Pos(), n.Body.Lbrace+1, head.String())
	tail := "} }"
	if !hasDefault {
		tail = "default: panic(\"gomc: unreachable select\") } }"
	}
	r.rep(n.Body.Rbrace, n.Body.Rbrace+1, tail)
}

// simple reports whether re-evaluating an initialiser is harmless.
func (r *rewriter) simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.Ident:
		o := r.info.Uses[e]
		switch o.(type) {
		case *types.Const, *types.Nil, *types.Var, *types.Func:
			return true
		}
		return false
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[x].(*types.PkgName); ok {
				switch r.info.Uses[e.Sel].(type) {
				case *types.Const, *types.Func:
					return true
				}
				return false
			}
		}
		return r.simple(e.X)
	case *ast.ParenExpr:
		return r.simple(e.X)
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && r.simple(e.X)
	case *ast.BinaryExpr:
		return r.simple(e.X) && r.simple(e.Y)
	case *ast.CompositeLit:
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if !r.simple(kv.Value) {
					return false
				}
				continue
			}
			if !r.simple(x) {
				return false
			}
		}
		return true
	case *ast.CallExpr:
		if r.isBuiltin(e.Fun, "make") || r.isBuiltin(e.Fun, "new") {
			return true
		}
		// constructors of the module itself
		for _, a := range e.Args {
			if !r.simple(a) {
				return false
			}
		}
		fun := e.Fun
		if ix, ok := fun.(*ast.IndexExpr); ok {
			fun = ix.X
		}
		var id *ast.Ident
		switch f := fun.(type) {
		case *ast.Ident:
			id = f
		case *ast.SelectorExpr:
			id = f.Sel
		case *ast.FuncLit:
			return true
		}
		if id == nil {
			return false
		}
		if tn, ok := r.info.Uses[id].(*types.TypeName); ok && tn != nil {
			return true // conversion
		}
		fn, ok := r.info.Uses[id].(*types.Func)
		return ok && fn.Pkg() != nil && (fn.Pkg().Path() == "vsa" || strings.HasPrefix(fn.Pkg().Path(), "vsa/"))
	}
	return false
}

func (r *rewriter) resets() string {
	var b strings.Builder
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		if g.Doc != nil && strings.Contains(g.Doc.Text(), "go:") {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) == 0 && vs.Type != nil {
				for _, nm := range vs.Names {
					if nm.Name != "_" {
						fmt.Fprintf(&b, "%s = *new(%s); ", nm.Name, oneLine(r.text(vs.Type)))
					}
				}
				continue
			}
			if len(vs.Values) != len(vs.Names) {
				continue
			}
			for i, nm := range vs.Names {
				if nm.Name != "_" && r.simple(vs.Values[i]) {
					fmt.Fprintf(&b, "%s.TryReset(func() { %s = %s\n})\n", r.sh("rt"), nm.Name, r.text(vs.Values[i]))
				}
			}
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return "\nfunc init() { " + r.sh("rt") + ".OnReset(func() {\n" + b.String() + "\n}) }\n"
}

func oneLine(s string) string { return s }

func (r *rewriter) rewrite() string {
	for _, d := range r.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		r.walk(d)
	}
	resets := r.resets()
	// imports whose every use was rewritten
	total := map[types.Object]int{}
	for id, o := range r.info.Uses {
		if pn, ok := o.(*types.PkgName); ok && id.Pos() >= r.file.FileStart && id.Pos() < r.file.FileEnd {
			total[pn]++
		}
	}
	for _, sp := range r.file.Imports {
		var pn types.Object
		if sp.Name != nil {
			pn = r.info.Defs[sp.Name]
		} else {
			pn = r.info.Implicits[sp]
		}
		if pn == nil || sp.Name != nil && (sp.Name.Name == "_" || sp.Name.Name == ".") {
			continue
		}
		if n := total[pn]; n > 0 && r.uniqueRenames(pn) >= n {
			r.rep(sp.Pos(), sp.End(), "_ "+sp.Path.Value)
		}
	}
	var imp strings.Builder
	var us []string
	for p := range r.used {
		us = append(us, p)
	}
	sort.Strings(us)
	for _, p := range us {
		fmt.Fprintf(&imp, "; import gomc_%s %q", p, gomcPath+p)
	}
	r.ins(r.file.Name.End(), imp.String())
	return r.apply(r.edits, 0, len(r.src)) + resets
}

// uniqueRenames counts the distinct selector uses of pn that were rewritten.
func (r *rewriter) uniqueRenames(pn types.Object) int {
	n := 0
	for id, o := range r.info.Uses {
		if o == pn && id.Pos() >= r.file.FileStart && id.Pos() < r.file.FileEnd {
			if sel := r.selOf(id); sel != "" {
				if _, ok := table[pn.(*types.PkgName).Imported().Path()][sel]; ok {
					n++
				}
			}
		}
	}
	return n
}

func (r *rewriter) selOf(id *ast.Ident) string {
	out := ""
	ast.Inspect(r.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && s.X == ast.Expr(id) {
			out = s.Sel.Name
			return false
		}
		return out == ""
	})
	return out
}
