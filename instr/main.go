// Command instr prepares a build of the code under test in which every
// source of scheduling nondeterminism is owned by the controlled scheduler.
//
//	instr -repo /repo -shim /verif/shim -harness /verif/harness -out DIR [-stmt] [-plain]
//
// It writes rewritten copies of the non-test sources and DIR/overlay.json for
// 'go build -overlay'. It never looks at names of the code under test: the
// rewriting is driven by language constructs and imports only, and keeps line
// numbers.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vroot = "internal/zzverif"

var (
	repo    = flag.String("repo", "/repo", "")
	shim    = flag.String("shim", "/verif/shim", "")
	harness = flag.String("harness", "/verif/harness", "")
	out     = flag.String("out", "", "")
	stmt    = flag.Bool("stmt", true, "statement-level points")
	plain   = flag.Bool("plain", false, "no rewriting: overlay of the harness only")
	codec   = flag.String("codec", "", "directory of in-package tests that replace the package's own tests")
	extra   = flag.String("extra", "", "VIRTUAL=FILE,... additional overlay entries")
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
	Error *struct{ Err string }
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type file struct {
	src   []byte
	base  int
	edits []edit
}

func (f *file) off(p token.Pos) int { return fset.Position(p).Offset }

func (f *file) ins(p token.Pos, text string) { f.rep(p, p, text) }

func (f *file) rep(p, e token.Pos, text string) {
	a, b := f.off(p), f.off(e)
	if n := bytes.Count(f.src[a:b], []byte("\n")); n > 0 {
		text += strings.Repeat("\n", n)
	}
	f.edits = append(f.edits, edit{a, b, text, len(f.edits)})
}

var fset = token.NewFileSet()

func main() {
	flag.Parse()
	if *out == "" {
		fatal("missing -out")
	}
	check(os.MkdirAll(*out, 0o755))
	pkgs := list()
	exports := map[string]string{}
	var mains []*pkgInfo
	modPath := ""
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
			mains = append(mains, p)
		}
	}
	if modPath == "" {
		fatal("no main module")
	}
	overlay := map[string]string{}
	// the shims and the harness appear as packages of the module under test
	genExports(exports, modPath, overlay)
	if *codec != "" {
		fs, _ := filepath.Glob(filepath.Join(*repo, "*_test.go"))
		for _, f := range fs {
			overlay[f] = ""
		}
		fs, _ = filepath.Glob(filepath.Join(*codec, "*_test.go"))
		for _, f := range fs {
			overlay[filepath.Join(*repo, "zz_"+filepath.Base(f))] = f
		}
		b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
		check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
		fmt.Println(modPath)
		return
	}
	for _, d := range []string{"vs", "vsync", "vatomic", "vnet"} {
		addDir(overlay, filepath.Join(*shim, d), d, modPath)
	}
	addDir(overlay, *harness, "harness", modPath)
	if *extra != "" {
		for _, kv := range strings.Split(*extra, ",") {
			k, v, _ := strings.Cut(kv, "=")
			overlay[k] = v
		}
	}
	if !*plain {
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		for _, p := range mains {
			if strings.Contains(p.ImportPath, "zzverif") {
				continue
			}
			rewritePkg(p, modPath, imp, overlay)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	fmt.Println(modPath)
}

func list() (ps []*pkgInfo) {
	cmd := exec.Command("go", "list", "-e", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Error", "-export", "-deps", "./...", "time", "context", "net", "sync", "sync/atomic", "runtime")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		ps = append(ps, &p)
	}
	return
}

func addDir(overlay map[string]string, dir, name, modPath string) {
	es, err := os.ReadDir(dir)
	check(err)
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s")) {
			continue
		}
		src := filepath.Join(dir, n)
		dst := filepath.Join(*repo, vroot, name, n)
		if modPath != "github.com/jimsnab/kafka-mock-go" {
			b, err := os.ReadFile(src)
			check(err)
			b = bytes.ReplaceAll(b, []byte("github.com/jimsnab/kafka-mock-go"), []byte(modPath))
			src = filepath.Join(*out, "copy_"+name+"_"+n)
			check(os.WriteFile(src, b, 0o644))
		}
		overlay[dst] = src
	}
}

// genExports writes re-exporting packages for time, context and net.
func genExports(exports map[string]string, modPath string, overlay map[string]string) {
	imp := importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		return os.Open(exports[path])
	})
	gen := func(path, pkg string, skip map[string]bool, extraImports, extraCode string) {
		p, err := imp.Import(path)
		check(err)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\torig %q\n%s)\n\n", pkg, path, extraImports)
		for _, n := range p.Scope().Names() {
			if !ast.IsExported(n) || skip[n] {
				continue
			}
			switch o := p.Scope().Lookup(n).(type) {
			case *types.TypeName:
				if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = orig.%s\n", n, n)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = orig.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
			}
		}
		b.WriteString(extraCode)
		fn := filepath.Join(*out, "zz_"+pkg+".go")
		check(os.WriteFile(fn, []byte(b.String()), 0o644))
		overlay[filepath.Join(*repo, vroot, pkg, "zz_"+pkg+".go")] = fn
	}
	vs := "\t\"" + modPath + "/" + vroot + "/vs\"\n"
	gen("time", "vtime", set("Sleep", "AfterFunc"), vs, `
func Sleep(d Duration) { vs.Sleep(d) }

func AfterFunc(d Duration, f func()) *Timer {
	return orig.AfterFunc(d, func() { vs.Adopt(f) })
}
`)
	gen("context", "vcontext", set("AfterFunc"), vs, `
func AfterFunc(ctx Context, f func()) (stop func() bool) {
	return orig.AfterFunc(ctx, func() { vs.Adopt(f) })
}
`)
	gen("net", "vnet", set("Listen", "ListenTCP", "ListenConfig", "TCPConn", "TCPListener", "Dial", "DialTCP", "DialTimeout"), "", "")
}

func set(n ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range n {
		m[x] = true
	}
	return m
}

var replaced = map[string]string{
	"sync":        "vsync",
	"sync/atomic": "vatomic",
	"time":        "vtime",
	"context":     "vcontext",
	"net":         "vnet",
}

var defaultName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context", "net": "net",
}

func rewritePkg(p *pkgInfo, modPath string, imp types.Importer, overlay map[string]string) {
	var files []*ast.File
	var srcs [][]byte
	for _, n := range p.GoFiles {
		fn := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(fn)
		check(err)
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
		check(err)
		files = append(files, f)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check: %v", err)
	}
	mutated := findMutated(files, info)
	resets := resetCode(files, srcs, info)
	for i, f := range files {
		r := &rewriter{mutated: mutated, file: &file{src: srcs[i]}, info: info, pkg: pkg, mod: modPath}
		for k, d := range resets[i].inits {
			r.rep(d.Name.Pos(), d.Name.End(), fmt.Sprintf("zzvinit_%d_%d", i, k))
		}
		r.run(f)
		r.tail = resets[i].code
		o := filepath.Join(*out, "src_"+strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath), "/", "_")+"_"+p.GoFiles[i])
		check(os.WriteFile(o, r.apply(), 0o644))
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = o
	}
}

type resetInfo struct {
	inits []*ast.FuncDecl
	code  string
}

// resetCode generates, for every file, functions that bring the package-level
// variables back to their initial values; the last file registers them.
func resetCode(files []*ast.File, srcs [][]byte, info *types.Info) []resetInfo {
	res := make([]resetInfo, len(files))
	var zero, order, inits []string
	text := func(fi int, a, b token.Pos) string {
		return string(srcs[fi][fset.Position(a).Offset:fset.Position(b).Offset])
	}
	fileOf := map[string]int{}
	for i, f := range files {
		fileOf[fset.Position(f.Pos()).Filename] = i
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("zzvinit_%d_%d", i, len(res[i].inits))
					res[i].inits = append(res[i].inits, d)
					res[i].code += fmt.Sprintf("func init() { %s() }\n", n)
					inits = append(inits, n)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					v := sp.(*ast.ValueSpec)
					if len(v.Values) != 0 {
						continue
					}
					for _, id := range v.Names {
						if id.Name == "_" {
							continue
						}
						n := fmt.Sprintf("zzvzero_%d_%d", i, len(zero))
						res[i].code += fmt.Sprintf("func %s() { var zzv %s; %s = zzv }\n", n, text(i, v.Type.Pos(), v.Type.End()), id.Name)
						zero = append(zero, n)
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		lit := false
		ast.Inspect(in.Rhs, func(n ast.Node) bool {
			if _, is := n.(*ast.FuncLit); is {
				lit = true
			}
			return true
		})
		var names []string
		for _, v := range in.Lhs {
			names = append(names, v.Name())
		}
		if lit || len(names) == 1 && names[0] == "_" {
			continue
		}
		fi := fileOf[fset.Position(in.Rhs.Pos()).Filename]
		n := fmt.Sprintf("zzvset_%d_%d", fi, len(order))
		res[fi].code += fmt.Sprintf("func %s() { %s = %s }\n", n, strings.Join(names, ", "), text(fi, in.Rhs.Pos(), in.Rhs.End()))
		order = append(order, n)
	}
	all := append(append(zero, order...), inits...)
	if len(all) > 0 {
		res[len(files)-1].code += "func init() { vszz.OnReset(func() { " + strings.Join(all, "(); ") + "() }) }\n"
	}
	return res
}

type rewriter struct {
	*file
	tail string
	info *types.Info
	pkg  *types.Package
	mod  string

	mutated map[types.Object]bool
	// receive expressions and statements handled by their parents
	skipRecv map[ast.Node]bool
	two      map[ast.Node]bool
	captured map[types.Object]bool // variables used by a function literal they are declared outside of
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		// insertions before replacements at the same place
		if (a.end == a.pos) != (b.end == b.pos) {
			return a.end == a.pos
		}
		return a.seq < b.seq
	})
	var o bytes.Buffer
	at := 0
	for _, e := range r.edits {
		if e.pos < at {
			fatal("overlapping edits at offset %d", e.pos)
		}
		o.Write(r.src[at:e.pos])
		o.WriteString(e.text)
		at = e.end
	}
	o.Write(r.src[at:])
	o.WriteString("\n\nvar _ = vszz.Epoch\n" + r.tail)
	return o.Bytes()
}

func (r *rewriter) run(f *ast.File) {
	r.skipRecv = map[ast.Node]bool{}
	r.two = map[ast.Node]bool{}
	r.captured = map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
						r.captured[v] = true
					}
				}
				return true
			})
		}
		return true
	})
	r.ins(f.Name.End(), "; import vszz \""+r.mod+"/"+vroot+"/vs\"")
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := replaced[path]; ok {
			t := "\"" + r.mod + "/" + vroot + "/" + to + "\""
			if im.Name == nil {
				t = defaultName[path] + " " + t
			}
			r.rep(im.Path.Pos(), im.Path.End(), t)
		}
	}
	r.walk(f, nil)
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) recvOf(e ast.Expr) *ast.UnaryExpr {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) walk(n ast.Node, labels []*ast.LabeledStmt) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Body != nil {
				r.stmts(n.Body.List)
			}
		case *ast.FuncLit:
			r.stmts(n.Body.List)
		case *ast.BlockStmt:
			// lists of functions are handled above
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				r.ins(n.Pos(), "vszz.SelectBefore(); ")
				r.skipRecv[s] = true
			}
		case *ast.SelectStmt:
			if !r.skipRecv[n] {
				r.ins(n.Pos(), "vszz.SelectBefore(); ")
			}
			def := false
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					def = true
					continue
				}
				r.ins(cc.Colon+1, " vszz.SelectAfter(); ")
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					r.skipRecv[s] = true
				case *ast.ExprStmt:
					r.skipRecv[unparen(s.X)] = true
				case *ast.AssignStmt:
					r.skipRecv[unparen(s.Rhs[0])] = true
				}
			}
			if !def {
				r.ins(n.Body.Rbrace, "; case <-vszz.AbortCh(): vszz.Exit(); panic(\"unreachable\") ")
				if len(n.Body.List) == 0 {
					r.edits[len(r.edits)-1].text = " case <-vszz.AbortCh(): vszz.Exit(); panic(\"unreachable\") "
				}
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := r.recvOf(n.Rhs[0]); u != nil {
					r.two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := r.recvOf(n.Values[0]); u != nil {
					r.two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !r.skipRecv[n] {
				f := "vszz.Recv("
				if r.two[n] {
					f = "vszz.Recv2("
				}
				r.rep(n.OpPos, n.OpPos+2, f)
				r.ins(n.X.End(), ")")
			}
		case *ast.SendStmt:
			if !r.skipRecv[n] {
				r.ins(n.Pos(), "vszz.Send(")
				r.rep(n.Arrow, n.Arrow+2, ")(")
				r.ins(n.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" {
				if _, b := r.info.Uses[id].(*types.Builtin); b {
					r.rep(id.Pos(), id.End(), "vszz.Close")
				}
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && n.Sel.Name == "Gosched" {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" {
					r.rep(n.Pos(), n.End(), "vszz.Gosched")
					r.edits = append(r.edits, edit{len(r.src), len(r.src), "\nvar _ = " + id.Name + ".GOOS\n", len(r.edits)})
				}
			}
		case *ast.RangeStmt:
			r.rangeStmt(n)
		case *ast.GoStmt:
			r.goStmt(n)
		}
		return true
	})
}

// ---- range ----

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	t := r.typ(n.X)
	text := func(e ast.Expr) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	var kt, vt types.Type
	switch {
	case isMap(t):
		m := t.Underlying().(*types.Map)
		kt, vt = m.Key(), m.Elem()
	case isChan(t):
		kt = t.Underlying().(*types.Chan).Elem()
	default:
		return
	}
	decl := []string{}
	args := []string{}
	add := func(e ast.Expr, et types.Type) bool {
		if blank(e) {
			decl = append(decl, "_")
			args = append(args, "nil")
			return true
		}
		if n.Tok == token.DEFINE {
			decl = append(decl, text(e))
			args = append(args, "&"+text(e))
			return true
		}
		if lt := r.typ(e); lt == nil || !types.Identical(lt, et) {
			return false
		}
		if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(r.typ(ix.X)) {
			return false
		}
		decl = append(decl, "_")
		args = append(args, "&"+text(e))
		return true
	}
	if !add(n.Key, kt) {
		return
	}
	fn := "ChanIter"
	if vt != nil {
		fn = "MapIter"
		if !add(n.Value, vt) {
			return
		}
	}
	it := fmt.Sprintf("vszi%d", r.off(n.Pos()))
	r.rep(n.For, n.X.Pos(), "for "+it+", "+strings.Join(decl, ", ")+" := vszz."+fn+"(")
	r.ins(n.X.End(), "); "+it+".Next("+strings.Join(args, ", ")+"); ")
}

// ---- go ----

func (r *rewriter) goStmt(g *ast.GoStmt) {
	call := g.Call
	id := r.off(g.Pos())
	whole := func() {
		r.rep(g.Go, call.Pos(), "vszz.Go(func() { ")
		r.ins(call.End(), " })")
	}
	fun := unparen(call.Fun)
	if tv, ok := r.info.Types[fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		whole()
		return
	}
	if len(call.Args) == 1 {
		if tv, ok := r.info.Types[call.Args[0]]; ok {
			if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() != 1 {
				whole()
				return
			}
		}
	}
	static := false // the callee needs no evaluation
	switch f := fun.(type) {
	case *ast.Ident:
		_, static = r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if _, sel := r.info.Selections[f]; !sel {
			_, static = r.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv, ok := r.info.Types[f]; ok {
			if _, isSig := tv.Type.Underlying().(*types.Signature); isSig {
				var x ast.Expr
				if ie, ok := f.(*ast.IndexExpr); ok {
					x = ie.X
				} else {
					x = f.(*ast.IndexListExpr).X
				}
				switch x := x.(type) {
				case *ast.Ident:
					_, static = r.info.Uses[x].(*types.Func)
				case *ast.SelectorExpr:
					_, static = r.info.Uses[x.Sel].(*types.Func)
				}
			}
		}
	}
	constant := func(e ast.Expr) bool {
		tv, ok := r.info.Types[e]
		return ok && (tv.Value != nil || tv.IsNil())
	}
	evalArgs := false
	for _, a := range call.Args {
		if !constant(a) {
			evalArgs = true
		}
	}
	if static && !evalArgs {
		whole()
		return
	}
	if _, lit := fun.(*ast.FuncLit); lit && len(call.Args) == 0 {
		r.rep(g.Go, call.Fun.Pos(), "vszz.Go(")
		r.rep(call.Lparen, call.End(), ")")
		return
	}
	// { f, a0, a1 := fun, arg0, arg1; vszz.Go(func() { f(a0, a1) }) }
	var names, use []string
	callee := ""
	if !static {
		callee = fmt.Sprintf("vszf%d", id)
		names = append(names, callee)
	}
	for i, a := range call.Args {
		if constant(a) {
			use = append(use, string(r.src[r.off(a.Pos()):r.off(a.End())]))
			continue
		}
		nm := fmt.Sprintf("vsza%d_%d", id, i)
		names = append(names, nm)
		use = append(use, nm)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	head := "{ " + strings.Join(names, ", ") + " := "
	sep := ""
	if static {
		callee = string(r.src[r.off(call.Fun.Pos()):r.off(call.Fun.End())])
		r.rep(g.Go, call.Lparen+1, head)
	} else {
		r.rep(g.Go, call.Fun.Pos(), head)
		r.rep(call.Lparen, call.Lparen+1, "")
		sep = ", "
	}
	at := call.Lparen + 1
	for _, a := range call.Args {
		if constant(a) {
			r.rep(at, a.End(), "")
		} else {
			r.rep(at, a.Pos(), sep)
			sep = ", "
		}
		at = a.End()
	}
	r.rep(at, call.End(), "; vszz.Go(func() { "+callee+"("+strings.Join(use, ", ")+ell+") }) }")
}

// ---- statement-level points ----

func (r *rewriter) stmts(list []ast.Stmt) {
	if !*stmt {
		return
	}
	for _, s := range list {
		r.stmtPoint(s, true)
	}
}

func (r *rewriter) stmtPoint(s ast.Stmt, inList bool) {
	pos := s.Pos()
	mark := func(es ...ast.Node) {
		if !inList {
			return
		}
		for _, e := range es {
			if e != nil && r.shared(e) {
				r.ins(pos, "vszz.Stmt(); ")
				return
			}
		}
	}
	nn := func(e ast.Expr) ast.Node {
		if e == nil {
			return nil
		}
		return e
	}
	ns := func(e ast.Stmt) ast.Node {
		if e == nil {
			return nil
		}
		return e
	}
	switch s := s.(type) {
	case *ast.LabeledStmt:
		r.stmtPoint(s.Stmt, false)
	case *ast.AssignStmt:
		mark(s)
		r.splitAssign(s)
	case *ast.IncDecStmt:
		mark(s)
		if r.memory(s.X) && r.pure(s.X) {
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			x := string(r.src[r.off(s.X.Pos()):r.off(s.X.End())])
			r.rep(s.TokPos, s.End(), " = vszz.V("+x+" "+op+" 1)")
		}
	case *ast.ExprStmt:
		if call, ok := s.X.(*ast.CallExpr); ok && r.syncCall(call) {
			return // a scheduling point of its own
		}
		mark(s)
	case *ast.ReturnStmt, *ast.DeclStmt, *ast.SendStmt:
		mark(s)
	case *ast.IfStmt:
		mark(ns(s.Init), s.Cond)
		r.stmts(s.Body.List)
		for e := s.Else; e != nil; {
			switch b := e.(type) {
			case *ast.BlockStmt:
				r.stmts(b.List)
				e = nil
			case *ast.IfStmt:
				r.stmts(b.Body.List)
				e = b.Else
			default:
				e = nil
			}
		}
	case *ast.ForStmt:
		mark(ns(s.Init), nn(s.Cond))
		r.stmts(s.Body.List)
		if s.Cond != nil && r.shared(s.Cond) {
			r.ins(s.Body.Lbrace+1, " vszz.Stmt(); ")
		}
	case *ast.RangeStmt:
		if isMap(r.typ(s.X)) && inList {
			r.ins(pos, "vszz.Stmt(); ")
		} else {
			mark(s.X)
		}
		r.stmts(s.Body.List)
	case *ast.BlockStmt:
		r.stmts(s.List)
	case *ast.SwitchStmt:
		mark(ns(s.Init), nn(s.Tag))
		for _, c := range s.Body.List {
			r.stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range s.Body.List {
			r.stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			r.stmts(c.(*ast.CommClause).Body)
		}
	}
}

// syncCall reports whether call is a method of a sync or sync/atomic type on
// memory that is itself immutable.
func (r *rewriter) syncCall(call *ast.CallExpr) bool {
	se, ok := call.Fun.(*ast.SelectorExpr)
	if !ok || len(call.Args) > 1 {
		return false
	}
	f, ok := r.info.Uses[se.Sel].(*types.Func)
	if !ok || f.Pkg() == nil {
		return false
	}
	for _, a := range call.Args {
		if r.shared(a) {
			return false
		}
	}
	return f.Pkg().Path() == "sync" || f.Pkg().Path() == "sync/atomic"
}

func isSync(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// findMutated collects the fields that are written outside composite literals.
func findMutated(files []*ast.File, info *types.Info) map[types.Object]bool {
	mut := map[types.Object]bool{}
	var lhs func(e ast.Expr)
	lhs = func(e ast.Expr) {
		switch e := unparen(e).(type) {
		case *ast.SelectorExpr:
			if sel, ok := info.Selections[e]; ok && sel.Kind() == types.FieldVal {
				mut[sel.Obj()] = true
				// promoted through embedded structs
				if !isPtr(info.Types[e.X].Type) {
					lhs(e.X)
				}
			}
		case *ast.IndexExpr:
			if t := info.Types[e.X].Type; t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					lhs(e.X)
				}
			}
		case *ast.StarExpr:
			if t := info.Types[e].Type; t != nil {
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						mut[st.Field(i)] = true
					}
				}
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, e := range n.Lhs {
						lhs(e)
					}
				}
			case *ast.IncDecStmt:
				lhs(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					lhs(n.Key)
					if n.Value != nil {
						lhs(n.Value)
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					lhs(n.X)
				}
			case *ast.SliceExpr:
				lhs(n.X)
			case *ast.SelectorExpr:
				// a pointer-receiver method on an addressable field
				if sel, ok := info.Selections[n]; ok && sel.Kind() == types.MethodVal {
					if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil && isPtr(sig.Recv().Type()) {
						if t := info.Types[n.X].Type; t != nil && !isPtr(t) && !isSync(t) {
							lhs(n.X)
						}
					}
				}
			}
			return true
		})
	}
	return mut
}

// memory reports whether e denotes memory that may be shared.
func (r *rewriter) memory(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.SelectorExpr:
		if sel, ok := r.info.Selections[e]; ok {
			if sel.Kind() != types.FieldVal {
				return false
			}
			if isSync(r.typ(e)) {
				return false
			}
			if !r.mutated[sel.Obj()] {
				return r.memory(e.X)
			}
			return sel.Indirect() || isPtr(r.typ(e.X)) || r.memory(e.X)
		}
		_, isVar := r.info.Uses[e.Sel].(*types.Var)
		return isVar
	case *ast.IndexExpr:
		t := r.typ(e.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Map, *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return r.memory(e.X)
		}
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == r.pkg.Scope() || r.captured[v] {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// shared reports whether n (not looking into function literals) touches
// memory that may be shared.
func (r *rewriter) shared(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case ast.Expr:
			if tv, ok := r.info.Types[n]; ok && tv.IsType() {
				return false
			}
			if call, ok := n.(*ast.CallExpr); ok && len(call.Args) > 0 && isMap(r.typ(call.Args[0])) {
				if tv, ok := r.info.Types[call.Fun]; ok && tv.IsBuiltin() {
					found = true // len, delete, clear of a map
					return false
				}
			}
			if r.memory(n) {
				found = true
				return false
			}
		}
		return true
	})
	return found
}

func (r *rewriter) pure(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.IndexExpr:
		return r.pure(e.X) && r.pure(e.Index)
	case *ast.StarExpr:
		return r.pure(e.X)
	}
	return false
}

func (r *rewriter) splitAssign(s *ast.AssignStmt) {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !r.memory(s.Lhs[0]) {
		return
	}
	tv, ok := r.info.Types[s.Rhs[0]]
	if !ok {
		return
	}
	switch s.Tok {
	case token.ASSIGN:
		if tv.Value != nil || tv.IsNil() {
			return
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		r.ins(s.Rhs[0].Pos(), "vszz.V(")
		r.ins(s.Rhs[0].End(), ")")
	case token.DEFINE:
	default:
		if !r.pure(s.Lhs[0]) || s.Tok == token.SHL_ASSIGN || s.Tok == token.SHR_ASSIGN {
			return
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		x := string(r.src[r.off(s.Lhs[0].Pos()):r.off(s.Lhs[0].End())])
		r.rep(s.TokPos, s.TokPos+token.Pos(len(s.Tok.String())), "= vszz.V("+x+" "+op+" (")
		r.ins(s.Rhs[0].End(), "))")
	}
}

var _ = constant.MakeBool

func check(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}
