// Command instr instruments the packages of the Go module in -repo for deterministic simulation.
//
// It writes instrumented copies of the sources, an overlay file for "go build -overlay" and a list of
// instrumentation sites to -out. Nothing is written to the module itself.
//
// Inserted code (all on the same source line, so that line numbers are unchanged):
//   - verifsim.Y(site)            before every statement, at the start of every loop body and after deferred calls: scheduling point;
//   - verifsim.RP(site, &x), … inside of expressions, around accesses to memory that can be shared between
//     goroutines: data race detection;
//   - range statements over maps iterate in an order chosen by the simulator.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Kind string `json:"kind"`
	Text string `json:"text"`
}

var (
	fset  = token.NewFileSet()
	lps   = map[string]*listPkg{}
	cache = map[string]*types.Package{}
	sites []site

	simPath string
)

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

type imp struct{ lp *listPkg }

func (i imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if i.lp != nil {
		if m, ok := i.lp.ImportMap[path]; ok {
			path = m
		}
	}
	if p, ok := cache[path]; ok && p != nil {
		return p, nil
	}
	lp, ok := lps[path]
	if !ok {
		return nil, fmt.Errorf("package %s not listed", path)
	}
	files := []*ast.File{}
	for _, f := range lp.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil && af == nil {
			return nil, err
		}
		files = append(files, af)
	}
	conf := types.Config{Importer: imp{lp}, IgnoreFuncBodies: true, Error: func(error) {}, FakeImportC: true}
	p, _ := conf.Check(path, fset, files, nil)
	cache[path] = p
	return p, nil
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	rt := flag.String("rt", "", "directory with the runtime package and the harness")
	mode := flag.String("mode", "full", "full, yield or none")
	roots := flag.String("roots", "./cmd/fbdl,./pkg/fbdl", "root packages")
	plain := flag.String("plain", "", "output files (as f012) without access tracking")
	bare := flag.String("bare", "", "output files without instrumentation")
	native := flag.Bool("native", false, "list the files for the machine it runs on, to test the instrumenter itself")
	flag.Parse()

	cmd := exec.Command("go", append([]string{"list", "-deps", "-json=ImportPath,Dir,GoFiles,ImportMap,Standard,Module"}, strings.Split(*roots, ",")...)...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOOS=wasip1", "GOARCH=wasm", "CGO_ENABLED=0")
	if *native {
		cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	}
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(o)))
	mainMod := ""
	order := []*listPkg{}
	for dec.More() {
		lp := &listPkg{}
		if err := dec.Decode(lp); err != nil {
			fatal("%v", err)
		}
		lps[lp.ImportPath] = lp
		if lp.Module != nil && lp.Module.Main {
			mainMod = lp.Module.Path
			order = append(order, lp)
		}
	}
	if mainMod == "" {
		fatal("no main module package found")
	}
	simPath = mainMod + "/internal"

	replace := map[string]string{}
	must(os.MkdirAll(*out, 0o755))
	// Runtime package and harness.
	must(os.MkdirAll(filepath.Join(*out, "rt"), 0o755))
	rtFiles, err := filepath.Glob(filepath.Join(*rt, "*.txt"))
	if err != nil || len(rtFiles) == 0 {
		fatal("no runtime files")
	}
	for _, f := range rtFiles {
		b, err := os.ReadFile(f)
		must(err)
		s := strings.ReplaceAll(string(b), "MAINMOD", mainMod)
		base := strings.TrimSuffix(filepath.Base(f), ".txt")
		dst := filepath.Join(*out, "rt", base)
		must(os.WriteFile(dst, []byte(s), 0o644))
		dir := "internal"
		if strings.HasPrefix(base, "harness") {
			dir = "cmd/verifharness"
		}
		replace[filepath.Join(*repo, dir, base)] = dst
	}

	if *mode != "none" {
		n := 0
		for _, lp := range order {
			if lp.ImportPath == simPath {
				continue
			}
			instrumentPkg(lp, *out, *mode == "full", *plain, *bare, replace, &n)
		}
	}

	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(map[string]any{"sites": sites, "envs": slices.Sorted(maps.Keys(envs)), "mode": *mode, "module": mainMod})
	must(os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644))
	fmt.Printf("instrumented %d packages, %d sites\n", len(order), len(sites))
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func instrumentPkg(lp *listPkg, out string, access bool, plain, bare string, replace map[string]string, n *int) {
	files := []*ast.File{}
	srcs := [][]byte{}
	paths := []string{}
	for _, f := range lp.GoFiles {
		p := filepath.Join(lp.Dir, f)
		b, err := os.ReadFile(p)
		must(err)
		af, err := parser.ParseFile(fset, p, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, b)
		paths = append(paths, p)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp{lp}, Error: func(error) {}}
	tp, _ := conf.Check(lp.ImportPath, fset, files, info)
	if lp.ImportPath != "main" && tp != nil && tp.Name() != "main" {
		cache[lp.ImportPath] = tp
	}
	for i, af := range files {
		num := fmt.Sprintf("f%03d", *n)
		if strings.Contains(bare, num) {
			*n++
			continue
		}
		access := access && !strings.Contains(plain, num)
		fi := &fileInstr{
			pkg: tp, info: info, file: af, src: srcs[i], path: paths[i], access: access,
			captured: map[types.Object]bool{},
		}
		fi.tf = fset.File(af.Pos())
		fi.run()
		dst := filepath.Join(out, num+"_"+filepath.Base(paths[i]))
		*n++
		must(os.WriteFile(dst, fi.apply(), 0o644))
		replace[paths[i]] = dst
	}
}

type edit struct {
	off, end int // replaced range
	text     string
	seq      int
}

type fileInstr struct {
	pkg      *types.Package
	info     *types.Info
	file     *ast.File
	tf       *token.File
	src      []byte
	path     string
	access   bool
	edits    []edit
	captured map[types.Object]bool
	used     bool
}

func (f *fileInstr) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *fileInstr) text(n ast.Node) string {
	return string(f.src[f.off(n.Pos()):f.off(n.End())])
}

func (f *fileInstr) newSite(kind string, n ast.Node) int {
	p := fset.Position(n.Pos())
	t := f.text(n)
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	if len(t) > 80 {
		t = t[:80]
	}
	id := len(sites)
	sites = append(sites, site{id, fmt.Sprintf("%s:%d:%d", p.Filename, p.Line, p.Column), kind, t})
	return id
}

func (f *fileInstr) insert(off int, s string) {
	f.edits = append(f.edits, edit{off, off, s, len(f.edits)})
	f.used = true
}

func (f *fileInstr) replaceRange(off, end int, s string) {
	f.edits = append(f.edits, edit{off, end, s, len(f.edits)})
	f.used = true
}

func (f *fileInstr) apply() []byte {
	if f.used {
		f.insert(f.off(f.file.Name.End()), fmt.Sprintf("; import verifsim %q", simPath))
	}
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b []byte
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			fatal("overlapping edits in %s at %d", f.path, e.off)
		}
		b = append(b, f.src[pos:e.off]...)
		b = append(b, e.text...)
		pos = e.end
	}
	b = append(b, f.src[pos:]...)
	return b
}

func (f *fileInstr) run() {
	// Find captured variables.
	ast.Inspect(f.file, func(n ast.Node) bool {
		lit, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := f.info.Uses[id].(*types.Var)
			if ok && !v.IsField() && (v.Pos() < lit.Pos() || v.Pos() >= lit.End()) {
				f.captured[v] = true
			}
			return true
		})
		return true
	})
	for _, d := range f.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			// Function literals in package-level variable initialisers.
			ast.Inspect(d, func(n ast.Node) bool {
				if lit, ok := n.(*ast.FuncLit); ok {
					f.funcBody(lit.Body)
					return false
				}
				return true
			})
			continue
		}
		f.funcBody(fd.Body)
	}
	f.machine()
}

// Functions of the standard library that tell properties of the machine or of the process: answered by the simulator.
var machine = map[string]string{
	"runtime.NumCPU": "NumCPU", "runtime.GOMAXPROCS": "GOMAXPROCS", "os.Getpid": "Getpid", "os.Getppid": "Getppid", "os.Getuid": "Getuid",
	"os.Geteuid": "Getuid", "os.Hostname": "Hostname", "syscall.Getpid": "Getpid",
}

// Names of the environment variables the program asks for.
var envs = map[string]bool{}

func (f *fileInstr) machine() {
	if f.info == nil {
		return
	}
	kept := map[string]bool{}
	ast.Inspect(f.file, func(n ast.Node) bool {
		if call, ok := n.(*ast.CallExpr); ok && len(call.Args) == 1 { // names of environment variables
			if sel, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr); ok {
				fn, _ := f.info.Uses[sel.Sel].(*types.Func)
				tv := f.info.Types[call.Args[0]]
				if fn != nil && fn.Pkg() != nil && (fn.Pkg().Path() == "os" || fn.Pkg().Path() == "syscall") && (fn.Name() == "Getenv" || fn.Name() == "LookupEnv") && tv.Value != nil && tv.Value.Kind() == constant.String {
					envs[constant.StringVal(tv.Value)] = true
				}
			}
		}
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		fn, ok := f.info.Uses[sel.Sel].(*types.Func)
		if !ok || fn.Pkg() == nil || fn.Type().(*types.Signature).Recv() != nil {
			return true
		}
		by, ok := machine[fn.Pkg().Path()+"."+fn.Name()]
		if !ok {
			return true
		}
		text := f.text(sel)
		f.replaceRange(f.off(sel.Pos()), f.off(sel.End()), "verifsim."+by)
		if !kept[text] { // the import stays in use
			kept[text] = true
			f.insert(len(f.src), "\nvar _ = "+text+"\n")
		}
		return true
	})
}

func (f *fileInstr) funcBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		f.insert(f.off(b.Lbrace)+1, fmt.Sprintf(" verifsim.Y(%d); ", f.newSite("entry", b)))
	}
	f.stmts(b.List)
}

func (f *fileInstr) lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if lit, ok := n.(*ast.FuncLit); ok {
			f.funcBody(lit.Body)
			return false
		}
		return true
	})
}

func (f *fileInstr) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		inner := s
		for {
			if l, ok := inner.(*ast.LabeledStmt); ok {
				inner = l.Stmt
				continue
			}
			break
		}
		if _, ok := inner.(*ast.EmptyStmt); ok {
			continue
		}
		f.insert(f.off(s.Pos()), fmt.Sprintf("verifsim.Y(%d); ", f.newSite("stmt", inner)))
		if _, ok := inner.(*ast.DeferStmt); ok { // also between the deferred call and what follows it, as a panic
			f.insert(f.off(s.Pos()), fmt.Sprintf("defer verifsim.Y(%d); ", f.newSite("deferred", inner)))
		}
		post := ""
		if f.access && f.info != nil {
			k := len(f.edits)
			f.insert(f.off(s.Pos()), "")
			if l, ok := s.(*ast.LabeledStmt); ok && l != nil {
				f.edits[k].text = ""
			}
			var pre string
			pre, post = f.header(inner)
			f.edits[k].text = pre
		}
		f.stmt(inner)
		if post != "" {
			f.insert(f.off(s.End()), "; "+strings.TrimSuffix(post, "; "))
		}
	}
}

func (f *fileInstr) loopBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		f.insert(f.off(b.Lbrace)+1, fmt.Sprintf(" verifsim.Y(%d); ", f.newSite("loop", b)))
	}
	f.stmts(b.List)
}

func (f *fileInstr) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		f.stmts(s.List)
	case *ast.IfStmt:
		if s.Init != nil {
			f.lits(s.Init)
		}
		f.lits(s.Cond)
		f.stmts(s.Body.List)
		if s.Else != nil {
			f.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			f.lits(s.Init)
		}
		if s.Cond != nil {
			f.lits(s.Cond)
		}
		if s.Post != nil {
			f.lits(s.Post)
		}
		f.loopBody(s.Body)
	case *ast.RangeStmt:
		f.rangeStmt(s)
	case *ast.SwitchStmt:
		if s.Init != nil {
			f.lits(s.Init)
		}
		if s.Tag != nil {
			f.lits(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				f.lits(e)
			}
			f.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			f.lits(s.Init)
		}
		f.lits(s.Assign)
		for _, c := range s.Body.List {
			f.stmts(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm != nil {
				f.lits(cc.Comm)
			}
			f.stmts(cc.Body)
		}
	case *ast.LabeledStmt:
		f.stmt(s.Stmt)
	default:
		f.lits(s)
	}
}

func (f *fileInstr) rangeStmt(s *ast.RangeStmt) {
	f.lits(s.X)
	defer f.loopBody(s.Body)
	if !f.rangeMap(s) && f.access {
		f.rexpr(s.X, false)
		f.rangeElems(s)
	}
}

// rangeElems announces the reads of the elements of a slice.
func (f *fileInstr) rangeElems(s *ast.RangeStmt) {
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if s.Key == nil || s.Value == nil || blank(s.Value) || s.Tok != token.DEFINE || !f.isSlice(s.X) || !f.pathOK(s.X) || strings.Contains(f.text(s.X), "\n") {
		return
	}
	for _, e := range []ast.Expr{s.Key, s.Value} { // the name is another one in the body
		if id, ok := e.(*ast.Ident); !ok || mentions(s.X, id.Name) {
			return
		}
	}
	id := f.newSite("R", s.X)
	k := f.text(s.Key)
	if blank(s.Key) {
		k = fmt.Sprintf("verifI%d", id)
		f.replaceRange(f.off(s.Key.Pos()), f.off(s.Key.End()), k)
	}
	f.insert(f.off(s.Body.Lbrace)+1, fmt.Sprintf(" verifsim.RE(%d, %s, %s); ", id, f.text(s.X), k))
}

func mentions(e ast.Expr, name string) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			r = true
		}
		return !r
	})
	return r
}

// rangeMap replaces the iteration over a map by one in an order chosen by the simulator.
func (f *fileInstr) rangeMap(s *ast.RangeStmt) bool {
	t := f.info.TypeOf(s.X)
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return false
	}
	if s.Key == nil || calls(f.info, s.X) > 0 || hasLit(s.X) {
		return false
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	if blank(s.Key) && blank(s.Value) {
		return false
	}
	// The map expression must not be assigned inside the loop.
	mtext := f.text(s.X)
	bad := false
	ast.Inspect(s.Body, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok {
			for _, l := range as.Lhs {
				if f.text(l) == mtext {
					bad = true
				}
			}
		}
		return true
	})
	if bad {
		return false
	}
	id := f.newSite("map", s.X)
	if _, ok := s.X.(*ast.StarExpr); ok {
		mtext = "(" + mtext + ")"
	}
	k := fmt.Sprintf("verifK%d", id)
	ok := fmt.Sprintf("verifOK%d", id)
	f.replaceRange(f.off(s.Key.Pos()), f.off(s.X.End()), fmt.Sprintf("_, %s := range verifsim.Keys(%d, %s)", k, id, mtext))
	b := strings.Builder{}
	vtext := "_"
	if !blank(s.Value) {
		vtext = f.text(s.Value)
	}
	if s.Tok == token.DEFINE {
		fmt.Fprintf(&b, " %s, %s := %s[%s]; if !%s { continue }; ", vtext, ok, mtext, k, ok)
		if !blank(s.Key) {
			fmt.Fprintf(&b, "%s := %s; ", f.text(s.Key), k)
		}
	} else {
		fmt.Fprintf(&b, " var %s bool; %s, %s = %s[%s]; if !%s { continue }; ", ok, vtext, ok, mtext, k, ok)
		if !blank(s.Key) {
			fmt.Fprintf(&b, "%s = %s; ", f.text(s.Key), k)
		}
	}
	f.insert(f.off(s.Body.Lbrace)+1, b.String())
	return true
}

func hasLit(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			r = true
		}
		return !r
	})
	return r
}

// calls returns the number of calls in n other than conversions and harmless builtins; receive operations count as calls.
func calls(info *types.Info, n ast.Node) int {
	c := 0
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				c++
			}
		case *ast.CallExpr:
			if isCall(info, n) {
				c++
			}
		}
		return true
	})
	return c
}

func isCall(info *types.Info, n *ast.CallExpr) bool {
	tv, ok := info.Types[n.Fun]
	if !ok {
		return true
	}
	if tv.IsType() {
		return false
	}
	if tv.IsBuiltin() {
		fun := n.Fun
		for {
			p, ok := fun.(*ast.ParenExpr)
			if !ok {
				break
			}
			fun = p.X
		}
		if id, ok := fun.(*ast.Ident); ok {
			switch id.Name {
			case "append", "len", "cap", "copy", "delete", "make", "new", "min", "max":
				return false
			}
		}
		return true
	}
	return true
}

// ---------- accesses ----------
//
// Reads and writes are announced inside the expressions, at the place where they happen: x.f becomes
// (*verifsim.RP(site, &x.f)), m[k] becomes verifsim.MRP(site, m)[k]. Go leaves open whether a variable is read before or after a
// call that follows it in the same expression; such reads (after == true) are not announced.

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *fileInstr) wrap(e ast.Expr, kind, fn, pre, post string, inner func()) {
	f.insert(f.off(e.Pos()), fmt.Sprintf("%sverifsim.%s(%d, ", pre, fn, f.newSite(kind, e)))
	inner()
	f.insert(f.off(e.End()), ")"+post)
}

// wrapLoc announces an access of location e; the result denotes the same location.
func (f *fileInstr) wrapLoc(e ast.Expr, kind, fn string, inner func()) {
	f.insert(f.off(e.Pos()), fmt.Sprintf("(*verifsim.%s(%d, &", fn, f.newSite(kind, e)))
	inner()
	f.insert(f.off(e.End()), "))")
}

func (f *fileInstr) under(e ast.Expr) types.Type {
	t := f.info.TypeOf(e)
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if _, ok := t.(*types.TypeParam); ok {
		return types.Typ[types.Invalid]
	}
	return t.Underlying()
}

func (f *fileInstr) isMap(e ast.Expr) bool { _, ok := f.under(e).(*types.Map); return ok }
func (f *fileInstr) isPtr(e ast.Expr) bool { _, ok := f.under(e).(*types.Pointer); return ok }
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isSlice tells whether e is a slice of elements that are tracked.
func (f *fileInstr) isSlice(e ast.Expr) bool {
	t, ok := f.under(e).(*types.Slice)
	return ok && !isByte(t.Elem())
}

func (f *fileInstr) calls(es ...ast.Expr) bool {
	for _, e := range es {
		if e != nil && calls(f.info, e) > 0 {
			return true
		}
	}
	return false
}

// shared tells whether the location denoted by e is addressable and may be reachable from another goroutine.
func (f *fileInstr) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return f.shared(e.X)
	case *ast.Ident:
		v, ok := f.info.Uses[e].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil {
			return false
		}
		return v.Parent() == v.Pkg().Scope() || f.captured[v]
	case *ast.SelectorExpr:
		sel, ok := f.info.Selections[e]
		if !ok {
			v, ok := f.info.Uses[e.Sel].(*types.Var)
			return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return sel.Indirect() || f.shared(e.X)
	case *ast.IndexExpr:
		switch t := f.under(e.X).(type) {
		case *types.Slice:
			return !isByte(t.Elem())
		case *types.Array:
			return f.shared(e.X)
		case *types.Pointer:
			return true
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// rexprs instruments values that are evaluated one after another.
func (f *fileInstr) rexprs(es []ast.Expr, after bool) {
	for i, e := range es {
		f.rexpr(e, after || f.calls(es[i+1:]...))
	}
}

// rexpr instruments an expression which value is used.
func (f *fileInstr) rexpr(e ast.Expr, after bool) {
	if e == nil {
		return
	}
	tv, ok := f.info.Types[e]
	if _, id := e.(*ast.Ident); !id && (!ok || tv.Type == nil) {
		return
	}
	if ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin()) {
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		f.rexpr(e.X, after)
	case *ast.Ident:
		if f.shared(e) && !after {
			f.wrapLoc(e, "R", "RP", func() {})
		}
	case *ast.SelectorExpr:
		sel, ok := f.info.Selections[e]
		if ok && sel.Kind() == types.MethodExpr {
			return
		}
		if ok && sel.Kind() == types.MethodVal {
			f.recv(e, sel, after)
			return
		}
		if f.shared(e) && !after {
			f.wrapLoc(e, "R", "RP", func() { f.addr(e, after) })
		} else {
			f.addr(e, after)
		}
	case *ast.IndexExpr:
		switch f.under(e.X).(type) {
		case *types.Signature:
			return
		case *types.Map:
			if after || f.calls(e.Index) {
				f.rexpr(e.X, true)
			} else {
				f.wrap(e.X, "MR", "MRP", "", "", func() { f.rexpr(e.X, false) })
			}
			f.rexpr(e.Index, after)
			return
		case *types.Slice, *types.Array, *types.Pointer, *types.Basic:
		default:
			return
		}
		if f.shared(e) && !after {
			f.wrapLoc(e, "R", "RP", func() { f.addr(e, after) })
		} else {
			f.addr(e, after)
		}
	case *ast.StarExpr:
		if after {
			f.rexpr(e.X, after)
		} else {
			f.wrapLoc(e, "R", "RP", func() { f.rexpr(e.X, after) })
		}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			f.addr(e.X, after)
		case token.ARROW:
			f.rexpr(e.X, false)
		default:
			f.rexpr(e.X, after)
		}
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			f.rexpr(e.X, after)
		} else {
			f.rexpr(e.X, after || f.calls(e.Y))
		}
		f.rexpr(e.Y, after)
	case *ast.CallExpr:
		f.call(e, after)
	case *ast.SliceExpr:
		later := after || f.calls(e.Low, e.High, e.Max)
		if _, ok := f.under(e.X).(*types.Array); ok {
			f.addr(e.X, later)
		} else {
			f.rexpr(e.X, later)
		}
		f.rexpr(e.Low, after || f.calls(e.High, e.Max))
		f.rexpr(e.High, after || f.calls(e.Max))
		f.rexpr(e.Max, after)
	case *ast.TypeAssertExpr:
		f.rexpr(e.X, after)
	case *ast.CompositeLit:
		_, isStruct := f.under(e).(*types.Struct)
		if t := f.info.TypeOf(e); t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				_, isStruct = p.Elem().Underlying().(*types.Struct)
			}
		}
		for i, el := range e.Elts {
			later := after
			for _, x := range e.Elts[i+1:] {
				later = later || f.calls(x)
			}
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					f.rexpr(kv.Key, later || f.calls(kv.Value))
				}
				f.rexpr(kv.Value, later)
			} else {
				f.rexpr(el, later)
			}
		}
	}
}

// addr instruments the operands of a location that is not read itself.
func (f *fileInstr) addr(e ast.Expr, after bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		f.addr(e.X, after)
	case *ast.Ident:
	case *ast.SelectorExpr:
		if sel, ok := f.info.Selections[e]; !ok || sel.Kind() != types.FieldVal {
			if ok {
				f.rexpr(e, after)
			}
			return
		}
		if f.isPtr(e.X) {
			f.rexpr(e.X, after)
		} else {
			f.addr(e.X, after)
		}
	case *ast.IndexExpr:
		switch f.under(e.X).(type) {
		case *types.Slice, *types.Pointer, *types.Basic:
			f.rexpr(e.X, after || f.calls(e.Index))
			f.rexpr(e.Index, after)
		case *types.Array:
			f.addr(e.X, after || f.calls(e.Index))
			f.rexpr(e.Index, after)
		default:
			f.rexpr(e, after)
		}
	case *ast.StarExpr:
		f.rexpr(e.X, after)
	default:
		f.rexpr(e, after)
	}
}

// Types of the standard library that must not be used by several goroutines at once, and their methods that only read.
var unsafeTypes = map[string]bool{
	"bytes.Buffer": true, "strings.Builder": true, "bufio.Writer": true, "bufio.Reader": true, "bufio.Scanner": true, "bufio.ReadWriter": true,
	"math/rand.Rand": true, "math/rand/v2.Rand": true, "encoding/json.Encoder": true, "encoding/json.Decoder": true, "text/tabwriter.Writer": true,
	"container/list.List": true, "strings.Reader": true, "bytes.Reader": true, "text/scanner.Scanner": true,
}
var readMethods = map[string]bool{"Len": true, "Cap": true, "String": true, "Bytes": true, "Available": true, "Buffered": true, "Err": true, "Text": true, "Size": true, "Front": true, "Back": true}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

// recv instruments the receiver of a method.
func (f *fileInstr) recv(e *ast.SelectorExpr, sel *types.Selection, after bool) {
	fn, ok := sel.Obj().(*types.Func)
	if !ok {
		return
	}
	sig := fn.Type().(*types.Signature)
	xt := f.info.TypeOf(e.X)
	if sig.Recv() == nil || xt == nil {
		return
	}
	if _, ok := xt.(*types.TypeParam); ok {
		return
	}
	_, ptrRecv := sig.Recv().Type().(*types.Pointer)
	_, xIface := xt.Underlying().(*types.Interface)
	_, xPtr := xt.Underlying().(*types.Pointer)
	direct := len(sel.Index()) == 1
	switch {
	case xIface:
		if n := fn.Name(); !after && (n == "Write" || n == "WriteString" || n == "WriteByte" || n == "WriteRune") {
			f.wrap(e.X, "W", "IW", "", "", func() { f.rexpr(e.X, after) })
		} else {
			f.rexpr(e.X, after)
		}
	case ptrRecv && direct && unsafeTypes[typeName(sig.Recv().Type())] && !after && (xPtr || f.shared(e.X)):
		k, by := "W", "WP"
		if readMethods[fn.Name()] {
			k, by = "R", "RP"
		}
		if xPtr {
			f.wrap(e.X, k, by, "", "", func() { f.rexpr(e.X, after) })
		} else {
			f.insert(f.off(e.X.Pos()), fmt.Sprintf("verifsim.%s(%d, &", by, f.newSite(k, e.X)))
			f.addr(e.X, after)
			f.insert(f.off(e.X.End()), ")")
		}
	case !ptrRecv && direct && xPtr && !after:
		// The receiver is copied through the pointer.
		f.wrap(e.X, "R", "RP", "", "", func() { f.rexpr(e.X, after) })
	case xPtr || (!ptrRecv && direct):
		f.rexpr(e.X, after)
	default:
		f.addr(e.X, after)
	}
}

func (f *fileInstr) callee(e ast.Expr) *types.Func {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		fn, _ := f.info.Uses[e].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := f.info.Uses[e.Sel].(*types.Func)
		return fn
	case *ast.IndexExpr:
		return f.callee(e.X)
	}
	return nil
}

func (f *fileInstr) call(c *ast.CallExpr, after bool) {
	tv, ok := f.info.Types[c.Fun]
	if !ok {
		return
	}
	if tv.IsType() {
		f.rexprs(c.Args, after)
		return
	}
	if tv.IsBuiltin() {
		f.builtin(c, after)
		return
	}
	f.rexpr(c.Fun, f.calls(c.Args...))
	name, special := "", -1
	fn := f.callee(c.Fun)
	if fn != nil && fn.Pkg() != nil && fn.Type().(*types.Signature).Recv() == nil {
		name = fn.Pkg().Path() + "." + fn.Name()
	}
	reads, writes := f.reflects(fn, c)
	if len(c.Args) > 0 {
		switch {
		case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "io.Copy":
			special = 0
		case strings.HasPrefix(name, "sync/atomic."):
			special = 0
		case name == "sort.Slice" || name == "sort.Sort" || name == "sort.Stable" || name == "sort.SliceStable" || name == "sort.Ints" || name == "sort.Strings" || name == "sort.Float64s" || strings.HasPrefix(name, "slices.Sort") || name == "slices.Reverse":
			special = 0
		case name == "encoding/json.Unmarshal" && len(c.Args) == 2:
			special = 1
		}
	}
	for i, a := range c.Args {
		later := f.calls(c.Args[i+1:]...)
		inner := func() { f.rexpr(a, later) }
		if i != special && !later && !c.Ellipsis.IsValid() {
			switch f.under(a).(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
				if tv := f.info.Types[a]; tv.IsNil() {
					break
				}
				if reads != "" {
					f.insert(f.off(a.Pos()), fmt.Sprintf("verifsim.IR(%d, %s, ", f.newSite("R", a), reads))
					inner()
					f.insert(f.off(a.End()), ")")
					continue
				}
				if writes && f.isPtr(a) {
					f.wrap(a, "W", "WP", "", "", inner)
					continue
				}
			}
		}
		if i != special || later {
			inner()
			continue
		}
		switch {
		case strings.HasPrefix(name, "sync/atomic."):
			if f.isPtr(a) {
				by := "AT"
				if strings.HasPrefix(name, "sync/atomic.Load") {
					by = "AR"
				}
				f.wrap(a, "A", by, "", "", inner)
			} else {
				inner()
			}
		case strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "io."):
			f.wrap(a, "W", "IW", "", "", inner)
		case special == 1:
			if f.isPtr(a) {
				f.wrap(a, "W", "WP", "", "", inner)
			} else {
				inner()
			}
		default:
			if f.isSlice(a) {
				f.wrap(a, "W", "SS", "", "", inner)
			} else {
				inner()
			}
		}
	}
}

// reflects tells whether fn reads what its arguments refer to ("true": with everything reachable), or writes it.
func (f *fileInstr) reflects(fn *types.Func, c *ast.CallExpr) (reads string, writes bool) {
	if fn == nil || fn.Pkg() == nil {
		return "", false
	}
	n := fn.Name()
	switch fn.Pkg().Path() {
	case "fmt", "log":
		if strings.HasPrefix(n, "Sscan") || strings.HasPrefix(n, "Fscan") || strings.HasPrefix(n, "Scan") {
			return "", true
		}
		for _, p := range []string{"Print", "Sprint", "Fprint", "Append", "Errorf", "Fatal", "Panic"} {
			if !strings.HasPrefix(n, p) {
				continue
			}
			if strings.HasSuffix(n, "f") {
				for _, a := range c.Args {
					if v := f.info.Types[a].Value; v != nil && v.Kind() == constant.String {
						if s := constant.StringVal(v); strings.Contains(s, "%p") || strings.Contains(s, "%T") {
							return "", false
						}
						return "false", false
					}
				}
				return "", false
			}
			return "false", false
		}
	case "encoding/json":
		switch n {
		case "Marshal", "MarshalIndent", "Encode":
			return "true", false
		case "Decode":
			return "", true
		}
	}
	return "", false
}

func (f *fileInstr) builtin(c *ast.CallExpr, after bool) {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok { // package unsafe
		return
	}
	switch id.Name {
	case "new", "recover", "print", "println":
		return
	case "make":
		f.rexprs(c.Args[1:], after)
		return
	case "len", "cap":
		if len(c.Args) == 1 && f.isMap(c.Args[0]) && !after {
			f.wrap(c.Args[0], "MR", "MRP", "", "", func() { f.rexpr(c.Args[0], after) })
			return
		}
		if len(c.Args) == 1 {
			if _, ok := f.under(c.Args[0]).(*types.Array); ok {
				return
			}
		}
	case "delete":
		if len(c.Args) == 2 && f.isMap(c.Args[0]) && !after && !f.calls(c.Args[1]) {
			f.wrap(c.Args[0], "MW", "MWP", "", "", func() { f.rexpr(c.Args[0], after) })
			f.rexpr(c.Args[1], after)
			return
		}
	case "clear":
		if len(c.Args) == 1 && !after {
			if f.isMap(c.Args[0]) {
				f.wrap(c.Args[0], "MW", "MWP", "", "", func() { f.rexpr(c.Args[0], after) })
				return
			}
			if f.isSlice(c.Args[0]) {
				f.wrap(c.Args[0], "W", "WS", "", "", func() { f.rexpr(c.Args[0], after) })
				return
			}
		}
	case "copy":
		if len(c.Args) == 2 && !after && f.isSlice(c.Args[0]) && f.isSlice(c.Args[1]) && c.Fun == ast.Expr(id) {
			f.replaceRange(f.off(id.Pos()), f.off(id.End()), "verifsim.Copy")
			f.insert(f.off(c.Lparen)+1, fmt.Sprintf("%d, ", f.newSite("W", c)))
			f.rexprs(c.Args, after)
			return
		}
	case "append":
		if len(c.Args) > 1 && !after && f.isSlice(c.Args[0]) && !f.calls(c.Args...) {
			n := fmt.Sprint(len(c.Args) - 1)
			if c.Ellipsis.IsValid() {
				n = "1"
				last := c.Args[1]
				if f.isSlice(last) && f.pathOK(last) && !strings.Contains(f.text(last), "\n") {
					n = "len(" + f.text(last) + ")"
				} else {
					n = "0"
				}
			}
			f.insert(f.off(c.Args[0].Pos()), fmt.Sprintf("verifsim.AP(%d, ", f.newSite("W", c)))
			f.rexpr(c.Args[0], after)
			f.insert(f.off(c.Args[0].End()), ", "+n+")")
			f.rexprs(c.Args[1:], after)
			return
		}
	}
	f.rexprs(c.Args, after)
}

// pathOK tells whether evaluating e once more has no side effects.
func (f *fileInstr) pathOK(e ast.Expr) bool {
	return calls(f.info, e) == 0 && !hasLit(e)
}

// lhs instruments a location that is written.
func (f *fileInstr) lhs(e ast.Expr) {
	e = unparen(e)
	if ix, ok := e.(*ast.IndexExpr); ok && f.isMap(ix.X) {
		if f.calls(ix.Index) {
			f.rexpr(ix.X, true)
		} else {
			f.wrap(ix.X, "MW", "MWP", "", "", func() { f.rexpr(ix.X, false) })
		}
		f.rexpr(ix.Index, false)
		return
	}
	if f.shared(e) {
		f.wrapLoc(e, "W", "WP", func() { f.addr(e, false) })
	} else {
		f.addr(e, false)
	}
}

// simple instruments a statement; pre and post are code for before and after it, where there is a place for it.
func (f *fileInstr) simple(s ast.Stmt) (pre, post string) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		f.rexpr(s.X, false)
	case *ast.SendStmt:
		f.rexpr(s.Chan, f.calls(s.Value))
		f.rexpr(s.Value, false)
	case *ast.IncDecStmt:
		f.lhs(s.X)
	case *ast.ReturnStmt:
		f.rexprs(s.Results, false)
	case *ast.GoStmt:
		f.call(s.Call, false)
	case *ast.DeferStmt:
		f.call(s.Call, false)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				f.rexprs(sp.(*ast.ValueSpec).Values, false)
			}
		}
	case *ast.AssignStmt:
		return f.assign(s)
	}
	return "", ""
}

func (f *fileInstr) assign(s *ast.AssignStmt) (pre, post string) {
	rc := f.calls(s.Rhs...)
	var b strings.Builder
	// A location that is named again in front of the statement or behind it.
	again := func(l ast.Expr) {
		t := f.text(l)
		if f.shared(l) && f.pathOK(l) && !strings.ContainsAny(t, "[*\n") {
			fmt.Fprintf(&b, "verifsim.W(%d, &%s); ", f.newSite("W", l), t)
		}
	}
	switch {
	case s.Tok == token.DEFINE:
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name != "_" && f.info.Defs[id] == nil {
				again(l)
			}
		}
		f.rexprs(s.Rhs, false)
		if rc {
			return "", b.String()
		}
		return b.String(), ""
	case !rc:
		if f.calls(s.Lhs...) && len(s.Lhs) > 1 {
			f.rexprs(s.Rhs, true)
			return "", ""
		}
		for _, l := range s.Lhs {
			if id, ok := unparen(l).(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			f.lhs(l)
		}
		f.rexprs(s.Rhs, false)
		return "", ""
	case len(s.Lhs) == 1 && len(s.Rhs) == 1 && f.pathOK(s.Lhs[0]) && !strings.Contains(f.text(s.Lhs[0]), "\n"):
		l, r := unparen(s.Lhs[0]), s.Rhs[0]
		fn, arg, kind := "", "", ""
		if ix, ok := l.(*ast.IndexExpr); ok && f.isMap(ix.X) {
			fn, arg, kind = "MWV", f.text(ix.X), "MW"
		} else if f.shared(l) {
			fn, arg, kind = "WV", "&"+f.text(l), "W"
		}
		t := f.info.TypeOf(r)
		ok := fn != "" && t != nil
		if ok {
			if bt, isb := t.(*types.Basic); isb && bt.Info()&types.IsUntyped != 0 {
				ok = false
			}
			if _, tuple := t.(*types.Tuple); tuple {
				ok = false
			}
		}
		if ok {
			f.insert(f.off(r.Pos()), fmt.Sprintf("verifsim.%s(%d, ", fn, f.newSite(kind, l)))
			f.rexpr(r, false)
			f.insert(f.off(r.End()), ", "+arg+")")
		} else {
			f.rexpr(r, false)
		}
		return "", ""
	default:
		f.rexprs(s.Rhs, false)
		for _, l := range s.Lhs {
			if id, ok := unparen(l).(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			again(l)
		}
		return "", b.String()
	}
}

// header instruments the parts of a compound statement that are outside of its blocks.
func (f *fileInstr) header(s ast.Stmt) (pre, post string) {
	init := func(s ast.Stmt) {
		if s != nil {
			f.simple(s)
		}
	}
	switch s := s.(type) {
	case *ast.IfStmt:
		init(s.Init)
		f.rexpr(s.Cond, false)
	case *ast.ForStmt:
		init(s.Init)
		f.rexpr(s.Cond, false)
		init(s.Post)
	case *ast.SwitchStmt:
		init(s.Init)
		f.rexpr(s.Tag, false)
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				f.rexpr(e, false)
			}
		}
	case *ast.TypeSwitchStmt:
		init(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			f.rexpr(unparen(a.X).(*ast.TypeAssertExpr).X, false)
		case *ast.AssignStmt:
			f.rexpr(unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X, false)
		}
	case *ast.SelectStmt:
		n := 0
		for _, c := range s.Body.List {
			if cc := c.(*ast.CommClause); cc.Comm != nil {
				n += calls(f.info, cc.Comm)
				if _, ok := cc.Comm.(*ast.SendStmt); !ok {
					n-- // the receive operation itself
				}
			}
		}
		if n > 0 {
			return "", ""
		}
		for _, c := range s.Body.List {
			switch cm := c.(*ast.CommClause).Comm.(type) {
			case *ast.SendStmt:
				f.rexpr(cm.Chan, false)
				f.rexpr(cm.Value, false)
			case *ast.ExprStmt:
				f.rexpr(cm.X, false)
			case *ast.AssignStmt:
				if cm.Tok != token.DEFINE {
					for _, l := range cm.Lhs {
						if id, ok := unparen(l).(*ast.Ident); !ok || id.Name != "_" {
							f.lhs(l)
						}
					}
				}
				f.rexprs(cm.Rhs, false)
			}
		}
	default:
		return f.simple(s)
	}
	return "", ""
}
