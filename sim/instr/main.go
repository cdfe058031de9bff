// Command instr rewrites the Go sources of the system under test, and of the
// few dependencies whose behaviour matters, so that they run inside the
// deterministic simulator. It reads /repo's current working tree, changes
// nothing there, and writes rewritten files plus a "go build -overlay" file to
// an output directory.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const base = "sigs.k8s.io/controller-tools/verifsim/"

// shims maps import paths to their simulated replacement.
var shims = map[string]string{
	"os":            base + "simos",
	"sync":          base + "simsync",
	"path/filepath": base + "simfilepath",
	"fmt":           base + "simfmt",
	"log":           base + "simlog",
	"time":          base + "simtime",
	"runtime":       base + "simruntime",
	"math/rand":     base + "simrand",
	"math/rand/v2":  base + "simrandv2",
	"crypto/rand":   base + "simcrand",
	"maps":          base + "simmaps",
	"go/parser":     base + "simparser",
	"io/ioutil":     base + "simioutil",
}

// deps are the dependency packages that are rewritten as well.
var deps = []string{
	"golang.org/x/tools/go/packages",
	"golang.org/x/sync/errgroup",
	"k8s.io/gengo/v2",
	"k8s.io/gengo/v2/generator",
	"k8s.io/gengo/v2/namer",
	"k8s.io/gengo/v2/parser",
	"k8s.io/gengo/v2/types",
	"k8s.io/code-generator/cmd/applyconfiguration-gen/args",
	"k8s.io/code-generator/cmd/applyconfiguration-gen/generators",
	"k8s.io/code-generator/cmd/client-gen/generators/util",
	"k8s.io/code-generator/cmd/client-gen/types",
	"k8s.io/apimachinery/pkg/util/sets",
	"github.com/spf13/cobra",
	"github.com/spf13/pflag",
}

var (
	repo   = flag.String("repo", "/repo", "repository")
	src    = flag.String("src", "", "simulator sources (/verif/sim/src)")
	out    = flag.String("out", "", "output directory")
	sites  []string
	overl  = map[string]string{}
	modDir string
)

func main() {
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

// raceOverlay writes the overlay of race builds, which has a sync.Pool that
// never keeps anything as well: the real one drops values at random and adds
// synchronisation between tasks that merely both call, say, fmt.Sprintf, which
// hides races, and not the same ones in every run.
func raceOverlay(cfg *packages.Config) error {
	pkgs, err := packages.Load(&packages.Config{Dir: cfg.Dir, Mode: packages.NeedFiles}, "sync")
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, f := range p.GoFiles {
			if filepath.Base(f) != "pool.go" {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			s := string(b)
			for _, e := range [][2]string{
				{"\t\tif runtime_randn(4) == 0 {\n", "\t\tif runtime_randn(1) == 0 {\n"},
				{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
			} {
				if strings.Count(s, e[0]) != 1 {
					fmt.Fprintln(os.Stderr, "instr: sync.Pool is not what it was; races may go unseen in some runs")
					return os.WriteFile(filepath.Join(*out, "overlay-race.json"), mustOverlay(), 0o644)
				}
				s = strings.Replace(s, e[0], e[1], 1)
			}
			if err := emit(f, []byte(s)); err != nil {
				return err
			}
		}
	}
	return os.WriteFile(filepath.Join(*out, "overlay-race.json"), mustOverlay(), 0o644)
}

func mustOverlay() []byte {
	j, err := json.MarshalIndent(map[string]any{"Replace": overl}, "", " ")
	if err != nil {
		panic(err)
	}
	return j
}

func run() error {
	cfg := &packages.Config{
		Dir: *repo,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Fset: token.NewFileSet(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.ParseComments|parser.SkipObjectResolution)
		},
	}
	pats := append([]string{"./..."}, deps...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	sites = []string{"sim", "maps"}
	var inRepo []*packages.Package
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "instr:", p.PkgPath, e)
			bad = true
		}
		if strings.HasPrefix(p.PkgPath, "sigs.k8s.io/controller-tools") {
			inRepo = append(inRepo, p)
		}
	}
	if bad {
		return fmt.Errorf("the tree does not type-check")
	}
	for _, p := range pkgs {
		mine := strings.HasPrefix(p.PkgPath, "sigs.k8s.io/controller-tools")
		if err := rewritePackage(p, mine); err != nil {
			return fmt.Errorf("%s: %w", p.PkgPath, err)
		}
	}
	if err := patchGocommand(pkgs, cfg); err != nil {
		return err
	}
	// simulator sources
	err = filepath.Walk(*src, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*src, p)
		overl[filepath.Join(*repo, "verifsim", rel)] = p
		return nil
	})
	if err != nil {
		return err
	}
	if err := aliases(cfg); err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("package rt\n\nfunc init() {\n\tSiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	if err := emit(filepath.Join(*repo, "verifsim/rt/zz_sites.go"), []byte(b.String())); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), mustOverlay(), 0o644); err != nil {
		return err
	}
	return raceOverlay(cfg)
}

var nout int

func emit(target string, data []byte) error {
	nout++
	p := filepath.Join(*out, fmt.Sprintf("%04d_%s", nout, filepath.Base(target)))
	overl[target] = p
	return os.WriteFile(p, data, 0o644)
}

// ---- edits ----

type edit struct {
	pos, end int
	text     string
	suffix   bool
	seq      int
}

type rewriter struct {
	pkg   *packages.Package
	fset  *token.FileSet
	file  *ast.File
	tf    *token.File
	src   []byte
	edits []edit
	used  bool
	mine  bool
	rel   string
	fn    string
	count map[string]int
	par   map[ast.Node]ast.Node
	skip  map[ast.Node]bool
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }
func (r *rewriter) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rewriter) insert(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, false, len(r.edits)})
}
func (r *rewriter) insertAfter(p token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, true, len(r.edits)})
}
func (r *rewriter) replace(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, false, len(r.edits)})
}

// site names a program point by file, function and kind, so that names are
// stable when unrelated code moves.
func (r *rewriter) site(kind string, n ast.Node) int {
	r.used = true
	key := r.rel + ":" + r.fn + ":" + kind
	k := r.count[key]
	r.count[key]++
	name := fmt.Sprintf("%s:%d", key, k)
	sites = append(sites, name)
	return len(sites) - 1
}

func applyEdits(src []byte, edits []edit, lo, hi int) []byte {
	es := append([]edit(nil), edits...)
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		ai, bi := a.pos == a.end, b.pos == b.end
		if ai != bi {
			return ai // insertions before replacements at the same offset
		}
		if a.suffix != b.suffix {
			return a.suffix // closers of what ends here come first
		}
		if a.suffix {
			return a.seq > b.seq // inner first
		}
		return a.seq < b.seq // outer first
	})
	var o []byte
	at := lo
	for _, e := range es {
		if e.pos < lo || e.end > hi || (e.pos == hi && !e.suffix && e.pos == e.end) {
			continue
		}
		if e.pos < at {
			// inside a region already replaced
			continue
		}
		o = append(o, src[at:e.pos]...)
		o = append(o, e.text...)
		at = e.end
	}
	o = append(o, src[at:hi]...)
	return o
}

func rewritePackage(p *packages.Package, mine bool) error {
	isMain := p.Name == "main"
	count := map[string]int{}
	var rws []*rewriter
	for i, f := range p.Syntax {
		fn := p.CompiledGoFiles[i]
		if !strings.HasSuffix(fn, ".go") {
			continue
		}
		src, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		rel := fn
		if mine {
			rel, _ = filepath.Rel(*repo, fn)
		} else {
			rel = p.PkgPath + "/" + filepath.Base(fn)
		}
		r := &rewriter{pkg: p, fset: p.Fset, file: f, tf: p.Fset.File(f.Pos()), src: src, mine: mine, rel: rel, count: count, skip: map[ast.Node]bool{}}
		if r.tf == nil {
			r.tf = p.Fset.File(f.Package)
		}
		r.imports()
		r.walk()
		rws = append(rws, r)
	}
	// package state reset
	type chunk struct{ name string }
	resets := map[*rewriter]string{}
	var order []string
	// of other packages, only channels (semaphores, that is): what else they
	// keep are caches
	kept := func(t types.Type) bool {
		if mine {
			return true
		}
		_, ch := t.Underlying().(*types.Chan)
		return ch
	}
	{
		byFile := map[*token.File]*rewriter{}
		for _, r := range rws {
			byFile[r.tf] = r
		}
		k := 0
		// zero values first
		for _, r := range rws {
			for _, d := range r.file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) > 0 || hasEmbed(g, vs) || !kept(p.TypesInfo.TypeOf(vs.Type)) {
						continue
					}
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						k++
						fn := fmt.Sprintf("simReset_%d", k)
						resets[r] += fmt.Sprintf("\nfunc %s() { var z %s; %s = z }\n", fn, r.text(vs.Type), n.Name)
						order = append(order, fn)
					}
				}
			}
		}
		for _, ini := range p.TypesInfo.InitOrder {
			var names []string
			skip := true
			for _, l := range ini.Lhs {
				names = append(names, l.Name())
				if l.Name() != "_" {
					skip = false
				}
			}
			for _, l := range ini.Lhs {
				skip = skip || !kept(l.Type())
			}
			if skip {
				continue
			}
			r := byFile[p.Fset.File(ini.Rhs.Pos())]
			if r == nil {
				continue
			}
			k++
			fn := fmt.Sprintf("simReset_%d", k)
			body := applyEdits(r.src, r.edits, r.off(ini.Rhs.Pos()), r.off(ini.Rhs.End()))
			resets[r] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), body)
			order = append(order, fn)
		}
		// init functions, in file order
		for _, r := range rws {
			for _, d := range r.file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Name.Name != "init" || !mine {
					continue
				}
				k++
				fn := fmt.Sprintf("simInit_%d", k)
				r.replace(fd.Name.Pos(), fd.Name.End(), fn)
				resets[r] += fmt.Sprintf("\nfunc init() { %s() }\n", fn)
				order = append(order, fn)
			}
		}
	}
	for i, r := range rws {
		if isMain {
			r.replace(r.file.Name.Pos(), r.file.Name.End(), "simmain")
			for _, d := range r.file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
					r.replace(fd.Name.Pos(), fd.Name.End(), "Main")
				}
			}
		}
		if i == 0 && len(order) > 0 {
			r.used = true
			resets[r] += fmt.Sprintf("\nfunc init() { __rt.OnReset(%q, SimReset) }\n\n// SimReset puts the package state back to what it is at process start.\nfunc SimReset() { %s() }\n", p.PkgPath, strings.Join(order, "(); "))
		}
		if len(r.edits) == 0 && resets[r] == "" && !r.used {
			continue
		}
		if r.used {
			r.insertAfter(r.file.Name.End(), "; import __rt \""+base+"rt\"")
		}
		body := applyEdits(r.src, r.edits, 0, len(r.src))
		body = append(body, resets[r]...)
		if !mine {
			body = goVersion(body)
		}
		if err := emit(p.CompiledGoFiles[i], body); err != nil {
			return err
		}
	}
	return nil
}

func hasEmbed(g *ast.GenDecl, vs *ast.ValueSpec) bool {
	for _, d := range []*ast.CommentGroup{g.Doc, vs.Doc} {
		if d != nil {
			for _, c := range d.List {
				if strings.HasPrefix(c.Text, "//go:embed") {
					return true
				}
			}
		}
	}
	return false
}

// goVersion raises a dependency file's language version so that iterator
// functions and generics can be used in it.
func goVersion(b []byte) []byte {
	s := string(b)
	lines := strings.SplitAfter(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build ") {
			expr := strings.TrimSpace(strings.TrimPrefix(l, "//go:build "))
			lines[i] = "//go:build (" + expr + ") && go1.23\n"
			return []byte(strings.Join(lines, ""))
		}
	}
	return []byte("//go:build go1.23\n\n" + s)
}

func (r *rewriter) imports() {
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[p]
		if !ok {
			continue
		}
		if p == "sync" && r.pkg.PkgPath == "sync" {
			continue
		}
		name := ""
		if im.Name == nil {
			name = strings.TrimSuffix(p, "/v2")
			name = filepath.Base(name) + " "
		}
		r.replace(im.Path.Pos(), im.Path.End(), name+strconv.Quote(sh))
	}
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		u, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var c types.Type
		for i := 0; i < u.NumEmbeddeds(); i++ {
			un, ok := u.EmbeddedType(i).(*types.Union)
			if !ok {
				c = u.EmbeddedType(i).Underlying()
				continue
			}
			for j := 0; j < un.Len(); j++ {
				c = un.Term(j).Type().Underlying()
			}
		}
		return c
	}
	return t.Underlying()
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	return r.pkg.TypesInfo.TypeOf(e)
}

func (r *rewriter) walk() {
	r.par = map[ast.Node]ast.Node{}
	var stack []ast.Node
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			r.par[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})
	for _, d := range r.file.Decls {
		r.fn = "var"
		if fd, ok := d.(*ast.FuncDecl); ok {
			r.fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				r.fn = strings.TrimLeft(r.text(fd.Recv.List[0].Type), "*") + "." + fd.Name.Name
			}
		}
		ast.Inspect(d, r.visit)
	}
}

func (r *rewriter) yields(list []ast.Stmt) {
	if !r.mine {
		return
	}
	for _, s := range list {
		if r.skip[s] {
			continue
		}
		id := r.site("stmt", s)
		r.insert(s.Pos(), fmt.Sprintf("__rt.Y(%d); ", id))
	}
}

func (r *rewriter) visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		if p, ok := r.par[n]; ok {
			switch p.(type) {
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				return true
			}
		}
		r.yields(n.List)
	case *ast.CaseClause:
		r.yields(n.Body)
	case *ast.CommClause:
		r.yields(n.Body)
	case *ast.RangeStmt:
		switch t := core(r.typ(n.X)).(type) {
		case *types.Map:
			id := r.site("map", n)
			r.insert(n.X.Pos(), fmt.Sprintf("__rt.MapRange(%d, ", id))
			r.insertAfter(n.X.End(), ")")
		case *types.Chan:
			id := r.site("chan", n)
			r.insert(n.X.Pos(), fmt.Sprintf("__rt.ChanRange(%d, ", id))
			r.insertAfter(n.X.End(), ")")
		default:
			_ = t
		}
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SendStmt:
		if r.inComm(n) {
			return true
		}
		id := r.site("send", n)
		r.insert(n.Chan.Pos(), fmt.Sprintf("__rt.SendTo(%d, ", id))
		r.insertAfter(n.Chan.End(), ")(")
		r.replace(n.Arrow, n.Arrow+2, "")
		r.insertAfter(n.Value.End(), ")")
	case *ast.UnaryExpr:
		if n.Op != token.ARROW || r.commRecv(n) {
			return true
		}
		id := r.site("recv", n)
		f := "Recv"
		if r.commaOk(n) {
			f = "Recv2"
		}
		r.replace(n.OpPos, n.OpPos+2, fmt.Sprintf("__rt.%s(%d, ", f, id))
		r.insertAfter(n.X.End(), ")")
	case *ast.SelectStmt:
		r.selectStmt(n)
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
			if _, isB := r.pkg.TypesInfo.Uses[id].(*types.Builtin); isB {
				s := r.site("close", n)
				r.replace(id.Pos(), id.End(), "__rt.Close")
				r.insert(n.Args[0].Pos(), fmt.Sprintf("%d, ", s))
			}
		}
		if sel, ok := n.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "MapKeys" && len(n.Args) == 0 {
			if t := r.typ(sel.X); t != nil && t.String() == "reflect.Value" {
				s := r.site("mapkeys", n)
				r.insert(n.Pos(), fmt.Sprintf("__rt.MapKeys(%d, ", s))
				r.replace(sel.X.End(), n.End(), ")")
			}
		}
	case *ast.AssignStmt:
		r.assign(n)
	case *ast.IncDecStmt:
		if r.mine && r.shared(n.X) && pure(n.X) {
			op := "+"
			if n.Tok == token.DEC {
				op = "-"
			}
			id := r.site("rmw", n)
			r.replace(n.TokPos, n.End(), fmt.Sprintf(" = __rt.Mid(%d, %s %s 1)", id, r.text(n.X), op))
		}
	}
	return true
}

// shared reports whether an assignment to e may touch memory other tasks see.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		o := r.pkg.TypesInfo.ObjectOf(e)
		v, ok := o.(*types.Var)
		return ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	}
	return false
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

func (r *rewriter) assign(n *ast.AssignStmt) {
	if !r.mine || len(n.Lhs) != 1 || len(n.Rhs) != 1 || r.inComm(n) {
		return
	}
	if !r.shared(n.Lhs[0]) {
		return
	}
	lt, rt := r.typ(n.Lhs[0]), r.typ(n.Rhs[0])
	if lt == nil || rt == nil {
		return
	}
	switch n.Tok {
	case token.ASSIGN:
		tv := r.pkg.TypesInfo.Types[n.Rhs[0]]
		if tv.Value != nil || tv.IsNil() || !types.Identical(lt, rt) {
			return
		}
		if b, ok := rt.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		if _, ok := n.Rhs[0].(*ast.FuncLit); ok {
			return
		}
		id := r.site("rmw", n)
		r.insert(n.Rhs[0].Pos(), fmt.Sprintf("__rt.Mid(%d, ", id))
		r.insertAfter(n.Rhs[0].End(), ")")
	case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.AND_ASSIGN:
		if !pure(n.Lhs[0]) {
			return
		}
		op := strings.TrimSuffix(n.Tok.String(), "=")
		id := r.site("rmw", n)
		r.replace(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), fmt.Sprintf("= __rt.Mid(%d, %s %s (", id, r.text(n.Lhs[0]), op))
		r.insertAfter(n.Rhs[0].End(), "))")
	}
}

func (r *rewriter) inComm(n ast.Node) bool {
	c, ok := r.par[n].(*ast.CommClause)
	return ok && c.Comm == n
}

// commRecv reports whether u is the receive of a select case.
func (r *rewriter) commRecv(u *ast.UnaryExpr) bool {
	p := r.par[u]
	for {
		if pe, ok := p.(*ast.ParenExpr); ok {
			p = r.par[pe]
			continue
		}
		break
	}
	switch p := p.(type) {
	case *ast.ExprStmt:
		return r.inComm(p)
	case *ast.AssignStmt:
		return r.inComm(p) && len(p.Rhs) == 1
	}
	return false
}

func (r *rewriter) commaOk(u *ast.UnaryExpr) bool {
	switch p := r.par[u].(type) {
	case *ast.AssignStmt:
		return len(p.Lhs) == 2 && len(p.Rhs) == 1
	case *ast.ValueSpec:
		return len(p.Names) == 2 && len(p.Values) == 1
	}
	return false
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	id := r.site("go", n)
	if fl, ok := n.Call.Fun.(*ast.FuncLit); ok {
		r.insert(n.Pos(), fmt.Sprintf("{ __t := __rt.Spawn(%d); ", id))
		r.insertAfter(fl.Body.Lbrace+1, " defer __rt.TaskEnd(__t); __rt.TaskStart(__t); ")
		r.insertAfter(n.End(), fmt.Sprintf("; __rt.AfterSpawn(%d) }", id))
		return
	}
	// go f(a, b): evaluate f and its arguments now
	var pre strings.Builder
	var args []string
	for i, a := range n.Call.Args {
		tv := r.pkg.TypesInfo.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		fmt.Fprintf(&pre, "__a%d := %s; ", i, r.text(a))
		args = append(args, fmt.Sprintf("__a%d", i))
	}
	ell := ""
	if n.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	fun := r.text(n.Call.Fun)
	if _, isB := n.Call.Fun.(*ast.Ident); !isB || !r.builtin(n.Call.Fun) {
		fmt.Fprintf(&pre, "__f := %s; ", fun)
		fun = "__f"
	}
	r.replace(n.Pos(), n.End(), fmt.Sprintf("{ %s__t := __rt.Spawn(%d); go func() { defer __rt.TaskEnd(__t); __rt.TaskStart(__t); %s(%s%s) }(); __rt.AfterSpawn(%d) }",
		pre.String(), id, fun, strings.Join(args, ", "), ell, id))
}

func (r *rewriter) builtin(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	_, b := r.pkg.TypesInfo.Uses[id].(*types.Builtin)
	return b
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	id := r.site("select", n)
	if len(n.Body.List) == 0 {
		r.replace(n.Pos(), n.End(), fmt.Sprintf("__rt.BlockForever(%d)", id))
		return
	}
	var names, exprs []string
	hasDef := false
	k := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		v := fmt.Sprintf("__s%d", k)
		head := fmt.Sprintf("case %d:", k)
		unrecv := func(e ast.Expr) ast.Expr {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				break
			}
			return e.(*ast.UnaryExpr).X
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, fmt.Sprintf("__rt.SC(%s)(%s)", r.text(s.Chan), r.text(s.Value)))
		case *ast.ExprStmt:
			exprs = append(exprs, fmt.Sprintf("__rt.RC(%s)", r.text(unrecv(s.X))))
		case *ast.AssignStmt:
			exprs = append(exprs, fmt.Sprintf("__rt.RC(%s)", r.text(unrecv(s.Rhs[0]))))
			lhs := r.text(s.Lhs[0])
			rhs := v + ".V"
			if len(s.Lhs) == 2 {
				lhs += ", " + r.text(s.Lhs[1])
				rhs += ", " + v + ".Ok"
			}
			head += fmt.Sprintf(" %s %s %s;", lhs, s.Tok, rhs)
		}
		names = append(names, v)
		r.replace(cc.Pos(), cc.Colon+1, head)
		k++
	}
	hd := fmt.Sprintf("switch __rt.Select(%d, %v) ", id, hasDef)
	if k > 0 {
		hd = fmt.Sprintf("switch %s := %s; __rt.Select(%d, %v, %s) ", strings.Join(names, ", "), strings.Join(exprs, ", "), id, hasDef, strings.Join(names, ", "))
	}
	r.replace(n.Pos(), n.Body.Lbrace, hd)
}

// patchGocommand replaces the runner that executes the go command.
func patchGocommand(pkgs []*packages.Package, cfg *packages.Config) error {
	var dir string
	for _, p := range pkgs {
		if p.PkgPath == "golang.org/x/tools/go/packages" {
			dir = filepath.Join(filepath.Dir(p.CompiledGoFiles[0]), "../../internal/gocommand")
		}
	}
	if dir == "" {
		return fmt.Errorf("go/packages not found")
	}
	fn := filepath.Join(dir, "invoke.go")
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	s := string(b)
	marker := "func (runner *Runner) RunRaw(ctx context.Context, inv Invocation) (*bytes.Buffer, *bytes.Buffer, error, error) {\n"
	if strings.Count(s, marker) != 1 {
		return fmt.Errorf("gocommand.RunRaw not found as expected")
	}
	s = strings.Replace(s, marker, marker+"\tif SimRun != nil {\n\t\treturn SimRun(inv.WorkingDir, inv.Verb, inv.Args, inv.Env)\n\t}\n", 1)
	m2 := "func (runner *Runner) Run(ctx context.Context, inv Invocation) (*bytes.Buffer, error) {\n"
	if strings.Count(s, m2) != 1 {
		return fmt.Errorf("gocommand.Run not found as expected")
	}
	s = strings.Replace(s, m2, m2+"\tif SimRun != nil {\n\t\tb, _, e, _ := SimRun(inv.WorkingDir, inv.Verb, inv.Args, inv.Env)\n\t\treturn b, e\n\t}\n", 1)
	s += "\n// SimRun, if set, emulates the go command.\nvar SimRun func(dir, verb string, args, env []string) (stdout, stderr *bytes.Buffer, friendly, err error)\n"
	if err := emit(fn, []byte(s)); err != nil {
		return err
	}
	// an exported door to the hook: internal packages cannot be imported from the harness
	door := "package packages\n\nimport (\n\t\"bytes\"\n\n\t\"golang.org/x/tools/internal/gocommand\"\n)\n\n// SetSimRun installs the simulated go command.\nfunc SetSimRun(f func(dir, verb string, args, env []string) (stdout, stderr *bytes.Buffer, friendly, err error)) {\n\tgocommand.SimRun = f\n}\n"
	return emit(filepath.Join(dir, "../../go/packages/zz_sim.go"), []byte(door))
}

// aliases generates, for every shim, forwarders for whatever the shim does not
// define itself.
func aliases(cfg *packages.Config) error {
	var paths []string
	for p := range shims {
		if p == "maps" {
			continue
		}
		paths = append(paths, p)
	}
	sort.Strings(paths)
	c := *cfg
	c.Mode = packages.NeedName | packages.NeedTypes | packages.NeedImports
	pkgs, err := packages.Load(&c, paths...)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		shim := strings.TrimPrefix(shims[p.PkgPath], base)
		own := map[string]bool{}
		dir := filepath.Join(*src, shim)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		pname := ""
		for _, e := range ents {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			pname = f.Name.Name
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", pname, p.PkgPath)
		n := 0
		for _, name := range p.Types.Scope().Names() {
			o := p.Types.Scope().Lookup(name)
			if !o.Exported() || own[name] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			default:
				continue
			}
			n++
		}
		if n == 0 {
			continue
		}
		if err := emit(filepath.Join(*repo, "verifsim", shim, "zz_alias.go"), []byte(b.String())); err != nil {
			return err
		}
	}
	return nil
}
