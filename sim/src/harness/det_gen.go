package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/verifsim/simos"
)

// RootType is a type that asks for an object implementation.
type RootType struct{ Pkg, Name string }

// tcResult is what the simulated type check of a tree finds.
type tcResult struct {
	Errors  []string
	Methods map[string]bool // package.Type.Method
}

// hasHeaders reports whether the header files that a run is told to use are there.
func (c *Case) hasHeaders(sp Spec) bool {
	for _, a := range sp.Args {
		if _, h, ok := strings.Cut(a, "headerFile="); ok {
			h, _, _ = strings.Cut(h, ",")
			if !path.IsAbs(h) {
				h = path.Join(sp.Cwd, h)
			}
			if _, ok := c.Files[h]; !ok {
				return false
			}
		}
	}
	return true
}

func init() {
	// typecheck type-checks every package of the module in the working
	// directory, generated files included.
	tools["typecheck"] = func() any {
		res := &tcResult{Methods: map[string]bool{}}
		dir := simos.Args[1]
		pkgs, err := packages.Load(&packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes}, "./...")
		if err != nil {
			res.Errors = append(res.Errors, err.Error())
			return res
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				res.Errors = append(res.Errors, e.Error())
			}
			if p.Types == nil {
				continue
			}
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				ms := types.NewMethodSet(types.NewPointer(tn.Type()))
				for i := 0; i < ms.Len(); i++ {
					res.Methods[p.PkgPath+"."+n+"."+ms.At(i).Obj().Name()] = true
				}
			}
		}
		sort.Strings(res.Errors)
		return res
	}

	// "code": a deterministic run whose output is Go code that must compile.
	// The last run is the type check of the tree the first run left behind.
	oracles["code"] = func(c *Case) *Finding {
		a := c.run(0)
		n := len(c.Runs) - 1
		for i := 1; i < n; i++ {
			if f := diffObs(a, c.run(i), a.Res.OK()); f != nil {
				return f
			}
		}
		want := []*RootType{}
		json.Unmarshal(c.Model, &want)
		before := c.run(n)
		if !a.Res.OK() {
			if b, ok := before.Res.Value.(*tcResult); ok && len(b.Errors) == 0 && c.Params["compiles"] != "" && c.hasHeaders(c.Runs[0]) {
				return violation("no deep copies for sources that compile", a.Res.Status(), clip(a.Res.Stderr, 600))
			}
			return nil
		}
		after := c.step(n, a.FS.Clone())
		b, ok1 := before.Res.Value.(*tcResult)
		r, ok2 := after.Res.Value.(*tcResult)
		if !ok1 || !ok2 {
			return violation("type check failed to run", before.Res.Status(), after.Res.Status(), after.Res.Out.Panic)
		}
		old := map[string]bool{}
		for _, e := range b.Errors {
			old[e] = true
		}
		var fresh []string
		for _, e := range r.Errors {
			if !old[e] {
				fresh = append(fresh, e)
			}
		}
		if len(fresh) > 0 && len(b.Errors) == 0 {
			return violation("the generated code does not compile", clipN(fresh, 5)...)
		}
		if c.Params["methods"] != "" {
			for _, t := range want {
				for _, m := range strings.Split(c.Params["methods"], ",") {
					if !r.Methods[t.Pkg+"."+t.Name+"."+m] {
						return violation("requested method not generated", fmt.Sprintf("%s.%s has no %s", t.Pkg, t.Name, m))
					}
				}
			}
		}
		return nil
	}

	register(&Campaign{Prop: "C04", Quick: 2800, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a generated API project with object-generation markers at package and type level, run once as reference (after which the whole tree, generated code included, is type-checked and every requested object type must have its methods) and again under other map orders, schedules, read sizes, clocks and environments; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s, g := apiScenario(r, APICfg{Groups: 3, Versions: 3, Nested: r.p(1, 4), Deepcopy: true, Compiles: true, Conflicts: r.p(1, 3), Big: r.p(1, 4)})
			s.headers()
			o := []string{}
			if r.p(1, 3) {
				o = append(o, "headerFile=hack/boilerplate.go.txt")
				if r.p(1, 2) {
					o = append(o, "year=2031")
				}
			}
			args := []string{opts("object", o), "paths=./..."}
			if r.p(1, 2) {
				args = append(args[:1], pathArgs(append(g.patterns(), "./..."))...)
			}
			if r.p(1, 3) {
				args = append(args, "output:artifacts:config=cfg")
			}
			sp := spec("controller-gen", projRoot, shuffled(r, args)...)
			tc := spec("typecheck", projRoot, projRoot)
			model := func(s *Scenario) any { return modelOf[RootType](s) }
			params := kv([]string{"methods", "DeepCopyInto,DeepCopy,DeepCopyObject", "compiles", "yes"})
			if s.has(projRoot+"/nested/go.mod") != nil {
				params = nil // the type check sees only one module
			}
			w.codeCampaign(s, model, params, sp, tc, w.scale(4, 8))
		}})

	register(&Campaign{Prop: "C05", Quick: 1200, Thorough: 16000, Real: realCode, Stub: stubCode,
		Rule: "a case is a generated API project with apply-configuration markers, run once as reference and again under other map orders, schedules, read sizes, clocks and environments; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s, g := apiScenario(r, APICfg{Groups: 2, Versions: 2, Deepcopy: true, Apply: true})
			s.headers()
			o := []string{}
			if r.p(1, 2) {
				o = append(o, "headerFile=hack/plain.go.txt")
			}
			s.raw(projRoot+"/hack/plain.go.txt", "/*\nCopyright The Authors.\n*/\n")
			args := append([]string{opts("applyconfiguration", o)}, pathArgs(g.patterns())...)
			w.sameCampaign(s, spec("controller-gen", projRoot, shuffled(r, args)...), w.scale(4, 8), true)
		}})

	register(&Campaign{Prop: "C07", Quick: 4000, Thorough: 20000, Real: realCode, Stub: stubCode,
		Rule: "a case is a help, marker-documentation, version, scaffolding or help-generation command line, run once as reference and again under other map orders, schedules, clocks and environments; every byte on both streams counts; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s := &Scenario{Name: "help"}
			s.raw(projRoot+"/go.mod", modFile(projMod))
			s.headers()
			var sp Spec
			switch r.n(8) {
			case 0, 1:
				a := []string{pick(r, []string{"-h", "-hh", "-hhh", "-hhhh", "--help", "--detailed-help", "--detailed-help=4"})}
				if r.p(1, 2) {
					a = append(a, pick(r, []string{"crd", "rbac:roleName=x", "output:dir=x"}))
				}
				sp = spec("controller-gen", projRoot, a...)
			case 2, 3:
				gens := subset(r, []string{"crd", "rbac:roleName=x", "object", "webhook", "applyconfiguration", "schemapatch:manifests=x"}, 1, 2)
				sp = spec("controller-gen", projRoot, append(shuffled(r, gens), pick(r, []string{"-w", "-ww", "-www", "-wwww", "--which-markers", "-wwwww"}))...)
			case 4:
				sp = spec("controller-gen", projRoot, pick(r, [][]string{{"--version"}, {}, {"--bogus"}, {"nonsense"}, {"crd:bogus=1"}, {"rbac"}, {"paths=./..."}, {"crd", "crd"}, {"output:dir"}, {"output:bogus:dir=x"}, {"crd:maxDescLen=x", "paths=./..."}, {"schemapatch"}, {"rbac:bogus=1,other=2"}})...)
			case 5:
				a := []string{"--kind", pick(r, []string{"Foo", "FooBar", "Policy", "foo", "Xs"})}
				if r.p(1, 2) {
					a = append(a, "--resource", "foobars")
				}
				if r.p(1, 2) {
					a = append(a, pick(r, []string{"--namespaced=false", "--namespaced"}))
				}
				sp = spec("type-scaffold", projRoot, pick(r, [][]string{a, a, a, {"--help"}, {}})...)
			default:
				if r.p(1, 5) {
					sp = spec("helpgen", projRoot, pick(r, [][]string{{"--help"}, {"-h"}, {"bogus"}})...)
					break
				}
				helpSources(r, s)
				sp = spec("helpgen", projRoot, shuffled(r, []string{"generate:headerFile=hack/boilerplate.go.txt,year=2019", "paths=./..."})...)
			}
			w.sameCampaign(s, sp, w.scale(6, 10), false, "stderr", "exact", "files", "always")
		}})
}

// helpSources adds packages with marker types to document.
func helpSources(r *Rand, s *Scenario) {
	for _, d := range []string{"pkg/a", "pkg/b"}[:r.in(1, 2)] {
		f := s.file(projRoot + "/" + d + "/types.go")
		f.Head.add(fixed("package " + d[4:] + "\n"))
		for i, k := 0, r.in(1, 6); i < k; i++ {
			n := &Node{}
			m := "// +controllertools:marker:generateHelp"
			if r.p(1, 2) {
				m += ":category=" + pick(r, []string{"Webhook", "\"CRD validation\""})
			}
			n.add(line(m))
			n.add(linef("\n// M%d does things.\n//\n// It has details.", i))
			n.add(fixed(fmt.Sprintf("type M%d struct {\n", i)))
			for j, q := 0, r.n(4); j < q; j++ {
				n.add(linef("\t// F%d is a field.\n\t//\n\t// At length.\n\tF%d string `marker:\",optional\"`", j, j))
			}
			n.Post = "}\n\n"
			f.Body.add(n)
		}
	}
}

func (w *Worker) codeCampaign(s *Scenario, model func(*Scenario) any, params map[string]string, sp, tc Spec, n int) {
	base := &Live{Case: w.newCase("code", s, sp, tc).Case, Scn: s, Model: model}
	base.Case.Model = mustJSON(model(s))
	base.Case.Params = params
	w.current(base)
	if w.check(base) != nil {
		return
	}
	o := base.Case.run(0)
	w.count("base "+statusClass(o.Res), 1)
	if !o.Res.OK() {
		w.skip("reference run did not succeed")
		n = 2
	}
	for _, v := range variants(w.R, sp, o.Res, n) {
		k := &Live{Case: base.Case.clone(), Scn: s}
		k.Case.Oracle, k.Case.Model, k.Case.Params = "same", nil, nil
		k.Case.Runs = []Spec{sp, v}
		w.current(k)
		if w.check(k) != nil {
			return
		}
		x := k.Case.run(1)
		if x.Res.Out.MapPerm > 0 || len(x.Res.Out.Switches) > 0 {
			w.nontrivial(k, x.Res)
		}
	}
}
