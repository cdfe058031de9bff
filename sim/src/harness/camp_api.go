//go:build !noapi

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/crd"
	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// ---- several runs in one process, through the Go API ----

// LibRun is one run.
type LibRun struct {
	Dir  string   `json:"dir"`
	Args []string `json:"args"`
}

// LibProg is a program that makes several runs.
type LibProg struct {
	Runs  []LibRun `json:"runs"`
	Tasks bool     `json:"tasks,omitempty"` // all at once, in tasks
	Again int      `json:"again,omitempty"` // how many times each runtime runs
}

// LibRes is what a run gave.
type LibRes struct{ Err, Out string }

// libRegistry is set up the way the command line does.
func libRegistry() *markers.Registry {
	reg := &markers.Registry{}
	gens := map[string]genall.Generator{"schemapatch": schemapatcher.Generator{}}
	for i, n := range []string{"crd", "object", "rbac", "webhook"} {
		gens[n] = allGenerators()[i]
	}
	for _, n := range sortedKeys(gens) {
		must(reg.Define(n, markers.DescribesPackage, gens[n]))
		must(reg.Define("output:"+n+":dir", markers.DescribesPackage, genall.OutputToDirectory("")))
		must(reg.Define("output:"+n+":artifacts", markers.DescribesPackage, genall.OutputArtifacts{}))
	}
	must(genall.RegisterOptionsMarkers(reg))
	return reg
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (p *LibProg) run() any {
	reg := libRegistry()
	out := make([]LibRes, len(p.Runs))
	var fs []func()
	for i, x := range p.Runs {
		fs = append(fs, func() {
			r, err := genall.FromOptionsWithConfig(&packages.Config{Dir: x.Dir}, reg, x.Args)
			if err != nil {
				out[i].Err = "options: " + err.Error()
				return
			}
			for k := 0; k < max(1, p.Again); k++ {
				var buf bytes.Buffer
				r.ErrorWriter = &buf
				out[i].Err = fmt.Sprintf("had errors: %v", r.Run())
				out[i].Out = buf.String()
			}
		})
	}
	if p.Tasks {
		inTasks(fs)
	} else {
		for _, f := range fs {
			f()
		}
	}
	return out
}

func init() {
	oracles["library"] = func(c *Case) *Finding {
		p := &LibProg{}
		must(json.Unmarshal(c.Model, p))
		want := map[string]string{}
		for q, x := range c.Files {
			want[q] = x
		}
		var res []LibRes
		var said []string
		for _, x := range p.Runs {
			f := NewFS(c.Files)
			r := ExecFn(f, Spec{Tool: "api", Cwd: c.Runs[0].Cwd}, (&LibProg{Runs: []LibRun{x}}).run)
			if r.Out.Kind != "exit" {
				return nil // judged elsewhere
			}
			res = append(res, r.Value.([]LibRes)[0])
			if r.Stderr != "" {
				said = append(said, lines(r.Stderr)...)
			}
			for q, y := range Files(f) {
				if c.Files[q] != y {
					want[q] = y
				}
			}
		}
		sort.Strings(said)
		for i := range c.Runs {
			f := NewFS(c.Files)
			r := ExecFn(f, c.Runs[i], p.run)
			if i == traceRun {
				lastTraced = r
			}
			lastAPI = r
			if len(r.Races) > 0 {
				return violation("data race", clipN(r.Races, 4)...)
			}
			if r.Out.Kind != "exit" {
				return violation("abnormal end", r.Status(), clip(r.Out.Panic, 600))
			}
			if rt.RaceEnabled {
				continue // what is compared below is compared in the other build
			}
			for k, g := range r.Value.([]LibRes) {
				if g != res[k] {
					return violation("result of a run depends on the others", strings.Join(p.Runs[k].Args, " "), res[k].Err, g.Err, diffText(res[k].Out, g.Out))
				}
			}
			if d := diffFiles(want, Files(f)); len(d) > 0 {
				return violation("output of a run depends on the others", clipN(d, 4)...)
			}
			if p.Again <= 1 {
				got := []string{}
				if r.Stderr != "" {
					got = lines(r.Stderr)
				}
				if x, y := strings.Join(said, "\n"), strings.Join(got, "\n"); x != y {
					return violation("diagnostics of a run depend on the others", diffText(x, y))
				}
			}
		}
		return nil
	}

	// The parser gives the same CRD for a kind whatever was asked of it before.
	oracles["demand"] = func(c *Case) *Finding {
		p := &DemandProg{}
		must(json.Unmarshal(c.Model, p))
		base := *p
		base.Ask = nil
		ref := ExecFn(NewFS(c.Files), Spec{Tool: "api", Cwd: projRoot}, base.run)
		if ref.Out.Kind != "exit" {
			return violation("abnormal end", ref.Status(), clip(ref.Out.Panic, 600))
		}
		for i := range c.Runs {
			r := ExecFn(NewFS(c.Files), c.Runs[i], p.run)
			if i == traceRun {
				lastTraced = r
			}
			lastAPI = r
			if r.Out.Kind != "exit" {
				return violation("abnormal end", r.Status(), clip(r.Out.Panic, 600))
			}
			if d := diffFiles(ref.Value.(map[string]string), r.Value.(map[string]string)); len(d) > 0 {
				return violation("schemata depend on the order of requests", clipN(d, 4)...)
			}
		}
		return nil
	}

	register(&Campaign{Prop: "C20", Quick: 1170, Thorough: 40000, Race: true, Real: "pkg/genall and all generators, called through their Go API in one simulated process", Stub: stubCode,
		Rule: "a case is two or three runs over one or two projects (with mistakes in one of four), made in one process one after the other, or concurrently in tasks, or twice with the same runtime; each must give what it gives in a process of its own; in the -race build with the race detector; non-trivial when a scheduling choice or map order differed",
		Case: func(w *Worker, i int) {
			r := w.R
			ps := []*Proj{errProject(r, 1, 4)}
			s := ps[0].S
			root := []string{projRoot}
			local := r.p(2, 5) // files are named relative to where the process runs
			if !local && r.p(1, 2) {
				p := errProject(r, 1, 4)
				ps = append(ps, p)
				root = append(root, "/work/two")
				for _, f := range p.S.Files {
					f.Path = "/work/two" + strings.TrimPrefix(f.Path, projRoot)
					s.Files = append(s.Files, f)
				}
			}
			m := &LibProg{}
			for k, n := 0, r.in(2, 3); k < n; k++ {
				j := r.n(len(ps))
				p := ps[j]
				x := LibRun{Dir: root[j]}
				if local && r.p(1, 2) {
					x.Dir = ""
				}
				for _, g := range someGens(r, p, 1) {
					a := p.genArg(r, g)
					if local {
						x.Args = append(x.Args, a, fmt.Sprintf("output:%s:dir=out/%d/%s", g, k, g))
						continue
					}
					a = strings.ReplaceAll(a, "headerFile=hack", "headerFile="+root[j]+"/hack")
					a = strings.ReplaceAll(a, "manifests=", "manifests="+root[j]+"/")
					x.Args = append(x.Args, a)
					o := fmt.Sprintf("/out/%d/%s", k, g)
					if r.p(1, 2) {
						x.Args = append(x.Args, "output:"+g+":dir="+o)
					} else {
						x.Args = append(x.Args, "output:"+g+":artifacts:config="+o+",code="+o)
					}
				}
				if local {
					x.Args = append(x.Args, pathArgs(p.paths(r))...)
				} else {
					x.Args = append(x.Args, "paths=./...")
				}
				m.Runs = append(m.Runs, x)
			}
			switch r.n(5) {
			case 0:
				m.Again = 2
			case 1, 2:
				m.Tasks = true
			}
			w.apiCase("library", s, m, w.scale(2, 4))
		}})

	register(&Campaign{Prop: "C21", Quick: 1800, Thorough: 40000, Real: "pkg/crd and pkg/loader, called through their Go API", Stub: stubCode,
		Rule: "a case is an API project without recursive types and a history of requests to one parser - schemata and flattened schemata of any types, CRDs of any kinds, repeated, in any order, before and after its packages are added in any order - under other map orders; every CRD must be what it is when nothing else was asked; non-trivial when there was a request or a map order differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s, g := apiScenario(r, APICfg{Groups: 2, Versions: 3, Acyclic: true, Conflicts: r.p(1, 3), Deepcopy: r.p(1, 4), Big: r.p(1, 6)})
			m := &DemandProg{Danger: true, Meta: r.p(1, 3)}
			seen := map[string]bool{}
			for _, k := range g.kinds {
				if id := k.Group + "/" + k.Kind; !seen[id] {
					seen[id] = true
					m.Kinds = append(m.Kinds, id)
				}
			}
			sort.Strings(m.Kinds)
			if r.p(1, 3) {
				d := pick(r, []int{0, 10, 30})
				m.Desc = &d
			}
			for j, n := 0, r.in(1, 12); j < n; j++ {
				m.Ask = append(m.Ask, Ask{pick(r, []string{"schema", "flat", "crd", "package", "type"}), r.n(64), r.n(64)})
			}
			w.apiCase("demand", s, m, w.scale(3, 6))
		}})
}

// Ask is one request to a parser.
type Ask struct {
	Do   string `json:"do"`
	A, B int
}

// DemandProg is a history of requests to one parser.
type DemandProg struct {
	Kinds  []string `json:"kinds"`
	Ask    []Ask    `json:"ask"`
	Danger bool     `json:"danger"`
	Meta   bool     `json:"meta"`
	Desc   *int     `json:"desc,omitempty"` // maximal length of descriptions
}

func (p *DemandProg) run() any {
	out := map[string]string{}
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: projRoot}, "./...")
	if err != nil {
		return map[string]string{"error": err.Error()}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].ID < roots[j].ID })
	reg := &markers.Registry{}
	must(crdmarkers.Register(reg))
	ps := &crd.Parser{
		Collector:                  &markers.Collector{Registry: reg},
		Checker:                    &loader.TypeChecker{NodeFilters: []loader.NodeFilter{crd.Generator{}.CheckFilter()}},
		AllowDangerousTypes:        p.Danger,
		GenerateEmbeddedObjectMeta: p.Meta,
	}
	crd.AddKnownTypes(ps)
	gk := func(id string) schema.GroupKind {
		g, k, _ := strings.Cut(id, "/")
		return schema.GroupKind{Group: g, Kind: k}
	}
	all := false
	types := func() []crd.TypeIdent {
		var ts []crd.TypeIdent
		for t := range ps.Types {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool {
			if ts[i].Package.ID != ts[j].Package.ID {
				return ts[i].Package.ID < ts[j].Package.ID
			}
			return ts[i].Name < ts[j].Name
		})
		return ts
	}
	addAll := func() {
		if all {
			return
		}
		all = true
		for _, r := range roots {
			ps.NeedPackage(r)
		}
	}
	// what requests gave, and whether it stays that way
	given := map[string]string{}
	look := func() {
		see := func(what string, v any) {
			b, err := json.Marshal(v)
			x := string(b)
			if err != nil {
				x = err.Error()
			}
			if was, ok := given[what]; ok && was != x {
				out["changed later: "+what] = diffText(was, x)
			}
			given[what] = x
		}
		for t, v := range ps.Schemata {
			see("schema of "+t.Package.ID+"."+t.Name, v)
		}
		for t, v := range ps.FlattenedSchemata {
			see("flattened schema of "+t.Package.ID+"."+t.Name, v)
		}
		for k, v := range ps.CustomResourceDefinitions {
			see("CRD of "+k.String(), v)
		}
	}
	for _, a := range p.Ask {
		look()
		switch a.Do {
		case "package":
			if len(roots) > 0 {
				ps.NeedPackage(roots[a.A%len(roots)])
			}
		case "schema", "flat":
			if ts := types(); len(ts) > 0 {
				t := ts[a.A%len(ts)]
				if a.Do == "flat" {
					ps.NeedFlattenedSchemaFor(t)
				} else {
					ps.NeedSchemaFor(t)
				}
			}
		case "crd":
			// requires that the packages are there
			addAll()
			if len(p.Kinds) > 0 {
				ps.NeedCRDFor(gk(p.Kinds[a.A%len(p.Kinds)]), p.Desc)
			}
		case "type":
			if len(roots) > 0 {
				ps.LookupType(roots[a.A%len(roots)], "Foo")
			}
		}
	}
	look()
	addAll()
	for _, id := range p.Kinds {
		ps.NeedCRDFor(gk(id), p.Desc)
		j, err := json.MarshalIndent(ps.CustomResourceDefinitions[gk(id)], "", " ")
		out[id] = string(j)
		if err != nil {
			out[id] = err.Error()
		}
	}
	for _, t := range types() {
		if j, err := json.MarshalIndent(ps.FlattenedSchemata[t], "", " "); err == nil && strings.HasPrefix(t.Package.ID, projMod) {
			ps.NeedFlattenedSchemaFor(t)
			j, _ = json.MarshalIndent(ps.FlattenedSchemata[t], "", " ")
			out[t.Package.ID+"."+t.Name] = string(j)
		}
	}
	look()
	return out
}
