//go:build !noapi

package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simsync"
)

// ---- concurrent use of a marker registry ----

// RegOp is one call on the registry.
type RegOp struct {
	Do     string `json:"do"` // register, define, lookup, help, helpfor, all
	Def    int    `json:"def,omitempty"`
	Text   string `json:"text,omitempty"`
	Target int    `json:"target,omitempty"`
	Help   int    `json:"help,omitempty"`
}

// RegDef is a definition that operations refer to.
type RegDef struct {
	Name   string
	Target int
	Kind   int // shape of its argument
}

// RegProg is a concurrent program on one registry.
type RegProg struct {
	Defs  []RegDef  `json:"defs"`
	Help  int       `json:"help"`
	First []RegOp   `json:"first,omitempty"` // before there is any concurrency
	Tasks [][]RegOp `json:"tasks"`
}

// RegCall is one completed call in a history.
type RegCall struct {
	Task, Seq int
	Op        RegOp
	Res       string
	Inv, Ret  int
}

type regArg struct {
	Size int    `marker:"size,optional"`
	Mode string `marker:"mode,optional"`
}

var regShapes = []any{"", 0, regArg{}, true}

var tick int

//go:norace
func stamp() int { tick++; return tick }

// inTasks runs the functions concurrently in the simulated process.
func inTasks(fs []func()) {
	var wg simsync.WaitGroup
	for _, f := range fs {
		wg.Go(f)
	}
	wg.Wait()
}

func (p *RegProg) run() any {
	tick = 0
	defs := make([]*markers.Definition, len(p.Defs))
	name := map[*markers.Definition]string{}
	for i, d := range p.Defs {
		defs[i] = markers.Must(markers.MakeDefinition(d.Name, markers.TargetType(d.Target), regShapes[d.Kind%len(regShapes)]))
		name[defs[i]] = fmt.Sprintf("d%d", i)
	}
	helps := make([]*markers.DefinitionHelp, p.Help)
	hname := map[*markers.DefinitionHelp]string{}
	for i := range helps {
		helps[i] = &markers.DefinitionHelp{Category: fmt.Sprint(i)}
		hname[helps[i]] = fmt.Sprintf("h%d", i)
	}
	say := func(d *markers.Definition) string {
		switch {
		case d == nil:
			return "none"
		case name[d] != "":
			return name[d]
		}
		return fmt.Sprintf("made %s %v", d.Name, d.Target)
	}
	reg := &markers.Registry{}
	do := func(o RegOp) string {
		switch o.Do {
		case "register":
			return fmt.Sprint(reg.Register(defs[o.Def]))
		case "define":
			d := p.Defs[o.Def]
			return fmt.Sprint(reg.Define(d.Name, markers.TargetType(d.Target), regShapes[d.Kind%len(regShapes)]))
		case "lookup":
			return say(reg.Lookup(o.Text, markers.TargetType(o.Target)))
		case "help":
			reg.AddHelp(defs[o.Def], helps[o.Help])
			return "ok"
		case "helpfor":
			h := reg.HelpFor(defs[o.Def])
			if h == nil {
				return "none"
			}
			return hname[h]
		case "all":
			var t []string
			for _, d := range reg.AllDefinitions() {
				t = append(t, say(d))
			}
			sort.Strings(t)
			return strings.Join(t, ",")
		}
		panic(o.Do)
	}
	for _, o := range p.First {
		do(o)
	}
	hist := make([][]RegCall, len(p.Tasks))
	var fs []func()
	for i, ops := range p.Tasks {
		fs = append(fs, func() {
			for j, o := range ops {
				c := RegCall{Task: i, Seq: j, Op: o, Inv: stamp()}
				c.Res = do(o)
				c.Ret = stamp()
				hist[i] = append(hist[i], c)
			}
		})
	}
	inTasks(fs)
	var all []RegCall
	for _, h := range hist {
		all = append(all, h...)
	}
	// what is there in the end, seen after everything
	for d := range p.Defs {
		c := RegCall{Task: len(p.Tasks), Op: RegOp{Do: "helpfor", Def: d}, Inv: stamp()}
		c.Res = do(c.Op)
		c.Ret = stamp()
		all = append(all, c)
	}
	c := RegCall{Task: len(p.Tasks), Op: RegOp{Do: "all"}, Inv: stamp()}
	c.Res = do(c.Op)
	c.Ret = stamp()
	return append(all, c)
}

// regModel is the registry as its documentation has it: a map per target.
type regModel struct {
	defs map[string]string // target/name -> definition
	help map[int]int
}

func (m *regModel) key() string {
	var t []string
	for k, v := range m.defs {
		t = append(t, k+"="+v)
	}
	for k, v := range m.help {
		t = append(t, fmt.Sprintf("h%d=%d", k, v))
	}
	sort.Strings(t)
	return strings.Join(t, ";")
}

func (m *regModel) clone() *regModel {
	n := &regModel{map[string]string{}, map[int]int{}}
	for k, v := range m.defs {
		n.defs[k] = v
	}
	for k, v := range m.help {
		n.help[k] = v
	}
	return n
}

func (m *regModel) do(p *RegProg, o RegOp) string {
	switch o.Do {
	case "register":
		d := p.Defs[o.Def]
		m.defs[fmt.Sprintf("%d/%s", d.Target, d.Name)] = fmt.Sprintf("d%d", o.Def)
		return "<nil>"
	case "define":
		d := p.Defs[o.Def]
		m.defs[fmt.Sprintf("%d/%s", d.Target, d.Name)] = fmt.Sprintf("made %s %v", d.Name, markers.TargetType(d.Target))
		return "<nil>"
	case "lookup":
		// an anonymous marker's name is everything before the "=", a named
		// one's what precedes the last ":" before it
		t := strings.TrimPrefix(o.Text, "+")
		anon, _, _ := strings.Cut(t, "=")
		if d, ok := m.defs[fmt.Sprintf("%d/%s", o.Target, anon)]; ok {
			return d
		}
		name := anon
		if i := strings.LastIndexByte(anon, ':'); i >= 0 && strings.Contains(t, "=") {
			name = anon[:i]
		}
		if d, ok := m.defs[fmt.Sprintf("%d/%s", o.Target, name)]; ok {
			return d
		}
		return "none"
	case "help":
		m.help[o.Def] = o.Help
		return "ok"
	case "helpfor":
		if h, ok := m.help[o.Def]; ok {
			return fmt.Sprintf("h%d", h)
		}
		return "none"
	case "all":
		var t []string
		for _, d := range m.defs {
			t = append(t, d)
		}
		sort.Strings(t)
		return strings.Join(t, ",")
	}
	panic(o.Do)
}

// linearizable: there is an order of the calls, respecting which of them had
// ended before others began, in which the model gives the same results.
func linearizable(p *RegProg, h []RegCall) bool {
	m := &regModel{map[string]string{}, map[int]int{}}
	for _, o := range p.First {
		m.do(p, o)
	}
	if len(h) > 60 {
		panic("history too long")
	}
	dead := map[string]bool{}
	var try func(done uint64, m *regModel) bool
	try = func(done uint64, m *regModel) bool {
		if done == 1<<len(h)-1 {
			return true
		}
		k := fmt.Sprintf("%x %s", done, m.key())
		if dead[k] {
			return false
		}
		first := 1 << 30 // earliest return of a pending call
		for i, c := range h {
			if done>>i&1 == 0 && c.Ret < first {
				first = c.Ret
			}
		}
		for i, c := range h {
			if done>>i&1 != 0 || c.Inv > first {
				continue
			}
			n := m.clone()
			if n.do(p, c.Op) == c.Res && try(done|1<<i, n) {
				return true
			}
		}
		dead[k] = true
		return false
	}
	return try(0, m)
}

// ---- concurrent use of a collector ----

// CollProg collects the markers of packages that are parsed already, each
// task in its own order.
type CollProg struct {
	Roots []string `json:"roots"`
	Tasks [][]int  `json:"tasks"` // which roots, in which order
	Types bool     `json:"types"` // through EachType
}

func (p *CollProg) run() any {
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: projRoot}, p.Roots...)
	if err != nil {
		return []string{"load: " + err.Error()}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].ID < roots[j].ID })
	for _, r := range roots {
		r.NeedSyntax()
	}
	reg := &markers.Registry{}
	for _, g := range allGenerators() {
		if err := g.RegisterMarkers(reg); err != nil {
			return []string{err.Error()}
		}
	}
	col := &markers.Collector{Registry: reg}
	if len(p.Tasks) == 0 { // alone, one after the other
		var out []string
		for _, r := range roots {
			out = append(out, collected(col, r, p.Types))
		}
		return out
	}
	got := make([][]string, len(p.Tasks))
	var fs []func()
	for i, ks := range p.Tasks {
		fs = append(fs, func() {
			for _, k := range ks {
				got[i] = append(got[i], fmt.Sprintf("%d\n", k%len(roots))+collected(col, roots[k%len(roots)], p.Types))
			}
		})
	}
	inTasks(fs)
	var out []string
	for _, g := range got {
		out = append(out, g...)
	}
	return out
}

func collected(col *markers.Collector, pkg *loader.Package, types bool) string {
	var t []string
	add := func(where string, v markers.MarkerValues) {
		for _, n := range sortedKeys(v) {
			j, err := json.Marshal(v[n])
			t = append(t, fmt.Sprintf("%s %s %T %s %v", where, n, v[n][0], j, err))
		}
	}
	if types {
		err := markers.EachType(col, pkg, func(i *markers.TypeInfo) {
			add("type "+i.Name+" "+i.Doc, i.Markers)
			for _, f := range i.Fields {
				add("field "+i.Name+"."+f.Name+" "+f.Doc+" "+string(f.Tag), f.Markers)
			}
		})
		pm, err2 := markers.PackageMarkers(col, pkg)
		add("package", pm)
		return fmt.Sprint(err, err2, "\n") + strings.Join(t, "\n")
	}
	ms, err := col.MarkersInPackage(pkg)
	type at struct {
		n ast.Node
		k int
	}
	var ns []at
	for n := range ms {
		k := int(n.Pos())
		if _, f := n.(*ast.File); f {
			k = -k
		}
		ns = append(ns, at{n, k})
	}
	sort.SliceStable(ns, func(i, j int) bool { return ns[i].k < ns[j].k })
	for _, n := range ns {
		var x markers.MarkerValues = ms[n.n]
		add(fmt.Sprintf("%T", n.n), x)
	}
	sort.Strings(t)
	return fmt.Sprint(err, "\n") + strings.Join(t, "\n")
}

func init() {
	oracles["registry"] = func(c *Case) *Finding {
		p := &RegProg{}
		if err := json.Unmarshal(c.Model, p); err != nil {
			panic(err)
		}
		for i := range c.Runs {
			r := ExecFn(NewFS(nil), c.Runs[i], p.run)
			if i == traceRun {
				lastTraced = r
			}
			lastAPI = r
			if len(r.Races) > 0 {
				return violation("data race", clipN(r.Races, 4)...)
			}
			if r.Out.Kind != "exit" {
				return violation("abnormal end", r.Status())
			}
			h := r.Value.([]RegCall)
			if !linearizable(p, h) {
				sort.SliceStable(h, func(a, b int) bool { return h[a].Inv < h[b].Inv })
				var t []string
				for _, x := range h {
					t = append(t, fmt.Sprintf("[%d,%d] task %d %s d%d %q target %d h%d -> %s", x.Inv, x.Ret, x.Task, x.Op.Do, x.Op.Def, x.Op.Text, x.Op.Target, x.Op.Help, x.Res))
				}
				return violation("calls do not take effect one at a time", t...)
			}
		}
		return nil
	}
	oracles["collector"] = func(c *Case) *Finding {
		p := &CollProg{}
		if err := json.Unmarshal(c.Model, p); err != nil {
			panic(err)
		}
		alone := *p
		alone.Tasks = nil
		ref := ExecFn(NewFS(c.Files), Spec{Tool: "api", Cwd: projRoot}, alone.run)
		if ref.Out.Kind != "exit" {
			return nil // judged elsewhere
		}
		want := ref.Value.([]string)
		for i := range c.Runs {
			r := ExecFn(NewFS(c.Files), c.Runs[i], p.run)
			if i == traceRun {
				lastTraced = r
			}
			lastAPI = r
			if len(r.Races) > 0 {
				return violation("data race", clipN(r.Races, 4)...)
			}
			if r.Out.Kind != "exit" {
				return violation("abnormal end", r.Status())
			}
			if rt.RaceEnabled {
				continue // what is compared below is compared in the other build
			}
			for _, g := range r.Value.([]string) {
				k, x, ok := strings.Cut(g, "\n")
				n := 0
				fmt.Sscan(k, &n)
				if !ok || n >= len(want) || want[n] != x {
					w := ""
					if n < len(want) {
						w = want[n]
					}
					return violation("markers collected concurrently differ", diffText(w, x))
				}
			}
		}
		return nil
	}
	register(&Campaign{Prop: "C15", Quick: 16000, Thorough: 600000, Race: true, Real: "pkg/markers and pkg/loader, called through their Go API by tasks of one simulated process", Stub: stubCode,
		Rule: "a case is a concurrent program on one marker registry (two to four tasks, up to five calls each, on few names so that they meet) whose history must be explained by one order of the calls, or (one case in sixteen) tasks that collect the markers of parsed packages through one collector, which must get what a single task gets; non-trivial when a scheduling choice differed from run-to-block",
		Case: func(w *Worker, i int) {
			r := w.R
			if i%16 == 15 {
				w.collCase(r)
				return
			}
			w.regCase(r)
		}})
}

var lastAPI *Result

func (w *Worker) regCase(r *Rand) {
	p := &RegProg{Help: 3}
	names := []string{"a", "a:b", "a:b:c", "x"}
	for j, n := 0, r.in(2, 5); j < n; j++ {
		p.Defs = append(p.Defs, RegDef{pick(r, names), r.n(3), r.n(4)})
	}
	op := func() RegOp {
		d := r.n(len(p.Defs))
		switch r.n(12) {
		case 0, 1, 2:
			return RegOp{Do: "register", Def: d}
		case 3:
			return RegOp{Do: "define", Def: d}
		case 4, 5, 6:
			t := p.Defs[d].Target
			if r.p(1, 4) {
				t = r.n(3)
			}
			return RegOp{Do: "lookup", Text: "+" + pick(r, names) + pick(r, []string{"", "=1", ":size=1", ":mode=x,size=2"}), Target: t}
		case 7, 8:
			return RegOp{Do: "help", Def: d, Help: r.n(3)}
		case 9, 10:
			return RegOp{Do: "helpfor", Def: d}
		}
		return RegOp{Do: "all"}
	}
	for j := r.n(3); j > 0; j-- {
		p.First = append(p.First, op())
	}
	for j, n := 0, r.in(2, 4); j < n; j++ {
		var t []RegOp
		for k := r.in(1, 5); k > 0; k-- {
			t = append(t, op())
		}
		p.Tasks = append(p.Tasks, t)
	}
	w.apiCase("registry", &Scenario{Name: "registry"}, p, 3)
}

func (w *Worker) collCase(r *Rand) {
	pr := errProject(r, 1, 4)
	p := &CollProg{Roots: []string{"./..."}, Types: r.p(1, 2)}
	for j, n := 0, r.in(2, 4); j < n; j++ {
		var t []int
		for k := r.in(1, 4); k > 0; k-- {
			t = append(t, r.n(12))
		}
		p.Tasks = append(p.Tasks, t)
	}
	w.apiCase("collector", pr.S, p, 3)
}

// apiCase judges an API program under n random schedules.
func (w *Worker) apiCase(oracle string, s *Scenario, model any, n int) {
	r := w.R
	d := 200
	for j := 0; j < n; j++ {
		sp := Spec{Tool: "api", Cwd: projRoot}
		sp.Plan.Sched = randSched(r, &Result{Out: rt.Outcome{Decisions: d}})
		if j > 0 && r.p(1, 3) {
			sp.Plan.Map = rt.MapPlan{Mode: "shuffle", Seed: r.u() >> 8}
		}
		l := w.newCase(oracle, s, sp)
		l.Case.Model = mustJSON(model)
		w.current(l)
		f := w.check(l)
		if lastAPI != nil {
			d = max(20, lastAPI.Out.Decisions)
			w.count(oracle+": "+statusClass(lastAPI), 1)
			if len(lastAPI.Out.Switches) > 0 {
				w.nontrivial(l, lastAPI)
			}
		}
		if f != nil {
			return
		}
	}
}
