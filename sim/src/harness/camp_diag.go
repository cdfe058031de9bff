package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
)

// Mistake is something wrong with the input that some generator has to report.
type Mistake struct {
	Token string // unique text that marks its place in the sources
	File  string // where it is; empty: the report need not say
	To    string // "end": it may be reported anywhere from there on; "type": up to the next type
	Says  string // what the report has to mention if it has no position
	Span  [2]int
}

// mistakesOf locates the mistakes that are still present.
func mistakesOf(s *Scenario) any {
	files := s.render()
	out := []Mistake{}
	for _, m := range s.metas() {
		k, ok := m.(*Mistake)
		if !ok {
			continue
		}
		x := *k
		if x.File != "" {
			closed := false
			for i, l := range strings.Split(files[path.Clean(x.File)], "\n") {
				if strings.Contains(strings.ToLower(l), x.Token) {
					if x.Span[0] == 0 {
						x.Span[0] = i + 1
					}
					x.Span[1] = i + 1
				}
				if x.To == "end" && x.Span[0] != 0 {
					x.Span[1] = i + 1
				}
				if x.To == "type" && x.Span[0] != 0 && !closed {
					x.Span[1] = i + 1
					closed = strings.HasPrefix(l, "type ")
				}
			}
		}
		out = append(out, x)
	}
	return out
}

func (m *Mistake) reportedIn(stderr []string) bool {
	base := path.Base(m.File)
	for _, l := range stderr {
		if m.File == "" {
			if m.Says == "" && !generic(l) || m.Says != "" && strings.Contains(l, m.Says) {
				return true
			}
			continue
		}
		i := strings.Index(l, base+":")
		if i < 0 {
			continue
		}
		// the go command gives paths relative to where it ran
		j := i
		for j > 0 && !strings.ContainsRune(" \t\"(:", rune(l[j-1])) {
			j--
		}
		if p := strings.TrimPrefix(l[j:i], "./") + base; !strings.HasSuffix("/"+strings.TrimPrefix(m.File, "/"), "/"+strings.TrimPrefix(p, "/")) {
			continue
		}
		n := 0
		fmt.Sscanf(l[i+len(base)+1:], "%d", &n)
		if n >= m.Span[0] && n <= m.Span[1] {
			return true
		}
	}
	return false
}

func cyclic(ms []Mistake) bool {
	for _, m := range ms {
		if m.Says == "cycle" {
			return true
		}
	}
	return false
}

func init() {
	// Every run has to fail, and to report every mistake at its place.
	oracles["mistakes"] = func(c *Case) *Finding {
		var ms []Mistake
		if err := json.Unmarshal(c.Model, &ms); err != nil {
			panic(err)
		}
		if len(ms) == 0 {
			return nil
		}
		for i := range c.Runs {
			o := c.run(i)
			if o.Res.Abort() {
				return violation("abnormal end on wrong input", o.Res.Status(), clip(o.Res.Out.Panic, 600))
			}
			if o.Res.OK() {
				return violation("success in spite of a mistake", fmt.Sprintf("%+v", ms), o.Res.Stderr)
			}
			ls := lines(o.Res.Stderr)
			for _, m := range ms {
				if !m.reportedIn(ls) {
					return violation("mistake not reported", fmt.Sprintf("%+v", m), o.Res.Stderr)
				}
			}
			// where go/packages breaks an import cycle depends on the order of a
			// map, and with it what else is wrong
			if i > 0 && !cyclic(ms) {
				if f := diffObs(c.run(0), o, false); f != nil {
					return f
				}
			}
		}
		return nil
	}
}

// planter adds mistakes to a project.
type planter struct {
	r    *Rand
	p    *Proj
	n    int
	need map[string]bool // generators that must run
	used map[string]bool // packages that have a mistake that hides others
	args []string        // wrong arguments
	opts map[string]bool
}

func (q *planter) token() string { q.n++; return fmt.Sprintf("zz%d", q.n) }

// markers that don't go with the type of the field
var misapplied = [][2]string{
	{"kubebuilder:validation:MinLength=4", "int32"}, {"kubebuilder:validation:MinLength=1", "bool"}, {"kubebuilder:validation:MaxLength=1", "[]string"},
	{"kubebuilder:validation:Pattern=\"a\"", "int32"}, {"kubebuilder:validation:Pattern=\"a\"", "map[string]string"},
	{"kubebuilder:validation:Maximum=4", "string"}, {"kubebuilder:validation:Minimum=1.5", "int32"}, {"kubebuilder:validation:Maximum=0.5", "int64"}, {"kubebuilder:validation:Minimum=0", "[]int32"},
	{"kubebuilder:validation:MultipleOf=2", "string"}, {"kubebuilder:validation:MultipleOf=0.5", "int32"}, {"kubebuilder:validation:ExclusiveMinimum=true", "string"}, {"kubebuilder:validation:ExclusiveMaximum=true", "bool"},
	{"kubebuilder:validation:MinItems=1", "map[string]string"}, {"kubebuilder:validation:MaxItems=2", "string"}, {"kubebuilder:validation:UniqueItems=true", "string"},
	{"kubebuilder:validation:MinProperties=1", "[]string"}, {"kubebuilder:validation:MaxProperties=1", "string"},
	{"kubebuilder:validation:items:MinLength=1", "string"}, {"kubebuilder:validation:items:MinLength=1", "[]int32"}, {"kubebuilder:validation:items:Maximum=1", "[]string"}, {"kubebuilder:validation:items:Enum={a}", "string"},
	{"kubebuilder:validation:items:XValidation:rule=\"true\",reason=Bogus", "[]string"}, {"kubebuilder:validation:XValidation:rule=\"true\",reason=Bogus", "int32"},
	{"mapType=bogus", "map[string]string"}, {"mapType=granular", "string"}, {"structType=atomic", "string"}, {"structType=bogus", "map[string]string"},
	{"listType=set", "map[string]string"}, {"listType=atomic", "string"}, {"listType=bogus", "[]string"}, {"listMapKey=a", "[]string"}, {"listMapKey=a", "string"},
}

// types that have no schema
var inexpressible = []string{
	"chan int", "[]chan int", "map[string]chan int", "func()", "[]func()", "*func()", "map[int]string", "map[bool]string", "map[string]map[int32]string", "[]map[int]string",
	"any", "error", "[]any", "*any", "map[string]any", "[]error", "interface{}", "[]interface{}", "map[string]interface{}", "interface{ X() }",
	"complex64", "[]complex128", "struct{ A string }", "[]struct{ A string }", "map[string]struct{}", "*struct{}",
	"*@", "[]@", "map[string]@", "map[string][]@", "[]*@", "map[@]string",
}

// api plants a mistake in the API types.
func (q *planter) api() bool {
	r := q.r
	if q.p.API == nil || len(q.p.API.slots) == 0 {
		return false
	}
	s := pick(r, q.p.API.slots)
	if q.used[s.pkg.path] {
		return false
	}
	t := q.token()
	m := &Mistake{Token: t, File: s.file.Path}
	name := "Zz" + t[2:]
	field := func(marker, typ, tag string) {
		n := &Node{Meta: m}
		if marker != "" {
			n.Pre = "\t// +" + strings.ReplaceAll(marker, "@", t) + "\n"
		}
		n.Pre += "\t" + name + " " + typ + " " + strings.ReplaceAll(tag, "@", t) + "\n"
		s.spec.add(n)
	}
	tag := "`json:\"@,omitempty\"`"
	switch r.n(14) {
	case 0, 1: // a malformed marker; it hides everything else that's wrong with the package
		if q.opts["schema:"+s.pkg.path] {
			return false
		}
		q.opts["marker:"+s.pkg.path] = true
		field(pick(r, []string{"kubebuilder:validation:Maximum=@", "kubebuilder:validation:MaxLength=\"@", "kubebuilder:validation:XValidation:message=\"@\"",
			"kubebuilder:default={@: b", "kubebuilder:validation:UniqueItems=@", "kubebuilder:validation:Enum={@", "kubebuilder:validation:MinItems=@"}), "string", tag)
	case 2:
		n := &Node{Meta: m, Pre: "// +kubebuilder:" + pick(r, []string{"printcolumn:name=" + t, "printcolumn:format=" + t, "subresource:scale:specpath=" + t, "resource:scope=Cluster," + t + "=1", "storageversion:" + t + "=2"}) + "\n"}
		if strings.Contains(n.Pre, "storageversion") {
			n.Pre = "// +kubebuilder:selectablefield:" + t + "=x\n"
		}
		if q.opts["schema:"+s.pkg.path] {
			return false
		}
		q.opts["marker:"+s.pkg.path] = true
		s.typ.Kids = append([]*Node{n}, s.typ.Kids...)
	case 3: // a well-formed marker that doesn't say anything sensible about the kind
		if q.opts["marker:"+s.pkg.path] {
			return false
		}
		q.opts["schema:"+s.pkg.path] = true
		m.To = "type"
		mk := pick(r, []string{"kubebuilder:metadata:labels=@", "kubebuilder:metadata:annotations=@", "kubebuilder:metadata:labels=a=b;@", "kubebuilder:metadata:labels=a=b,annotations={\"c=d\",@}",
			"kubebuilder:validation:XValidation:rule=\"@\",reason=@"})
		s.typ.Kids = append([]*Node{{Meta: m, Pre: "// +" + strings.ReplaceAll(mk, "@", t) + "\n"}}, s.typ.Kids...)
	case 4: // types that can't be copied
		if q.opts["marker:"+s.pkg.path] {
			return false
		}
		q.opts["schema:"+s.pkg.path] = true
		typ := pick(r, []string{"chan int", "func()", "[2]string", "map[string]chan int", "[]func()", "[][2][]string", "interface{ X() }", "*interface{}", "[]any", "map[string]error", "map[string][2]string", "*[3]string"})
		s.file.Body.add(&Node{Meta: m, Pre: "// +kubebuilder:object:generate=true\ntype " + name + " struct {\n\tA string `json:\"a\"`\n\tB " + typ + " `json:\"" + t + "\"`\n}\n\n"})
		q.need["object"] = true
		return true
	default:
		if q.opts["marker:"+s.pkg.path] {
			return false
		}
		q.opts["schema:"+s.pkg.path] = true
		switch r.n(12) {
		case 0, 1, 2, 3: // a marker that doesn't go with the type
			x := pick(r, misapplied)
			field(x[0], x[1], tag)
		case 4, 5, 6: // a type that no schema describes
			field("", strings.ReplaceAll(pick(r, inexpressible), "@", "Undefined"+strings.ToUpper(t[:1])+t[1:]), tag)
		case 7:
			field("", "Undefined"+strings.ToUpper(t[:1])+t[1:], tag)
		case 8:
			field("", "string", "// "+t+" has no tag")
		case 9:
			field("", pick(r, []string{"float64", "float32", "[]float64", "*float32", "map[string]float64"}), tag)
			q.opts["nodangerous"] = true
		case 10:
			field("kubebuilder:validation:XValidation:rule=\"true\",reason="+t, "string", tag)
		case 11:
			// one mistake in each of the versions
			field("listType=bogus", "[]string", tag)
		}
	}
	q.need["crd"] = true
	return true
}

// broken plants a mistake that hides whatever else is wrong with a package.
func (q *planter) broken() bool {
	r := q.r
	var f *GFile
	var pk string
	if q.p.API != nil && r.p(2, 3) {
		s := pick(r, q.p.API.slots)
		f, pk = s.file, s.pkg.path
		q.need["crd"] = true
	} else if len(q.p.Ctl) > 0 {
		c := pick(r, q.p.Ctl)
		f, pk = pick(r, c.files), c.path
		q.need["rbac"] = true
	} else {
		return false
	}
	if q.used[pk] || q.opts["marker:"+pk] || q.opts["schema:"+pk] {
		return false
	}
	q.used[pk] = true
	t := q.token()
	m := &Mistake{Token: t, File: f.Path}
	n := &Node{Meta: m}
	switch r.n(4) {
	case 0:
		n.Pre = "type Broken" + strings.ToUpper(t) + " struct {\n"
		m.To = "end"
	case 1:
		n.Pre = "var " + t + " = = 3\n"
		m.To = "end"
	case 2:
		n.Pre = "func " + t + "( {\n}\n"
		m.To = "end"
	case 3:
		im := map[string]string{}
		for a, i := range f.Imports {
			im[a] = i
		}
		im["bogus"] = "example.com/does/not/exist/" + t
		f.Imports = im
		n.Pre = "var _ bogus.Thing\n"
	}
	f.Body.add(n)
	return true
}

// ctl plants a mistake in the markers of a controller package.
func (q *planter) ctl() bool {
	r := q.r
	if len(q.p.Ctl) == 0 {
		return false
	}
	c := pick(r, q.p.Ctl)
	if q.used[c.path] {
		return false
	}
	t := q.token()
	f := pick(r, c.files)
	m := &Mistake{Token: t, File: f.Path}
	rb, wh := "+kubebuilder:rbac:", "+kubebuilder:webhook:"
	k := ""
	switch r.n(10) {
	case 0, 1, 2, 3:
		k = rb + pick(r, []string{"groups=apps,resources=" + t + ",verbs=get,bogus=1", "groups=apps,resources=" + t, "groups=apps,resources={" + t + ",verbs=get", "groups=apps,resources=" + t + ",verbs=\"get", "verbs=get;list,namespace={" + t + "}"})
		q.need["rbac"] = true
	case 4, 5:
		// the first impossible webhook hides what comes after it
		if q.opts["webhook"] {
			return false
		}
		q.opts["webhook syntax"] = true
		k = wh + pick(r, []string{"path=/" + t, "path=/" + t + ",mutating=maybe,failurePolicy=fail,groups=a,resources=b,verbs=create,versions=v1,name=x.y.z,sideEffects=None,admissionReviewVersions=v1",
			"path=/" + t + ",mutating=true,failurePolicy=fail,groups=a,resources=b,verbs=create,versions=v1,name=x.y.z,sideEffects=None,admissionReviewVersions=v1,timeoutSeconds=soon"})
		q.need["webhook"] = true
	default:
		// well-formed, but not something the API server would take
		if q.opts["webhook"] || q.opts["webhook syntax"] || q.opts["marker:"+c.path] {
			return false
		}
		q.opts["webhook"] = true
		q.used[c.path] = true
		m.File = ""
		base := "failurePolicy=fail,groups=a,resources=b,verbs=create,versions=v1,name=" + t + ".y.z,mutating=" + pick(r, []string{"true", "false"})
		k = wh + base + pick(r, []string{",path=/p,url=\"https://x\",sideEffects=None,admissionReviewVersions=v1", ",sideEffects=None,admissionReviewVersions=v1",
			",path=/p,sideEffects=Some,admissionReviewVersions=v1", ",path=/p,admissionReviewVersions=v1", ",path=/p,sideEffects=None,admissionReviewVersions=v1,timeoutSeconds=" + pick(r, []string{"99", "31", "-1"}),
			",path=/p,sideEffects=None,admissionReviewVersions=v1,matchPolicy=Loosely", ",path=/p,sideEffects=None,admissionReviewVersions=v1,webhookVersions=v1beta1"})
		q.need["webhook"] = true
		f.Body.add(&Node{Kids: []*Node{fixed("\n"), {Pre: "// " + k + "\n", Meta: m}, fixed("\n")}})
		return true
	}
	q.opts["marker:"+c.path] = true
	f.Body.add(&Node{Kids: []*Node{fixed("\n"), {Pre: "// " + k + "\n", Meta: m}, fixed("\n")}})
	return true
}

// version plants a kind without storage or served version.
func (q *planter) version() bool {
	r := q.r
	if q.p.API == nil {
		return false
	}
	s := pick(r, q.p.API.slots)
	var same []slot
	for _, o := range q.p.API.slots {
		if o.kind == s.kind && o.pkg.group == s.pkg.group {
			same = append(same, o)
			if q.used[o.pkg.path] || q.opts["marker:"+o.pkg.path] {
				return false
			}
		}
	}
	m := &Mistake{Says: s.kind}
	for _, o := range same {
		q.used[o.pkg.path] = true
		for _, k := range o.typ.Kids {
			if strings.Contains(k.Pre, "storageversion") || strings.Contains(k.Pre, "unservedversion") || strings.Contains(k.Pre, "skipversion") {
				k.Off = true
			}
		}
	}
	switch {
	case len(same) > 1 && r.p(1, 2):
		// no storage version among several
		same[0].typ.Kids = append([]*Node{{Meta: m, Fixed: true}}, same[0].typ.Kids...)
		for _, o := range same {
			for _, k := range o.typ.Kids {
				k.Fixed = true
			}
			o.typ.Fixed = true
		}
	default:
		for i, o := range same {
			n := &Node{Pre: "// +kubebuilder:unservedversion\n", Fixed: true}
			if i == 0 {
				n.Meta = m
				n.Pre += "// +kubebuilder:storageversion\n"
			}
			o.typ.Kids = append([]*Node{n}, o.typ.Kids...)
		}
	}
	q.need["crd"] = true
	return true
}

// cycle makes packages import each other.
func (q *planter) cycle() bool {
	if q.p.API == nil {
		return false
	}
	g := q.p.API
	r := q.r
	var ps []*gpkg
	for _, p := range g.pkgs {
		if strings.HasPrefix(p.path, projMod+"/nested") {
			return false
		}
	}
	// (one of them is loaded for sure)
	first := r.n(len(g.pkgs))
	for i, p := range g.pkgs {
		if i != first {
			ps = append(ps, p)
		}
	}
	ps = append(ps, g.common...)
	if len(ps) < 1 {
		return false
	}
	ps = append([]*gpkg{g.pkgs[first]}, shuffled(r, ps)[:r.in(1, min(2, len(ps)))]...)
	for _, p := range ps {
		if q.used[p.path] || q.opts["marker:"+p.path] || q.opts["schema:"+p.path] {
			return false
		}
	}
	for i, p := range ps {
		o := ps[(i+1)%len(ps)]
		f := p.file[r.n(len(p.file))]
		im := map[string]string{}
		for a, x := range f.Imports {
			im[a] = x
		}
		im["loop"] = o.path
		f.Imports = im
		f.Keep = true
		n := &Node{Fixed: true, Pre: "// Loop goes round.\ntype Loop struct {\n\tNext *loop.Loop `json:\"next\"`\n}\n\n"}
		if i == 0 {
			n.Meta = &Mistake{Says: "cycle"}
		}
		f.Body.add(n)
	}
	for _, p := range ps {
		q.used[p.path] = true
	}
	q.need["crd"] = true
	return true
}

func init() {
	register(&Campaign{Prop: "C08", Quick: 4500, Thorough: 60000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project that is fine (checked first), into which one to four mistakes are planted - malformed and misapplied markers, types no schema can express, undefined names, syntax errors, missing imports, import cycles, versions nobody serves or stores, impossible webhooks, wrong command lines - run under the reference and several other schedules and iteration orders; every run must fail and report every mistake at its place, with the same diagnostics; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			if i%5 == 4 {
				// any number of mistakes anywhere: only agreement is judged
				p := randProject(r, r.in(1, 6))
				gens := subset(r, p.gens(), 2, 3)
				if len(gens) == 0 {
					return
				}
				args, _ := p.command(r, gens)
				w.sameCampaign(p.S, spec("controller-gen", projRoot, args...), w.scale(4, 8), false)
				return
			}
			p := randProject(r, 0)
			if p.API == nil && len(p.Ctl) == 0 {
				return
			}
			q := &planter{r: r, p: p, need: map[string]bool{}, used: map[string]bool{}, opts: map[string]bool{}}
			base := p.S.render()
			kinds := []func() bool{q.api, q.api, q.api, q.ctl, q.ctl, q.broken, q.version, q.cycle}
			planted := 0
			for j, n := 0, r.in(1, 4); j < n; j++ {
				if pick(r, kinds)() {
					planted++
				}
			}
			var bad []string
			wrongArgs := planted == 0 || r.p(1, 10)
			have := map[string]bool{}
			for _, g := range p.gens() {
				have[g] = true
			}
			var gens []string
			for _, g := range p.gens() {
				if q.need[g] || r.p(1, 3) {
					gens = append(gens, g)
				}
			}
			for _, g := range sortedKeys(q.need) {
				if !have[g] {
					gens = append(gens, g)
				}
			}
			if len(gens) == 0 {
				gens = []string{pick(r, p.gens())}
			}
			var args []string
			for _, g := range gens {
				a := p.genArg(r, g)
				if q.opts["nodangerous"] {
					a = strings.ReplaceAll(a, "allowDangerousTypes=true", "allowDangerousTypes=false")
				}
				args = append(args, a)
			}
			args = append(args, outArgs(r, gens, p.Dir)...)
			args = append(args, pathArgs(p.paths(r))...)
			args = shuffled(r, args)
			for _, f := range p.S.Files {
				f.Keep = true
			}
			good := spec("controller-gen", projRoot, args...)
			ok := Exec(NewFS(base), good)
			w.count("base "+statusClass(ok), 1)
			if !ok.OK() {
				w.skip("the project had other mistakes already")
				return
			}
			sp := good
			if wrongArgs {
				kinds := []string{"crd:bogus=1", "nonesuch", "rbac", "output:nonesuch:dir=x", "crd:maxDescLen=many", "paths=./not/there", "output:crd:sideways=x", "object:headerFile=not/there.txt,crd", "-zap",
					"webhook:headerFile", "paths", "rbac:roleName=a,roleName=b,x=y", "schemapatch", "crd:crdVersions={v1", "output:dir", "paths=\"./...", gens[0]}
				for j, n := 0, 1+r.n(6)/4; j < n; j++ {
					bad = append(bad, pick(r, kinds))
				}
				if r.p(1, 3) {
					// output rules for generators that do not run
					bad = nil
					for _, g := range shuffled(r, []string{"crd", "object", "rbac", "webhook", "schemapatch", "applyconfiguration"}) {
						runs := false
						for _, x := range gens {
							runs = runs || x == g
						}
						if !runs && len(bad) < 3 {
							bad = append(bad, "output:"+g+":"+pick(r, []string{"dir=" + g, "none", "stdout"}))
						}
					}
				}
				sp.Args = append(append([]string{}, bad...), args...)
				if r.p(1, 2) {
					sp.Args = append(append([]string{}, args...), bad...)
				}
				s := &Scenario{Name: "command line"}
				for p, t := range base {
					s.raw(p, t).Keep = true
				}
				s.Files = sortFiles(s.Files)
				w.mistakes(s, sp, func(*Scenario) any { return []Mistake{{}} })
				return
			}
			w.mistakes(p.S, sp, mistakesOf)
		}})
}

func (w *Worker) mistakes(s *Scenario, sp Spec, model func(*Scenario) any) {
	r := w.R
	l := &Live{Case: w.newCase("mistakes", s, sp).Case, Scn: s, Model: model}
	l.Case.Model = mustJSON(model(s))
	w.current(l)
	if w.check(l) != nil {
		return
	}
	b := l.Case.run(0)
	w.count("wrong input: "+statusClass(b.Res), 1)
	for _, v := range variants(r, sp, b.Res, w.scale(3, 6)) {
		k := &Live{Case: l.Case.clone(), Scn: s, Model: model}
		k.Case.Runs = []Spec{sp, v}
		w.current(k)
		f := w.check(k)
		o := k.Case.run(1)
		if o.Res.Out.MapPerm > 0 || len(o.Res.Out.Switches) > 0 {
			w.nontrivial(k, o.Res)
		}
		if f != nil {
			return
		}
	}
}
