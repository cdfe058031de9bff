package main

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// genCmd is one generator of a command line, with where its output goes.
type genCmd struct {
	gen, arg, out string
	in            []string // directories its files go to
	code          bool     // generated code goes beside the sources
}

// plan gives every generator an output directory of its own.
func (p *Proj) plan(r *Rand, gens []string) []genCmd {
	var out []genCmd
	for _, g := range gens {
		c := genCmd{gen: g, arg: p.genArg(r, g), code: g == "object"}
		switch r.n(5) {
		case 0: // the default rule
			c.in = []string{projRoot + "/config/" + g}
		case 1:
			c.out = "output:" + g + ":artifacts:config=deploy/" + g
			c.in = []string{projRoot + "/deploy/" + g}
		case 2:
			c.out = "output:" + g + ":artifacts:config=deploy/" + g + ",code=gen/" + g
			c.in = []string{projRoot + "/deploy/" + g, projRoot + "/gen/" + g}
			c.code = false
		case 3:
			c.out = "output:" + g + ":dir=/work/elsewhere/" + g
			c.in = []string{"/work/elsewhere/" + g}
			c.code = false
		default:
			c.out = "output:" + g + ":dir=out/" + g
			c.in = []string{projRoot + "/out/" + g}
			c.code = false
		}
		out = append(out, c)
	}
	return out
}

func (c genCmd) args() []string {
	if c.out == "" {
		return []string{c.arg}
	}
	return []string{c.arg, c.out}
}

func cmdArgs(cs []genCmd, rest []string) []string {
	var out []string
	for _, c := range cs {
		out = append(out, c.args()...)
	}
	return append(out, rest...)
}

// said is the set of specific diagnostics.
func said(o *Obs) map[string]bool {
	out := map[string]bool{}
	for _, l := range lines(o.Res.Stderr) {
		if !generic(l) {
			out[l] = true
		}
	}
	return out
}

func diffSets(a, b map[string]bool) []string {
	var out []string
	for _, x := range sortedKeys(a) {
		if !b[x] {
			out = append(out, "only in first: "+clip(x, 300))
		}
	}
	for _, x := range sortedKeys(b) {
		if !a[x] {
			out = append(out, "only in second: "+clip(x, 300))
		}
	}
	return out
}

func init() {
	// Runs[0] is several generators together, the others are the same
	// generators alone. Together they do what each does alone.
	oracles["union"] = func(c *Case) *Finding {
		all := c.run(0)
		if all.Res.Abort() {
			return violation("abnormal end", all.Res.Status(), clip(all.Res.Out.Panic, 600))
		}
		want, diag := map[string]string{}, map[string]bool{}
		for p, x := range c.Files {
			want[p] = x
		}
		owner := map[string]int{}
		ok := true
		for i := 1; i < len(c.Runs); i++ {
			o := c.run(i)
			if o.Res.Abort() {
				return violation("abnormal end", o.Res.Status(), clip(o.Res.Out.Panic, 600))
			}
			ok = ok && o.Res.OK()
			for p, x := range c.produced(o) {
				want[p] = x
				owner[p] = i
			}
			for l := range said(o) {
				diag[l] = true
			}
		}
		if len(c.Runs[0].Faults) == 0 {
			if !ok && !all.Res.OK() {
				// a mistake in the markers of one generator is in the way of
				// the others, too, but something has to be said
				for l := range diag {
					if said(all)[l] {
						return nil
					}
				}
				if len(diag) > 0 {
					return violation("diagnostics missing when generators run together", all.Res.Stderr)
				}
				return nil
			}
			if ok != all.Res.OK() {
				return violation("exit status of all is not that of each", all.Res.Status(), fmt.Sprintf("each alone succeeds: %v", ok), all.Res.Stderr)
			}
			if d := diffFiles(want, all.Files); len(d) > 0 {
				return violation("generators disturb each other", clipN(d, 5)...)
			}
			if d := diffSets(said(all), diag); len(d) > 0 {
				return violation("diagnostics of all are not those of each", clipN(d, 5)...)
			}
			return nil
		}
		// the faults hit the output of some of the generators
		hit := map[int]bool{}
		for _, f := range c.Runs[0].Faults {
			for p, i := range owner {
				if p == f.Path || strings.HasPrefix(p, f.Path+"/") {
					hit[i] = true
				}
			}
		}
		for _, p := range sortedKeys(owner) {
			if hit[owner[p]] {
				continue
			}
			if x, have := all.Files[p]; !have || x != want[p] {
				return violation("failing generator takes others with it", p, faultText(c.Runs[0]), all.Res.Stderr)
			}
		}
		if all.Res.OK() {
			if d := diffFiles(want, all.Files); len(d) > 0 {
				return violation("success although the output of a generator could not be written", append([]string{faultText(c.Runs[0])}, clipN(d, 5)...)...)
			}
		}
		return nil
	}

	// Runs[0] is the reference on fresh files; Runs[1:] run one after the other
	// on files of an earlier day (Old and Stale); for the last of them, the
	// sources are as in the reference.
	oracles["history"] = func(c *Case) *Finding {
		a := c.run(0)
		if a.Res.Abort() {
			return violation("abnormal end", a.Res.Status())
		}
		made := c.produced(a)
		if _, ok := made["<stdout>"]; ok {
			delete(made, "<stdout>")
		}
		start := map[string]string{}
		for p, x := range c.Files {
			start[p] = x
		}
		for p, x := range c.Old {
			start[p] = x
		}
		if c.Params["stale"] != "" {
			for p, x := range made {
				if _, src := c.Files[p]; !src {
					start[p] = stale(p, x, c.Params["stale"])
				}
			}
		}
		f := NewFS(start)
		var o *Obs
		var before map[string]string
		n := len(c.Runs)
		for i := 1; i < n; i++ {
			if i == n-1 {
				for p := range c.Old {
					if x, ok := c.Files[p]; ok {
						f.Put(p, []byte(x))
					} else {
						f.Del(p)
					}
				}
				before = Files(f)
			}
			o = c.step(i, f)
			if i < n-1 && o.Res.Abort() {
				return nil // judged elsewhere
			}
		}
		if a.Res.Status() != o.Res.Status() {
			return violation("exit status depends on history", a.Res.Status(), o.Res.Status(), o.Res.Stderr)
		}
		if a.Res.OK() {
			for _, p := range sortedKeys(made) {
				if x, ok := o.Files[p]; !ok || x != made[p] {
					return violation("output depends on history", p, diffText(made[p], x))
				}
			}
			if a.Res.Stdout != o.Res.Stdout {
				return violation("standard output depends on history", diffText(a.Res.Stdout, o.Res.Stdout))
			}
		}
		delete(before, "")
		for _, d := range diffFiles(before, o.Files) {
			p := strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(d, "missing "), "content of "), "extra ")
			p, _, _ = strings.Cut(p, " differs")
			if _, ok := made[p]; !ok && !isTemp(p) {
				return violation("run touches what it does not produce", d)
			}
		}
		if d := diffErr(a, o); len(d) > 0 {
			return violation("diagnostics depend on history", d...)
		}
		return nil
	}

	// Nothing but the places in the model may be written to.
	oracles["contained"] = func(c *Case) *Finding {
		var in []string
		if err := json.Unmarshal(c.Model, &in); err != nil {
			panic(err)
		}
		for i := range c.Runs {
			o := c.run(i)
			for _, op := range o.Res.Ops {
				if !op.Mut && !writeOps[op.Kind] || strings.HasPrefix(op.Path, "/dev/") {
					continue
				}
				if !c.allowed(op, in) {
					return violation("write outside of the configured outputs", op.String(), faultText(c.Runs[i]))
				}
			}
			for _, p := range sortedKeys(c.Files) {
				if x, ok := o.Files[p]; (!ok || x != c.Files[p]) && !c.inOut(p, in) {
					return violation("input changed", p, faultText(c.Runs[i]))
				}
			}
			for _, p := range sortedKeys(o.Files) {
				if _, ok := c.Files[p]; !ok && !c.inOut(p, in) && !c.beside(p, in) {
					return violation("file outside of the configured outputs", p, faultText(c.Runs[i]))
				}
			}
		}
		return nil
	}

	// Runs say the same in different words.
	oracles["equiv"] = func(c *Case) *Finding {
		a := c.run(0)
		for i := 1; i < len(c.Runs); i++ {
			b := c.run(i)
			if a.Res.OK() != b.Res.OK() || b.Res.Abort() {
				return violation("exit status", a.Res.Status(), b.Res.Status(), a.Res.Stderr, b.Res.Stderr, strings.Join(c.Runs[i].Args, " "))
			}
			if !a.Res.OK() {
				if d := diffSets(said(a), said(b)); len(d) > 0 {
					return violation("diagnostics", append(clipN(d, 4), strings.Join(c.Runs[i].Args, " "))...)
				}
				continue
			}
			if d := diffFiles(a.Files, b.Files); len(d) > 0 {
				return violation("files", append(clipN(d, 4), strings.Join(c.Runs[i].Args, " "))...)
			}
			if c.Params["stdout"] != "" && a.Res.Stdout != b.Res.Stdout {
				return violation("standard output", diffText(a.Res.Stdout, b.Res.Stdout), strings.Join(c.Runs[i].Args, " "))
			}
		}
		return nil
	}
}

var writeOps = map[string]bool{"create": true, "openw": true, "write": true, "mkdir": true, "mkdirall": true, "rename": true, "remove": true, "removeall": true, "chmod": true, "truncate": true, "createtemp": true, "symlink": true, "link": true, "chtimes": true}

func under(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// inOut: p is in one of the output directories.
func (c *Case) inOut(p string, in []string) bool {
	for _, d := range in {
		if !strings.HasPrefix(d, "+") && under(p, d) {
			return true
		}
	}
	return false
}

// beside: p is generated code beside the sources.
func (c *Case) beside(p string, in []string) bool {
	if _, src := c.Files[p]; src || !strings.HasPrefix(path.Base(p), "zz_generated") {
		return false
	}
	for _, d := range in {
		if d == "+code" {
			for q := range c.Files {
				if strings.HasSuffix(q, ".go") && path.Dir(q) == path.Dir(p) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Case) allowed(op simfs.Op, in []string) bool {
	if c.inOut(op.Path, in) || c.beside(op.Path, in) {
		return true
	}
	if op.Kind == "mkdir" || op.Kind == "mkdirall" {
		// parents of outputs, and directories that are there already
		for _, d := range in {
			if under(d, op.Path) {
				return true
			}
		}
		for p := range c.Files {
			if under(path.Dir(p), op.Path) {
				return true
			}
		}
	}
	return false
}

// stale is what an earlier version of the program may have left at p.
func stale(p, x, how string) string {
	ls := strings.SplitAfter(x, "\n")
	switch {
	case how == "long":
		c := "# "
		if strings.HasSuffix(p, ".go") {
			c = "// "
		}
		return x + strings.Repeat(c+"more of what was there\n", 40)
	case how == "short" && !strings.HasSuffix(p, ".go"):
		return strings.Join(ls[:len(ls)/3], "")
	case how == "empty" && !strings.HasSuffix(p, ".go"):
		return ""
	case how == "other" && !strings.HasSuffix(p, ".go"):
		return "kind: Else\n"
	}
	return x
}

// variant runs a case again under other conditions of one of its runs.
func (w *Worker) vary(l *Live, i int, base *Result, n int) bool {
	for _, v := range variants(w.R, l.Case.Runs[i], base, n) {
		k := &Live{Case: l.Case.clone(), Scn: l.Scn, Model: l.Model}
		k.Case.Runs[i] = v
		w.current(k)
		f := w.check(k)
		w.nontrivial(k, base)
		if f != nil {
			return false
		}
	}
	return true
}

// errProject draws a project that may have mistakes.
func errProject(r *Rand, n, d int) *Proj {
	e := 0
	if r.p(n, d) {
		e = r.in(1, 4)
	}
	return randProject(r, e)
}

func someGens(r *Rand, p *Proj, atLeast int) []string {
	g := p.gens()
	for i := 0; i < 8; i++ {
		if s := subset(r, g, 2, 3); len(s) >= atLeast {
			return shuffled(r, s)
		}
	}
	return shuffled(r, g)
}

func init() {
	register(&Campaign{Prop: "C13", Quick: 1800, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project (with mistakes in one of two), two or more generators run together in one process in any order, and each of them alone in a process of its own; the joint run is also judged under other schedules and orders, and with output failures that hit one of the generators; non-trivial when the joint run had more than one generator with output",
		Case: func(w *Worker, i int) {
			r := w.R
			p := errProject(r, 1, 3)
			if r.p(1, 3) {
				// mistakes in what only one of the generators looks at
				q := &planter{r: r, p: p, need: map[string]bool{}, used: map[string]bool{}, opts: map[string]bool{}}
				for j, n := 0, r.in(1, 2); j < n; j++ {
					if len(p.Ctl) > 0 && (p.API == nil || r.p(1, 2)) {
						q.ctl()
					} else if p.API != nil {
						q.api()
					}
				}
			}
			gens := someGens(r, p, 2)
			if len(gens) < 2 {
				w.skip("only one generator has input")
				return
			}
			cs := p.plan(r, gens)
			rest := pathArgs(p.paths(r))
			runs := []Spec{spec("controller-gen", projRoot, shuffledArgs(r, cs, rest)...)}
			for _, c := range cs {
				runs = append(runs, spec("controller-gen", projRoot, cmdArgs([]genCmd{c}, rest)...))
			}
			l := w.newCase("union", p.S, runs...)
			w.current(l)
			if w.check(l) != nil {
				return
			}
			b := l.Case.run(0)
			w.count("base "+statusClass(b.Res), 1)
			w.nontrivial(l, b.Res)
			if !w.vary(l, 0, b.Res, w.scale(3, 6)) {
				return
			}
			if !b.Res.OK() {
				return
			}
			for _, o := range spread(r, sites(b.Res, outOps, func(o simfs.Op) bool { return !strings.HasPrefix(o.Path, "/dev/") }), w.scale(5, 12)) {
				f := faultAt(r, o, outOps)
				f.Sticky = false
				k := &Live{Case: l.Case.clone(), Scn: l.Scn}
				k.Case.Runs[0].Faults = []simfs.Fault{f}
				w.current(k)
				bad := w.check(k)
				if x := k.Case.run(0); len(x.Res.Fired) > 0 {
					w.count("faulted run: "+statusClass(x.Res), 1)
					w.nontrivial(k, x.Res)
				}
				if bad != nil {
					return
				}
			}
		}})

	register(&Campaign{Prop: "C16", Quick: 1260, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project, a command, and a history: outputs of an earlier release in the way (longer, shorter, empty, something else), earlier runs of the same or other commands with other options, on the same or an earlier version of the sources, at other times and in other environments; the last run must end like the first run on fresh files; non-trivial always (at least two runs on the same files)",
		Case: func(w *Worker, i int) {
			r := w.R
			p := errProject(r, 1, 6)
			gens := someGens(r, p, 1)
			args, _ := p.command(r, gens)
			sp := spec("controller-gen", projRoot, args...)
			l := w.newCase("history", p.S, sp)
			w.current(l)
			a := l.Case.run(0)
			w.count("base "+statusClass(a.Res), 1)
			inplace := false
			for q := range l.Case.produced(a) {
				if _, ok := l.Case.Files[q]; ok {
					inplace = true
				}
			}
			for j, n := 0, w.scale(4, 8); j < n; j++ {
				k := &Live{Case: l.Case.clone(), Scn: l.Scn}
				k.Case.Params = kv([]string{"stale", pick(r, []string{"", "long", "short", "empty", "other", "same"})})
				if !inplace && r.p(1, 2) {
					k.Case.Old = p.older(r)
				}
				for q, m := 0, r.in(0, 3); q < m; q++ {
					v := sp
					if !inplace && r.p(1, 2) {
						x, _ := p.command(r, someGens(r, p, 1))
						v = spec("controller-gen", projRoot, x...)
						if patchesInPlace(p, x) {
							continue
						}
					}
					k.Case.Runs = append(k.Case.Runs, variants(r, v, a.Res, 1)[0])
				}
				last := sp
				last.Clock = int64(r.n(1 << 28))
				last.Env = pick(r, envs)
				if r.p(1, 2) {
					last.Plan = variants(r, sp, a.Res, 1)[0].Plan
				}
				k.Case.Runs = append(k.Case.Runs, last)
				w.current(k)
				f := w.check(k)
				w.nontrivial(k, a.Res)
				w.count(fmt.Sprintf("history of %d runs", len(k.Case.Runs)-2), 1)
				if f != nil {
					return
				}
			}
		}})

	register(&Campaign{Prop: "C17", Quick: 1440, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project (with mistakes in one of four), generators with output rules, schedules and orders, and failures and crashes at any operation; every file operation of every run is compared with the places the rules allow; non-trivial when the run wrote something",
		Case: func(w *Worker, i int) {
			r := w.R
			p := errProject(r, 1, 4)
			gens := someGens(r, p, 1)
			cs := p.plan(r, gens)
			in := []string{}
			for j, c := range cs {
				if c.gen == "schemapatch" && r.p(1, 2) {
					cs[j].out, cs[j].in = "output:schemapatch:dir="+p.Dir, []string{projRoot + "/" + p.Dir}
				}
				if r.p(1, 8) {
					cs[j].out, cs[j].in, cs[j].code = "output:"+c.gen+pick(r, []string{":stdout", ":none"}), nil, false
				}
				in = append(in, cs[j].in...)
				if cs[j].code {
					in = append(in, "+code")
				}
			}
			sp := spec("controller-gen", projRoot, shuffledArgs(r, cs, pathArgs(p.paths(r)))...)
			l := w.newCase("contained", p.S, sp)
			l.Case.Model = mustJSON(in)
			w.current(l)
			if w.check(l) != nil {
				return
			}
			b := l.Case.run(0)
			w.count("base "+statusClass(b.Res), 1)
			if len(l.Case.produced(b)) > 0 {
				w.nontrivial(l, b.Res)
			}
			if !w.vary(l, 0, b.Res, 2) {
				return
			}
			all := sites(b.Res, inOps, func(o simfs.Op) bool { return r.p(1, 20) })
			all = append(all, sites(b.Res, outOps, nil)...)
			for _, o := range spread(r, all, w.scale(6, 16)) {
				k := &Live{Case: l.Case.clone(), Scn: l.Scn}
				t := outOps
				if inOps[o.Kind] != nil {
					t = inOps
				}
				f := faultAt(r, o, t)
				if r.p(1, 5) && o.Kind != "golist" {
					f = crashAt(r, o)
				}
				k.Case.Runs[0].Faults = []simfs.Fault{f}
				w.current(k)
				bad := w.check(k)
				if x := k.Case.run(0); len(x.Res.Fired) > 0 {
					w.count("faulted run: "+statusClass(x.Res), 1)
					w.nontrivial(k, x.Res)
				}
				if bad != nil {
					return
				}
			}
		}})

	register(&Campaign{Prop: "C18", Quick: 900, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project and a command whose packages are named in several ways - patterns, directories one by one, in any order, repeated, overlapping, absolute, import paths, the options in any order - each under another schedule and iteration order; the outcome must be the same; non-trivial always (at least two wordings)",
		Case: func(w *Worker, i int) {
			r := w.R
			cfg := ProjCfg{API: APICfg{Groups: 3, Versions: 3, Acyclic: true, Nested: r.p(1, 4), Deepcopy: r.p(2, 3), Big: r.p(1, 6)}, RBAC: r.n(4), Patch: r.p(1, 3)}
			if r.p(1, 6) {
				cfg.API.Errors = r.in(1, 3)
			}
			p := genProject(r, cfg)
			var gens []string
			for _, g := range p.gens() {
				if g != "webhook" && r.p(2, 3) {
					gens = append(gens, g)
				}
			}
			if len(gens) == 0 {
				gens = []string{"crd"}
			}
			cs := p.plan(r, gens)
			for j, c := range cs {
				if c.gen == "object" { // one file for each package
					cs[j].out, cs[j].code, cs[j].in = "", true, nil
				}
			}
			words := p.wordings(r, w.scale(5, 9))
			var runs []Spec
			for j, ps := range words {
				x := spec("controller-gen", projRoot, cmdArgs(cs, pathArgs(ps))...)
				if j > 0 {
					x.Args = shuffledArgs(r, cs, pathArgs(ps))
					x.Plan = variants(r, x, nil, 1)[0].Plan
				}
				runs = append(runs, x)
			}
			l := w.newCase("equiv", p.S, runs[0])
			w.current(l)
			a := l.Case.run(0)
			w.count("base "+statusClass(a.Res), 1)
			for _, x := range runs[1:] {
				k := &Live{Case: l.Case.clone(), Scn: l.Scn}
				k.Case.Runs = []Spec{runs[0], x}
				w.current(k)
				f := w.check(k)
				w.nontrivial(k, k.Case.run(1).Res)
				if f != nil {
					return
				}
			}
		}})
}

// shuffledArgs puts the arguments in any order, but the paths in theirs.
func shuffledArgs(r *Rand, cs []genCmd, rest []string) []string {
	a := cmdArgs(shuffled(r, cs), nil)
	a = shuffled(r, a)
	for i, x := range rest {
		at := len(a)
		if i == 0 {
			at = r.n(len(a) + 1)
			a = append(a[:at:at], append([]string{x}, a[at:]...)...)
			continue
		}
		a = append(a, x)
	}
	return a
}

func patchesInPlace(p *Proj, args []string) bool {
	if p.Dir == "" {
		return false
	}
	for _, a := range args {
		if strings.HasPrefix(a, "schemapatch") {
			return true
		}
	}
	return false
}

// older is an earlier version of some of the sources: with less in them, or
// more.
func (p *Proj) older(r *Rand) map[string]string {
	out := map[string]string{}
	for _, f := range p.S.Files {
		if f.Off || !strings.HasSuffix(f.Path, ".go") || !r.p(1, 2) || f.Body == nil {
			continue
		}
		var off []*Node
		for _, n := range f.Body.Kids {
			if !n.Off && !n.Fixed && r.p(1, 3) {
				n.Off = true
				off = append(off, n)
			}
		}
		t := f.text()
		for _, n := range off {
			n.Off = false
		}
		if r.p(1, 4) {
			t += "\n// Extra was taken out since.\ntype ExtraThing struct {\n\t// +kubebuilder:validation:MinLength=3\n\tName string `json:\"name\"`\n}\n"
		}
		out[path.Clean(f.Path)] = t
	}
	return out
}

// wordings lists sets of patterns that all mean the whole project.
func (p *Proj) wordings(r *Rand, n int) [][]string {
	out := [][]string{{"./..."}}
	seen := map[string]bool{}
	var dirs []string
	for _, f := range p.S.Files {
		d := path.Dir(path.Clean(f.Path))
		if !strings.HasSuffix(f.Path, ".go") || f.Off || seen[d] {
			continue
		}
		seen[d] = true
		dirs = append(dirs, d)
	}
	word := func(d string) string {
		rel := "./" + strings.TrimPrefix(strings.TrimPrefix(d, projRoot), "/")
		switch r.n(6) {
		case 0:
			return d
		case 1:
			if !strings.HasPrefix(rel, "./nested") && rel != "./" {
				return projMod + rel[1:]
			}
		case 2:
			return strings.TrimSuffix(rel, "/") + "/"
		case 3:
			if rel != "./" {
				return "." + rel[1:] + "/../" + path.Base(d)
			}
		}
		return rel
	}
	for len(out) < n {
		var ws []string
		switch r.n(5) {
		case 0:
			ws = []string{projRoot + "/..."}
		case 1: // directories at the top
			top := map[string]bool{}
			for _, d := range shuffled(r, dirs) {
				t, _, _ := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(d, projRoot), "/"), "/")
				if t == "" {
					ws = append(ws, "./")
				} else if !top[t] {
					top[t] = true
					ws = append(ws, "./"+t+"/...")
				}
			}
		case 2:
			for _, d := range shuffled(r, dirs) {
				ws = append(ws, word(d))
			}
		case 3:
			for _, d := range shuffled(r, dirs) {
				for k := r.in(1, 2); k > 0; k-- {
					ws = append(ws, word(d))
				}
			}
			ws = shuffled(r, ws)
		default:
			for _, d := range subset(r, dirs, 1, 2) {
				ws = append(ws, word(d))
			}
			ws = shuffled(r, append(ws, "./..."))
		}
		out = append(out, ws)
	}
	return out
}
