package main

import (
	"bytes"
	"fmt"
	"path"
	"strconv"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// seg: process P makes N operations.
type seg struct{ P, N int }

func weaveText(s []seg) string {
	var t []string
	for _, x := range s {
		t = append(t, fmt.Sprintf("%d:%d", x.P, x.N))
	}
	return strings.Join(t, " ")
}

func parseWeave(t string) []seg {
	var out []seg
	for _, x := range strings.Fields(t) {
		a, b, _ := strings.Cut(x, ":")
		p, _ := strconv.Atoi(a)
		n, _ := strconv.Atoi(b)
		out = append(out, seg{p, n})
	}
	return out
}

// sameNode is true if nothing observable differs.
func sameNode(a, b *simfs.Node) bool {
	return a.Dir == b.Dir && a.Link == b.Link && bytes.Equal(a.Data, b.Data)
}

// diffFS says how to make a what b is. ops are the operations that did it.
func diffFS(a, b *simfs.FS, ops []simfs.Op) simfs.Inject {
	in := simfs.Inject{Files: map[string][]byte{}}
	for _, p := range sortedKeys(a.Nodes) {
		if b.Nodes[p] == nil {
			in.Files[p] = nil
		}
	}
	for _, p := range sortedKeys(b.Nodes) {
		n, o := b.Nodes[p], a.Nodes[p]
		switch {
		case o != nil && sameNode(o, n):
		case n.Dir:
			in.Dirs = append(in.Dirs, p)
		default:
			in.Files[p] = append([]byte{}, n.Data...)
		}
	}
	// a name that refers to another file now
	for _, op := range ops {
		if n := b.Nodes[op.Path]; op.Mut && (op.Kind == "rename" || op.Kind == "remove") && n != nil && !n.Dir {
			in.Fresh = append(in.Fresh, op.Path)
			in.Files[op.Path] = append([]byte{}, n.Data...)
		}
	}
	return in
}

// weave executes processes i and j on base at the same time, switching between
// them as segs says; what is left runs to the end one after the other. Every
// segment is a new execution of the process from its start, under the effects
// the other one had up to then, and is cut where the segment ends: executions
// are deterministic, so this is one execution of both.
func (c *Case) weave(base *simfs.FS, i, j int, segs []seg) (res [2]*Result, now *simfs.FS) {
	ids := [2]int{i, j}
	var inj [2][]simfs.Inject
	var steps [2]int
	now = base
	advance := func(p, n int) {
		if res[p] != nil {
			return
		}
		f := base.Clone()
		sp := c.Runs[ids[p]]
		sp.injects = inj[p]
		if n > 0 {
			sp.stopAt = steps[p] + n + 1
		}
		r := Exec(f, sp)
		if ids[p] == traceRun {
			lastTraced = r
		}
		from := steps[p]
		if n > 0 && r.Out.Kind == "crash" && len(r.Ops) == sp.stopAt-1 && len(r.Fired) == 0 {
			steps[p] += n
		} else {
			res[p] = r
			for k := range inj[p] {
				if inj[p][k].At > len(r.Ops) {
					inj[p][k].Apply(f) // happened after it ended
				}
			}
			steps[p] = len(r.Ops)
		}
		in := diffFS(now, f, r.Ops[min(from, len(r.Ops)):])
		in.At = steps[1-p] + 1
		inj[1-p] = append(inj[1-p], in)
		now = f
	}
	for _, s := range segs {
		if s.N > 0 && (s.P == 0 || s.P == 1) {
			advance(s.P, s.N)
		}
	}
	advance(0, 0)
	advance(1, 0)
	return res, now
}

// muts are the files a process changed.
func muts(r *Result) map[string]bool {
	out := map[string]bool{}
	for _, o := range r.Ops {
		if o.Mut {
			out[o.Path] = true
		}
	}
	return out
}

// disturbs says whether what a did to files matters to what b reads.
func (c *Case) disturbs(a, b *Result, args []string) bool {
	wild := strings.Contains(strings.Join(args, " "), "...")
	code := map[string]bool{} // directories with packages that may be loaded
	for p := range c.Files {
		if strings.HasSuffix(p, ".go") {
			code[path.Dir(p)] = true
		}
	}
	seen := map[string]bool{}
	list := false
	for _, o := range b.Ops {
		switch o.Kind {
		case "open", "openw", "stat", "lstat", "readdir", "read":
			seen[o.Path] = true
		case "golist":
			list = true
		}
	}
	for p := range muts(a) {
		if strings.HasPrefix(p, "/tmp/") {
			continue
		}
		if list && (strings.HasSuffix(p, ".go") && (wild || code[path.Dir(p)]) || path.Base(p) == "go.mod") || seen[p] || seen[path.Dir(p)] && path.Dir(p) != projRoot {
			return true
		}
	}
	return false
}

// woven are the two processes of the last case judged.
var woven [2]*Result

func init() {
	// Runs[0] and Runs[1] overlap as Params["weave"] says.
	oracles["weave"] = func(c *Case) *Finding {
		base := NewFS(c.Files)
		killed := [2]bool{}
		whole := c.clone()
		for i := range whole.Runs {
			whole.Runs[i].Faults = nil
		}
		c, cut := whole, c
		if c.Params["pre"] != "" {
			for i := 0; i < 2; i++ {
				c.step(i, base)
			}
		}
		var seq [2]*simfs.FS // both orders, one after the other
		var alone [2]*Result // each on its own
		var other [2]*Result // each after the other one
		for i := 0; i < 2; i++ {
			f := base.Clone()
			alone[i] = c.step(i, f).Res
			other[1-i] = c.step(1-i, f).Res
			seq[i] = f
		}
		for i := range alone {
			if alone[i].Abort() || other[i].Abort() {
				return nil // another property's business
			}
		}
		segs := parseWeave(c.Params["weave"])
		res, end := cut.weave(base, 0, 1, segs)
		what := []string{"A: " + strings.Join(c.Runs[0].Args, " "), "B: " + strings.Join(c.Runs[1].Args, " "), "schedule: " + c.Params["weave"] + ", " + faultText(cut.Runs[0]) + ", " + faultText(cut.Runs[1])}
		for i := range res {
			if res[i].Abort() {
				return violation("abnormal end beside another run", append(what, res[i].Status(), clip(res[i].Out.Panic, 600))...)
			}
		}
		woven = res
		same := strings.Join(c.Runs[0].Args, " ") == strings.Join(c.Runs[1].Args, " ")
		var failed [2]bool
		for i := range res {
			o := 1 - i
			ok := alone[i].OK() || other[i].OK()
			if res[i].OK() {
				if !ok {
					return violation("success only beside another run", append(what, alone[i].Stderr)...)
				}
				if res[i].Stdout != alone[i].Stdout && res[i].Stdout != other[i].Stdout {
					return violation("standard output differs beside another run", append(what, diffText(alone[i].Stdout, res[i].Stdout))...)
				}
				continue
			}
			failed[i] = true
			killed[i] = len(res[i].Fired) > 0
			if !ok || killed[i] {
				continue
			}
			if c.disturbs(alone[o], alone[i], c.Runs[i].Args) || c.disturbs(res[o], res[i], c.Runs[i].Args) {
				reason := false
				for _, l := range lines(res[i].Stderr) {
					reason = reason || !generic(l)
				}
				if !reason {
					return violation("failure without a reason", append(what, res[i].Stderr)...)
				}
				continue // it saw the other one at work, and said so
			}
			return violation("failure beside an unrelated run", append(what, res[i].Status(), res[i].Stderr)...)
		}
		want := [2]map[string]string{Files(seq[0]), Files(seq[1])}
		got := Files(end)
		m := [2]map[string]bool{muts(res[0]), muts(res[1])}
		for i := range m {
			for p := range muts(alone[i]) {
				m[i][p] = true
			}
		}
		all := map[string]bool{}
		for _, t := range []map[string]string{want[0], want[1], got} {
			for p := range t {
				all[p] = true
			}
		}
		var bad []string
		for _, p := range sortedKeys(all) {
			g, ok := got[p]
			w0, ok0 := want[0][p]
			w1, ok1 := want[1][p]
			if ok == ok0 && g == w0 || ok == ok1 && g == w1 {
				continue
			}
			if failed[0] && (m[0][p] || strings.HasPrefix(p, "/tmp/")) || failed[1] && (m[1][p] || strings.HasPrefix(p, "/tmp/")) {
				continue // the failure was reported
			}
			if failed[0] != failed[1] && c.disturbs(res[b2i(failed[1])], alone[b2i(failed[0])], c.Runs[b2i(failed[0])].Args) && !same {
				continue // derived from what a failed run left
			}
			switch {
			case !ok:
				bad = append(bad, "missing "+p)
			case !ok0:
				bad = append(bad, "unexpected "+p)
			default:
				bad = append(bad, "content of "+p+" differs: "+diffText(w0, g))
			}
		}
		if len(bad) > 0 {
			return violation("files differ beside another run", append(what, clipN(bad, 4)...)...)
		}
		return nil
	}

	register(&Campaign{Prop: "C19", Quick: 500, Thorough: 20000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project, two command lines (the same one twice, or different ones with different outputs) and a schedule that switches between the two processes at operations on files; each process must end as it would have done on its own, and the files must be as if one had run after the other; a run may fail with a reason if the other one rewrites Go code it loads; non-trivial when both processes made operations after the other one's first change",
		Case: func(w *Worker, i int) { weaveCase(w) }})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func weaveCase(w *Worker) {
	r := w.R
	s, specs := weavePair(r)
	for i := range specs {
		specs[i].Plan.Sched.Rand = 1 + uint64(i)
	}
	l := w.newCase("weave", s, specs...)
	l.Case.Params = map[string]string{}
	if r.p(1, 3) {
		l.Case.Params["pre"] = "1"
	}
	w.current(l)
	var base [2]*Result
	for i := range base {
		base[i] = l.Case.run(i).Res
		if base[i].Abort() {
			w.skip("a run alone ended abnormally")
			return
		}
		w.count("alone: "+statusClass(base[i]), 1)
	}
	same := strings.Join(specs[0].Args, " ") == strings.Join(specs[1].Args, " ")
	if !same {
		a, b := muts(base[0]), muts(base[1])
		for p := range a {
			if b[p] && path.Ext(p) != "" {
				w.skip("different runs with a common output")
				return
			}
		}
		// data passed from one to the other, other than Go code
		for i := range base {
			for p := range muts(base[i]) {
				for _, o := range base[1-i].Ops {
					if (o.Kind == "open" || o.Kind == "readdir") && (o.Path == p || o.Path == path.Dir(p)) && !strings.HasSuffix(p, ".go") && path.Ext(p) != "" && strings.HasPrefix(o.Path, projRoot+"/config") {
						w.skip("one run's input is the other's output")
						return
					}
				}
			}
		}
	}
	// where switching matters: around changes and the reading of sources
	var marks, hot [2][]int
	for i := range base {
		mine, other := muts(base[i]), muts(base[1-i])
		for k, o := range base[i].Ops {
			// what is also changed by the other, or changed and also read
			if o.Mut && mine[o.Path] && other[o.Path] || other[o.Path] && o.Kind == "open" || o.Kind == "open" && mine[o.Path] || strings.HasPrefix(o.Path, "/tmp/") {
				hot[i] = append(hot[i], k)
			}
			if o.Mut || o.Kind == "golist" || o.Kind == "closew" || o.Kind == "write" || strings.HasPrefix(o.Path, projRoot) && r.p(1, 6) {
				marks[i] = append(marks[i], k)
			}
		}
		if len(marks[i]) == 0 || len(base[i].Ops) == 0 {
			w.skip("a run does nothing")
			return
		}
	}
	for t, n := 0, w.scale(6, 20); t < n; t++ {
		var at [2]int
		var segs []seg
		p := r.n(2)
		focus := r.p(1, 2)
		for k, n := 0, r.in(1, 7); k < n; k++ {
			to := pick(r, marks[p]) + r.n(2)
			if focus && len(hot[p]) > 0 && r.p(3, 4) {
				to = pick(r, hot[p]) + r.n(2)
			}
			if r.p(1, 4) {
				to = at[p] + r.in(1, 6)
			}
			if to > at[p] {
				segs = append(segs, seg{p, to - at[p]})
				at[p] = to
			}
			p = 1 - p
		}
		if len(segs) == 0 {
			continue
		}
		k := &Live{Case: l.Case.clone(), Scn: l.Scn}
		k.Case.Params = map[string]string{"pre": l.Case.Params["pre"], "weave": weaveText(segs)}
		w.current(k)
		if r.p(1, 5) {
			i := r.n(2)
			k.Case.Runs[i].Faults = []simfs.Fault{crashAt(r, base[i].Ops[pick(r, marks[i])])}
		}
		f := w.check(k)
		for _, x := range woven {
			w.count("overlapping: "+statusClass(x), 1)
		}
		w.rep.Counters["switches between processes"] += len(segs)
		w.nontrivial(k, base[0])
		w.nt[k.Case.filesKey()^rt.HashString(k.Case.Params["weave"])] = true
		if f != nil {
			return
		}
	}
}

// weavePair draws two command lines on one project.
func weavePair(r *Rand) (*Scenario, []Spec) {
	if r.p(1, 4) {
		s, g := apiScenario(r, APICfg{Groups: 1, Versions: 2, Deepcopy: true, Apply: true})
		s.headers()
		paths := pathArgs(g.dirs())
		a := spec("controller-gen", projRoot, append([]string{pick(r, []string{"applyconfiguration:headerFile=hack/boilerplate.go.txt", "applyconfiguration"})}, paths...)...)
		b := spec("controller-gen", projRoot, append([]string{pick(r, []string{"object:headerFile=hack/boilerplate.go.txt,year=2031", "crd"})}, pathArgs(pick(r, [][]string{g.dirs(), {"./..."}}))...)...)
		switch ds := g.dirs(); {
		case len(ds) > 1 && r.p(1, 2):
			// different packages, nothing in common
			b = spec("controller-gen", projRoot, append([]string{"applyconfiguration"}, pathArgs(ds[1:])...)...)
			a = spec("controller-gen", projRoot, append([]string{pick(r, []string{"applyconfiguration", "applyconfiguration", "object", "crd"})}, pathArgs(ds[:1])...)...)
		case r.p(1, 2):
			b = a
		}
		return s, []Spec{a, b}
	}
	for {
		p := randProject(r, 0)
		gens := p.gens()
		var a, b []string
		for _, g := range shuffled(r, gens) {
			if r.p(1, 2) {
				a = append(a, g)
			} else {
				b = append(b, g)
			}
		}
		if len(gens) == 0 {
			continue
		}
		mk := func(gens []string, n int) Spec {
			var args []string
			for _, g := range gens {
				args = append(args, p.genArg(r, g))
			}
			switch r.n(3) {
			case 0:
				args = append(args, fmt.Sprintf("output:dir=out%d", n))
			case 1:
				args = append(args, fmt.Sprintf("output:artifacts:config=cfg%d", n))
			}
			for _, g := range gens {
				if g == "schemapatch" && r.p(2, 3) {
					args = append(args, "output:schemapatch:dir="+p.Dir)
				}
			}
			args = append(args, pathArgs(p.paths(r))...)
			return spec("controller-gen", projRoot, shuffled(r, args)...)
		}
		if r.p(1, 3) || len(a) == 0 || len(b) == 0 {
			x := mk(gens, 0)
			return p.S, []Spec{x, x}
		}
		return p.S, []Spec{mk(a, 0), mk(b, 1)}
	}
}
