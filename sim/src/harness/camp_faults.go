package main

import (
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// someRun draws a project and a command on it that writes something.
func someRun(r *Rand, patch bool) (*Scenario, Spec, *Proj) {
	switch {
	case !patch && r.p(1, 12):
		s := &Scenario{Name: "help"}
		s.raw(projRoot+"/go.mod", modFile(projMod))
		s.headers()
		helpSources(r, s)
		return s, spec("helpgen", projRoot, "generate:headerFile=hack/boilerplate.go.txt,year=2019", "paths=./..."), nil
	case !patch && r.p(1, 20):
		s := &Scenario{Name: "scaffold"}
		s.raw(projRoot+"/go.mod", modFile(projMod))
		return s, spec("type-scaffold", projRoot, "--kind", "Foo"), nil
	case !patch && r.p(1, 10):
		s, g := apiScenario(r, APICfg{Groups: 1, Versions: 2, Deepcopy: true, Apply: true})
		s.headers()
		return s, spec("controller-gen", projRoot, append([]string{"applyconfiguration"}, pathArgs(g.dirs())...)...), nil
	}
	var p *Proj
	var gens []string
	for len(gens) == 0 {
		p = randProject(r, 0)
		gens = subset(r, p.gens(), 2, 3)
		if patch && p.Dir == "" {
			gens = nil
		}
	}
	args, _ := p.command(r, gens)
	return p.S, spec("controller-gen", projRoot, args...), p
}

// command draws the arguments for some generators of a project.
func (p *Proj) command(r *Rand, gens []string) ([]string, []string) {
	var args []string
	for _, g := range gens {
		args = append(args, p.genArg(r, g))
	}
	out := outArgs(r, gens, p.Dir)
	args = append(args, out...)
	args = append(args, pathArgs(p.paths(r))...)
	return shuffled(r, args), out
}

// faultCampaign runs one command with single and double faults at places
// spread over what the fault-free run does.
func (w *Worker) faultCampaign(oracle string, l *Live, table map[string][]string, n int, keep func(simfs.Op) bool) {
	r := w.R
	sp := l.Case.Runs[0]
	w.current(l)
	a := l.Case.run(0)
	w.count("base "+statusClass(a.Res), 1)
	if a.Res.Abort() {
		w.skip("reference run ended abnormally")
		return
	}
	all := sites(a.Res, table, keep)
	// half of the faults go to what the generators themselves read and write,
	// which the many operations of the loader would drown
	var own []simfs.Op
	for _, o := range all {
		if strings.HasPrefix(o.Path, "/sim/") || strings.HasSuffix(o.Path, ".go") && inOps[o.Kind] != nil || strings.HasSuffix(o.Path, "go.mod") {
			continue
		}
		own = append(own, o)
	}
	at := spread(r, own, n/2)
	at = append(at, spread(r, all, n-len(at))...)
	for _, o := range at {
		v := sp
		v.Faults = []simfs.Fault{faultAt(r, o, table)}
		if r.p(1, 8) {
			if s := sites(a.Res, table, keep); len(s) > 0 {
				v.Faults = append(v.Faults, faultAt(r, pick(r, s), table))
			}
		}
		if r.p(1, 4) {
			v.Plan.Sched = randSched(r, a.Res)
			v.Plan.Sched.Rand = 0 // the same names of temporary files
		}
		k := &Live{Case: l.Case.clone(), Scn: l.Scn, Model: l.Model}
		k.Case.Oracle = oracle
		k.Case.Runs = []Spec{sp, v}
		w.current(k)
		f := w.check(k)
		x := k.Case.run(1)
		if len(x.Res.Fired) > 0 {
			w.count("faulted run: "+statusClass(x.Res), 1)
			w.nontrivial(k, x.Res)
		} else {
			w.skip("fault did not fire")
		}
		if f != nil {
			return
		}
	}
}

func init() {
	register(&Campaign{Prop: "C09", Quick: 2080, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project, a command line with any mix of generators and output rules, and one or two failures (no space, quota, I/O error, permission, read-only, no more descriptors; partial writes; errors reported only on close) at operations that produce output; the run either reports failure with a reason or has produced exactly what the fault-free run produces; non-trivial when the failure fired",
		Case: func(w *Worker, i int) {
			s, sp, _ := someRun(w.R, false)
			w.faultCampaign("fault", w.newCase("fault", s, sp), outOps, w.scale(8, 24), nil)
		}})

	register(&Campaign{Prop: "C10", Quick: 3000, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project, a command line, and one or two failures (I/O error, permission, descriptors exhausted, file vanished, stale handle) at operations that read input, or of the go command the loader runs; the run either reports failure with a reason or has produced exactly what the fault-free run produces; non-trivial when the failure fired",
		Case: func(w *Worker, i int) {
			s, sp, _ := someRun(w.R, false)
			if w.R.p(1, 3) {
				sp.ShortReads = 1 + w.R.u()>>1 // so that reads fail in mid-file, too
			}
			keep := func(o simfs.Op) bool { return !strings.HasPrefix(o.Path, "/sim/") || w.R.p(1, 8) }
			w.faultCampaign("fault", w.newCase("fault", s, sp), inOps, w.scale(8, 24), keep)
		}})

	register(&Campaign{Prop: "C11", Quick: 1200, Thorough: 40000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project, a command line, one or two runs of it cut short by a process kill, a power cut (unsynchronised data lost or truncated) or failing I/O, on the same files, and a final run without faults, which must end as if nothing had happened; non-trivial when a fault fired in an interrupted run",
		Case: func(w *Worker, i int) {
			r := w.R
			s, sp, _ := someRun(r, false)
			l := w.newCase("recover", s, sp)
			w.current(l)
			a := l.Case.run(0)
			w.count("base "+statusClass(a.Res), 1)
			if !a.Res.OK() {
				w.skip("reference run did not succeed")
				return
			}
			cut := sites(a.Res, inOps, func(o simfs.Op) bool { return o.Kind != "golist" && r.p(1, 30) })
			cut = append(cut, sites(a.Res, outOps, nil)...)
			for _, o := range spread(r, cut, w.scale(8, 24)) {
				k := &Live{Case: l.Case.clone(), Scn: s}
				k.Case.Runs = []Spec{sp}
				for j, n := 0, 1+r.n(5)/4; j < n; j++ {
					v := sp
					if j > 0 {
						o = pick(r, cut)
					}
					if outOps[o.Kind] != nil && r.p(1, 4) {
						v.Faults = []simfs.Fault{faultAt(r, o, outOps)}
					} else {
						v.Faults = []simfs.Fault{crashAt(r, o)}
					}
					if r.p(1, 3) {
						v.Plan.Map.Mode = "reverse"
					}
					k.Case.Runs = append(k.Case.Runs, v)
				}
				k.Case.Runs = append(k.Case.Runs, sp)
				if r.p(1, 3) {
					k.Case.Params = kv([]string{"power", fmt.Sprint(r.u() >> 40)})
				}
				w.current(k)
				f := w.check(k)
				x := k.Case.run(1)
				if len(x.Res.Fired) > 0 {
					w.count("interrupted run: "+statusClass(x.Res), 1)
					w.nontrivial(k, x.Res)
				} else {
					w.skip("fault did not fire")
				}
				if f != nil {
					return
				}
			}
		}})

	register(&Campaign{Prop: "C12", Quick: 2000, Thorough: 30000, Real: realCode, Stub: stubCode,
		Rule: "a case is a project with hand-written manifests patched in place, with a process kill, power cut or failing I/O at any operation; every manifest is afterwards as it was or as it should become; non-trivial when the fault fired",
		Case: func(w *Worker, i int) {
			r := w.R
			p := genProject(r, ProjCfg{API: APICfg{Groups: 2, Versions: 2, NoSkip: true, Conflicts: r.p(1, 4)}, Patch: true})
			args := append([]string{"schemapatch:manifests=" + p.Dir, "output:dir=" + p.Dir}, pathArgs(p.paths(r))...)
			l := w.newCase("inplace", p.S, spec("controller-gen", projRoot, args...))
			l.Case.Params = kv([]string{"dir", p.Dir})
			w.current(l)
			a := l.Case.run(0)
			w.count("base "+statusClass(a.Res), 1)
			if !a.Res.OK() {
				w.skip("reference run did not succeed")
				return
			}
			all := map[string][]string{}
			for k, v := range outOps {
				all[k] = v
			}
			for k, v := range inOps {
				all[k] = v
			}
			cut := sites(a.Res, all, func(o simfs.Op) bool {
				return outOps[o.Kind] != nil || o.Kind == "golist" || strings.HasPrefix(o.Path, projRoot+"/"+p.Dir)
			})
			for _, o := range spread(r, cut, w.scale(8, 24)) {
				v := l.Case.Runs[0]
				if o.Kind == "golist" || r.p(1, 2) {
					v.Faults = []simfs.Fault{faultAt(r, o, all)}
				} else {
					v.Faults = []simfs.Fault{crashAt(r, o)}
				}
				k := &Live{Case: l.Case.clone(), Scn: p.S}
				k.Case.Runs = []Spec{l.Case.Runs[0], v}
				if r.p(1, 4) {
					k.Case.Params["power"] = fmt.Sprint(r.u() >> 40)
				}
				w.current(k)
				f := w.check(k)
				x := k.Case.run(1)
				if len(x.Res.Fired) > 0 {
					w.count("faulted run: "+statusClass(x.Res), 1)
					w.nontrivial(k, x.Res)
				} else {
					w.skip("fault did not fire")
				}
				if f != nil {
					return
				}
			}
		}})
}
