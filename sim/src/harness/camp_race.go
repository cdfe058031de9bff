package main

import (
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

func init() {
	// Runs[0] is the execution in which every task runs until it waits; the
	// others are the same under other schedules, and nothing else.
	oracles["schedule"] = func(c *Case) *Finding {
		a := c.run(0)
		for i := range c.Runs {
			b := c.run(i)
			if len(b.Res.Races) > 0 {
				return violation("data race", clipN(b.Res.Races, 4)...)
			}
			if b.Res.Abort() {
				return violation("abnormal end", b.Res.Status())
			}
			if rt.RaceEnabled {
				continue // what is compared below is compared in the other build
			}
			if f := diffObs(a, b, true); f != nil {
				return f
			}
		}
		return nil
	}
}

func init() {
	register(&Campaign{Prop: "C14", Quick: 2700, Thorough: 40000, Race: true, Real: realCode, Stub: stubCode,
		Rule: "a case is a project of many packages, with mistakes (syntax errors, missing and cyclic imports, bad markers) in one of two and unreadable files in one of four, and a command line, run under a reference schedule and under others (random at several densities, and few targeted preemptions) with everything else equal; in the -race build the detector sees only the synchronisation the program itself does; non-trivial when at least one scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			p := errProject(r, 1, 2)
			if r.p(1, 2) {
				// packages that share many others
				p = genProject(r, ProjCfg{API: APICfg{Groups: 1, Versions: 2, Deepcopy: r.p(1, 2), Mesh: r.in(3, 9), Errors: max(0, r.in(-2, 1))}})
			}
			if p.API != nil && r.p(1, 4) {
				q := &planter{r: r, p: p, need: map[string]bool{}, used: map[string]bool{}, opts: map[string]bool{}}
				for j, n := 0, r.in(1, 3); j < n; j++ {
					pick(r, []func() bool{q.api, q.broken, q.broken, q.version})()
				}
			}
			gens := someGens(r, p, 1)
			args, _ := p.command(r, gens)
			sp := spec("controller-gen", projRoot, args...)
			if r.p(1, 4) {
				// files that cannot be read, whoever tries and whenever
				for _, q := range subset(r, sortedKeys(p.S.render()), 1, 6) {
					if strings.HasSuffix(q, ".go") {
						sp.Faults = append(sp.Faults, simfs.Fault{Op: "open", Path: q, Nth: -1, Err: pick(r, inOps["open"])})
					}
				}
			}
			l := w.newCase("schedule", p.S, sp)
			w.current(l)
			if w.check(l) != nil {
				return
			}
			b := l.Case.run(0)
			w.count("base "+statusClass(b.Res), 1)
			for j, n := 0, w.scale(5, 10); j < n; j++ {
				v := sp
				v.Plan.Sched = randSched(r, b.Res)
				k := &Live{Case: l.Case.clone(), Scn: l.Scn}
				k.Case.Runs = []Spec{sp, v}
				w.current(k)
				f := w.check(k)
				o := k.Case.run(1)
				if len(o.Res.Out.Switches) > 0 {
					w.nontrivial(k, o.Res)
				}
				if f != nil {
					return
				}
			}
		}})
}
