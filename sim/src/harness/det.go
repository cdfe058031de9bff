package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// The determinism oracle: Runs[0] is the reference execution, every other run
// is the same command under other schedules, map orders, clocks, environments
// and read sizes. What a user can see must not differ.
func init() {
	oracles["same"] = func(c *Case) *Finding {
		a := c.run(0)
		for i := 1; i < len(c.Runs); i++ {
			b := c.run(i)
			files := a.Res.OK() || c.Params["files"] == "always"
			if f := diffObs(a, b, files); f != nil {
				return f
			}
			if c.Params["stderr"] == "exact" && a.Res.Stderr != b.Res.Stderr {
				return violation("text on standard error", diffText(a.Res.Stderr, b.Res.Stderr))
			}
			if b.Res.Abort() {
				return violation("abnormal end", b.Res.Status())
			}
		}
		return nil
	}
}

// variants derives n perturbed copies of a run. base is its reference result.
func variants(r *Rand, s Spec, base *Result, n int) []Spec {
	var out []Spec
	for i := 0; i < n; i++ {
		v := s
		v.Plan = rt.Plan{}
		switch r.n(8) {
		case 0:
			v.Plan.Map.Mode = "reverse"
		case 1:
			v.Plan.Map = rt.MapPlan{Mode: "shuffle", Seed: r.u() >> 8}
		case 2:
			v.Plan.Sched = randSched(r, base)
		case 3:
			v.Plan.Map = rt.MapPlan{Mode: "shuffle", Seed: r.u() >> 8}
			v.ShortReads = r.u() >> 8
			v.Clock = int64(r.n(1<<28)) - 1<<27
			v.Env = pick(r, envs)
		default:
			v.Plan.Map = rt.MapPlan{Mode: "shuffle", Seed: r.u() >> 8}
			v.Plan.Sched = randSched(r, base)
		}
		out = append(out, v)
	}
	return out
}

var envs = [][]string{
	{"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Kathmandu"},
	{"HOME=/home/other", "USER=other", "PWD=/elsewhere"},
	{"SIM_ENV=1"},
	{"SIM_ENV=2", "USER=other"},
	{"TMPDIR=/var/tmp", "SOURCE_DATE_EPOCH=1", "TERM=dumb", "COLUMNS=40", "NO_COLOR=1"},
	nil,
}

func randSched(r *Rand, base *Result) rt.SchedPlan {
	d := 1
	if base != nil {
		d = max(1, base.Out.Decisions)
	}
	cpus, rnd := pick(r, []int{0, 0, 1, 2, 8, 64}), r.u()>>8
	if base != nil && len(base.Out.Places) > 0 && r.p(1, 3) {
		p := rt.SchedPlan{Mode: "stall", Seed: r.u() >> 8, Rand: rnd, CPUs: cpus, Den: pick(r, []int{1, 2, 8, 64, 1 << 20})}
		for i, k := 0, pick(r, []int{1, 1, 1, 2, 3}); i < k; i++ {
			p.Stalls = append(p.Stalls, rt.Stall{At: pick(r, base.Out.Places), Nth: pick(r, []int{0, 0, 1, 2, r.in(1, 20)})})
		}
		return p
	}
	if r.p(1, 2) {
		p := rt.SchedPlan{Mode: "pct", Seed: r.u() >> 8, Rand: rnd, CPUs: cpus}
		for i, k := 0, r.in(1, 6); i < k; i++ {
			p.Points = append(p.Points, 1+r.n(d*3))
		}
		return p
	}
	return rt.SchedPlan{Mode: "random", Seed: r.u() >> 8, Den: pick(r, []int{1, 2, 4, 16, 64, 256}), Rand: rnd, CPUs: cpus}
}

// sameCampaign checks one scenario under several variants.
func (w *Worker) sameCampaign(s *Scenario, spec Spec, n int, needOK bool, params ...string) {
	l := w.newCase("same", s, spec)
	l.Case.Params = kv(params)
	w.current(l)
	base := l.Case.run(0)
	w.count("base "+statusClass(base.Res), 1)
	if needOK && !base.Res.OK() {
		w.skip("reference run did not succeed")
		// still judged, but against status and diagnostics only
		if n > 2 {
			n = 2
		}
	}
	for _, v := range variants(w.R, spec, base.Res, n) {
		k := &Live{Case: l.Case.clone(), Scn: s}
		k.Case.Runs = []Spec{spec, v}
		w.current(k)
		if w.check(k) != nil {
			break
		}
		o := k.Case.run(1)
		if o.Res.Out.MapPerm > 0 || len(o.Res.Out.Switches) > 0 {
			w.nontrivial(k, o.Res)
		}
	}
}

func statusClass(r *Result) string {
	if r.Out.Kind == "exit" {
		return fmt.Sprintf("exit %d", r.Out.Exit)
	}
	return r.Out.Kind
}

func spec(tool, cwd string, args ...string) Spec { return Spec{Tool: tool, Args: args, Cwd: cwd} }

func pathArgs(pats []string) []string {
	var out []string
	for _, p := range pats {
		out = append(out, "paths="+p)
	}
	return out
}

// crdOpts draws options of the crd generator.
func crdOpts(r *Rand, errs bool) string {
	var o []string
	if r.p(1, 4) {
		o = append(o, fmt.Sprintf("maxDescLen=%d", pick(r, []int{0, 10, 60})))
	}
	if r.p(1, 5) {
		o = append(o, "generateEmbeddedObjectMeta=true")
	}
	if r.p(1, 3) || !errs {
		if r.p(2, 3) {
			o = append(o, "allowDangerousTypes=true")
		}
	}
	if r.p(1, 6) {
		o = append(o, "ignoreUnexportedFields=true")
	}
	if r.p(1, 8) {
		o = append(o, "crdVersions=v1")
	}
	if r.p(1, 8) {
		o = append(o, "headerFile=hack/boilerplate.yaml.txt")
		if r.p(1, 2) {
			o = append(o, "year=2031")
		}
	}
	return opts("crd", shuffled(r, o))
}

func opts(name string, o []string) string {
	if len(o) == 0 {
		return name
	}
	return name + ":" + strings.Join(o, ",")
}

func (s *Scenario) headers() {
	s.raw(projRoot+"/hack/boilerplate.go.txt", "/*\nCopyright YEAR The Authors.\n*/\n")
	s.raw(projRoot+"/hack/boilerplate.yaml.txt", "# Copyright YEAR The Authors.\n")
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func init() {
	register(&Campaign{Prop: "C01", Quick: 1800, Thorough: 60000, Real: realCode, Stub: stubCode,
		Rule: "a case is a generated API project (groups, versions, shared packages, recursive and embedded types, validation, resource, scale, printer-column markers, sometimes contradicting each other) and a crd command line, run once as reference and again under other map orders, schedules, read sizes, clocks and environments; non-trivial when at least one map was iterated in a different order or one scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s, g := apiScenario(r, APICfg{Groups: 3, Versions: 3, Conflicts: r.p(1, 2), Nested: r.p(1, 4), Deepcopy: r.p(1, 4), Big: r.p(1, 8)})
			s.headers()
			args := []string{crdOpts(r, false)}
			args = append(args, pathArgs(g.patterns())...)
			args = append(args, pick(r, []string{"output:crd:dir=config/crd", "output:stdout", "output:dir=out", "output:artifacts:config=cfg", "output:crd:artifacts:config=cfg,code=gen"}))
			w.sameCampaign(s, spec("controller-gen", projRoot, shuffled(r, args)...), w.scale(5, 8), true)
		}})
}

func kv(a []string) map[string]string {
	if len(a) == 0 {
		return nil
	}
	m := map[string]string{}
	for i := 0; i+1 < len(a); i += 2 {
		m[a[i]] = a[i+1]
	}
	return m
}
