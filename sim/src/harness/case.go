package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// Case is one self-contained question: the initial files, the simulated
// processes with every scheduling, ordering and fault decision, and the oracle
// that judges what they did. It is what a replay file holds.
type Case struct {
	Prop   string            `json:"property"`
	Oracle string            `json:"oracle"`
	Name   string            `json:"name"`
	Seed   uint64            `json:"seed"`
	Files  map[string]string `json:"files"`
	Runs   []Spec            `json:"runs"`
	Model  json.RawMessage   `json:"model,omitempty"`
	Params map[string]string `json:"params,omitempty"`
	Old    map[string]string `json:"old,omitempty"` // files as they once were

	fkey uint64
}

// Finding is a violation.
type Finding struct {
	What   string   `json:"what"`   // class, stable under minimisation
	Detail []string `json:"detail"` // what was observed
}

func (f *Finding) String() string { return f.What + ": " + strings.Join(f.Detail, " | ") }

func violation(what string, detail ...string) *Finding {
	for i := range detail {
		detail[i] = clip(detail[i], 1200)
	}
	return &Finding{what, detail}
}

// Obs is what can be seen of a finished process.
type Obs struct {
	Res   *Result
	FS    *simfs.FS // the file system afterwards
	Files map[string]string
}

type oracleFn func(*Case) *Finding

var oracles = map[string]oracleFn{}

// memo caches fault-free executions on the initial files of the current case.
var memo = map[string]*Obs{}

func (c *Case) filesKey() uint64 {
	if c.fkey == 0 {
		h := uint64(1469598103934665603)
		for _, p := range sortedKeys(c.Files) {
			h = rt.Mix(h, rt.HashString(p), rt.HashString(c.Files[p]))
		}
		c.fkey = h | 1
	}
	return c.fkey
}

// run executes one process on the case's initial files.
func (c *Case) run(i int) *Obs {
	j, _ := json.Marshal(c.Runs[i])
	k := fmt.Sprintf("%x/%s", c.filesKey(), j)
	if o, ok := memo[k]; ok {
		if i == traceRun {
			lastTraced = o.Res
		}
		return o
	}
	o := c.step(i, NewFS(c.Files))
	if len(memo) > 60 {
		memo = map[string]*Obs{}
	}
	memo[k] = o
	return o
}

// step executes process i on f, changing it.
func (c *Case) step(i int, f *simfs.FS) *Obs {
	r := Exec(f, c.Runs[i])
	if i == traceRun {
		lastTraced = r
	}
	return &Obs{Res: r, FS: f, Files: Files(f)}
}

func (c *Case) judge() *Finding {
	o, ok := oracles[c.Oracle]
	if !ok {
		panic("unknown oracle " + c.Oracle)
	}
	return o(c)
}

func (c *Case) clone() *Case {
	d := *c
	d.Files = map[string]string{}
	for k, v := range c.Files {
		d.Files[k] = v
	}
	d.Runs = append([]Spec(nil), c.Runs...)
	d.fkey = 0
	return &d
}

// ---- comparing observations ----

// diffObs describes how b differs from a, as a user would see it.
func diffObs(a, b *Obs, files bool) *Finding {
	if a.Res.Status() != b.Res.Status() {
		d := []string{"status " + a.Res.Status() + " vs " + b.Res.Status()}
		d = append(d, diffErr(a, b)...)
		return violation("exit status", d...)
	}
	if files {
		if d := diffFiles(a.Files, b.Files); len(d) > 0 {
			return violation("files", clipN(d, 6)...)
		}
		if a.Res.Stdout != b.Res.Stdout {
			return violation("standard output", diffText(a.Res.Stdout, b.Res.Stdout))
		}
	}
	if d := diffErr(a, b); len(d) > 0 {
		return violation("diagnostics", d...)
	}
	return nil
}

// diffErr compares the multisets of lines on standard error.
func diffErr(a, b *Obs) []string {
	x, y := lines(a.Res.Stderr), lines(b.Res.Stderr)
	if strings.Join(x, "\n") == strings.Join(y, "\n") {
		return nil
	}
	cnt := map[string]int{}
	for _, l := range x {
		cnt[l]++
	}
	for _, l := range y {
		cnt[l]--
	}
	var only1, only2 []string
	for _, l := range sortedKeys(cnt) {
		if cnt[l] > 0 {
			only1 = append(only1, clip(l, 300))
		} else if cnt[l] < 0 {
			only2 = append(only2, clip(l, 300))
		}
	}
	return []string{"stderr only in first: " + clipLines(only1, 4), "stderr only in second: " + clipLines(only2, 4)}
}

func clipN(d []string, n int) []string {
	if len(d) > n {
		return append(append([]string{}, d[:n]...), fmt.Sprintf("… %d more", len(d)-n))
	}
	return d
}

// ---- minimisation ----

// Live is a case together with what it was generated from.
type Live struct {
	Case  *Case
	Scn   *Scenario
	Model func(*Scenario) any // recomputes the reference model's data
}

// rebuild refreshes the files and model of the case from the scenario.
func (l *Live) rebuild(c *Case) *Case {
	d := c.clone()
	if l.Scn != nil {
		d.Files = l.Scn.render()
		if l.Model != nil {
			b, _ := json.Marshal(l.Model(l.Scn))
			d.Model = b
		}
	}
	return d
}

type minimiser struct {
	l      *Live
	c      *Case
	f      *Finding
	budget int
	evals  int
}

func (m *minimiser) try(d *Case) bool {
	if m.budget <= 0 {
		return false
	}
	m.budget--
	m.evals++
	f := d.judge()
	if f != nil && f.What == m.f.What {
		m.c, m.f = d, f
		return true
	}
	return false
}

// minimise shrinks the input, then the plan, then the faults.
func minimise(l *Live, f *Finding, budget int) (*Case, *Finding, int) {
	m := &minimiser{l: l, c: l.Case, f: f, budget: budget}
	for pass := 0; pass < 2 && m.budget > 0; pass++ {
		n := m.evals
		before := len(m.c.Files)
		m.files()
		m.plans()
		m.faults()
		m.rest()
		if m.evals == n || pass > 0 && len(m.c.Files) == before {
			break
		}
	}
	return m.c, m.f, m.evals
}

func (m *minimiser) files() {
	s := m.l.Scn
	if s == nil {
		return
	}
	for _, g := range s.Files {
		if g.Off || g.Keep || strings.HasSuffix(g.Path, "go.mod") && g.Path == projRoot+"/go.mod" {
			continue
		}
		g.Off = true
		if !m.try(m.l.rebuild(m.c)) {
			g.Off = false
		}
	}
	for _, g := range s.Files {
		if g.Off {
			continue
		}
		for _, n := range []*Node{g.Head, g.Body} {
			if n != nil {
				m.node(n)
			}
		}
	}
}

// node removes halves of a node's children, then single ones, then recurses.
func (m *minimiser) node(n *Node) {
	live := func() []*Node {
		var out []*Node
		for _, k := range n.Kids {
			if !k.Off && !k.Fixed {
				out = append(out, k)
			}
		}
		return out
	}
	for size := len(live()) / 2; size >= 1; size /= 2 {
		ks := live()
		for at := 0; at < len(ks) && m.budget > 0; at += size {
			end := min(at+size, len(ks))
			for _, k := range ks[at:end] {
				k.Off = true
			}
			if !m.try(m.l.rebuild(m.c)) {
				for _, k := range ks[at:end] {
					k.Off = false
				}
			}
		}
	}
	for _, k := range n.Kids {
		if !k.Off && len(k.Kids) > 0 {
			m.node(k)
		}
	}
}

func (m *minimiser) plans() {
	for i := range m.c.Runs {
		s := m.c.Runs[i]
		if s.ShortReads != 0 {
			d := m.c.clone()
			d.Runs[i].ShortReads = 0
			m.try(d)
		}
		if s.Clock != 0 {
			d := m.c.clone()
			d.Runs[i].Clock = 0
			m.try(d)
		}
		if len(s.Env) > 0 {
			d := m.c.clone()
			d.Runs[i].Env = nil
			m.try(d)
		}
		if s.Plan.Sched.Mode != "" && s.Plan.Sched.Mode != "default" {
			d := m.c.clone()
			d.Runs[i].Plan.Sched = rt.SchedPlan{}
			if !m.try(d) {
				m.sched(i)
			}
		}
		if s.Plan.Map.Mode != "" && s.Plan.Map.Mode != "canon" {
			d := m.c.clone()
			d.Runs[i].Plan.Map = rt.MapPlan{}
			if !m.try(d) {
				m.maps(i)
			}
		}
	}
}

// trace judges the case again and returns what run i did.
func (m *minimiser) trace(i int) *Result {
	lastTraced = nil
	traceRun = i
	m.c.judge()
	traceRun = -1
	return lastTraced
}

// tracing support: oracles execute runs through c.exec, which records the
// result of the run being traced.
var (
	traceRun   = -1
	lastTraced *Result
)

func (m *minimiser) maps(i int) {
	r := m.trace(i)
	if r == nil || len(r.Uses) == 0 || len(r.Uses) > 20000 {
		return
	}
	// first by site, then by occurrence
	bySite := map[string][]string{}
	for _, u := range r.Uses {
		s := u[:strings.LastIndexByte(u, '#')]
		bySite[s] = append(bySite[s], u)
	}
	sites := ddmin(sortedKeys(bySite), func(keep []string) bool {
		d := m.c.clone()
		d.Runs[i].Plan.Map.Only = append([]string{}, keep...)
		return m.try(d)
	})
	var occ []string
	for _, s := range sites {
		occ = append(occ, bySite[s]...)
	}
	if len(m.c.Runs[i].Plan.Map.Only) == 0 {
		return
	}
	ddmin(occ, func(keep []string) bool {
		d := m.c.clone()
		d.Runs[i].Plan.Map.Only = append([]string{}, keep...)
		return m.try(d)
	})
}

func (m *minimiser) sched(i int) {
	r := m.trace(i)
	if r == nil || r.Out.Overflow {
		return
	}
	d := m.c.clone()
	d.Runs[i].Plan.Sched = rt.SchedPlan{Mode: "replay", Switches: r.Out.Switches, Rand: d.Runs[i].Plan.Sched.Rand, CPUs: d.Runs[i].Plan.Sched.CPUs}
	if !m.try(d) {
		return
	}
	ddmin(r.Out.Switches, func(keep []rt.Switch) bool {
		d := m.c.clone()
		d.Runs[i].Plan.Sched.Switches = append([]rt.Switch{}, keep...)
		return m.try(d)
	})
}

func (m *minimiser) faults() {
	for i := range m.c.Runs {
		if len(m.c.Runs[i].Faults) > 1 {
			ddmin(m.c.Runs[i].Faults, func(keep []simfs.Fault) bool {
				d := m.c.clone()
				d.Runs[i].Faults = append([]simfs.Fault{}, keep...)
				return m.try(d)
			})
		}
	}
}

// rest drops runs beyond what the oracle needs (repetitions).
// rest shrinks how two processes alternate.
func (m *minimiser) rest() {
	segs := parseWeave(m.c.Params["weave"])
	if len(segs) == 0 {
		return
	}
	with := func(segs []seg) *Case {
		d := m.c.clone()
		d.Params = map[string]string{}
		for k, v := range m.c.Params {
			d.Params[k] = v
		}
		d.Params["weave"] = weaveText(segs)
		return d
	}
	ddmin(segs, func(keep []seg) bool { return m.try(with(keep)) })
	if m.c.Params["pre"] != "" {
		d := with(parseWeave(m.c.Params["weave"]))
		d.Params["pre"] = ""
		m.try(d)
	}
}

// ddmin is Zeller's delta debugging on a list; ok must accept the full list.
func ddmin[T any](xs []T, ok func([]T) bool) []T {
	n := 2
	for len(xs) >= 1 {
		size := (len(xs) + n - 1) / n
		if size == 0 {
			break
		}
		reduced := false
		for at := 0; at < len(xs); at += size {
			end := min(at+size, len(xs))
			rest := append(append([]T{}, xs[:at]...), xs[end:]...)
			if len(rest) == len(xs) {
				continue
			}
			if ok(rest) {
				xs = rest
				n = max(n-1, 2)
				reduced = true
				break
			}
		}
		if !reduced {
			if size == 1 {
				break
			}
			n = min(n*2, len(xs))
		}
	}
	return xs
}

func sortStrings(x []string) []string {
	y := append([]string{}, x...)
	sort.Strings(y)
	return y
}
