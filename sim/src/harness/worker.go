package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"sigs.k8s.io/controller-tools/verifsim/gostub"
	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// Campaign is the search for one property.
type Campaign struct {
	Prop     string
	Quick    int // cases in the quick tier
	Thorough int
	Race     bool // also run in a build with the race detector
	Case     func(w *Worker, i int)
	Rule     string
	Real     string // which components run real code
	Stub     string
}

var campaigns = map[string]*Campaign{}

func register(c *Campaign) { campaigns[c.Prop] = c }

// Report is what a worker process sends back.
type Report struct {
	Cases      int
	Evals      int
	Skipped    map[string]int
	Nontrivial []uint64
	Found      []*Found
	Runs       int
	Decisions  int
	MapRuns    int
	MapPerm    int
	MapAmbig   int
	Ops        int
	Golist     int
	SimTime    int64
	Faults     map[string]int
	Hashes     []uint64
	Sites      []string
	Kinds      map[string]int
	Counters   map[string]int
	MaxTasks   int
	Samples    []string
	MinEvals   int
	Wall       float64
	TimedOut   bool
	LastCase   int
	Obs        uint64 // of everything observed
}

// Found is a confirmed-in-process violation.
type Found struct {
	Case    *Case
	Finding *Finding
	Index   int
}

// Worker runs the cases of one shard.
type Worker struct {
	C        *Campaign
	Seed     uint64
	Thorough bool
	R        *Rand
	rep      *Report
	nt       map[uint64]bool
	kinds    map[string]int
	index    int
	mark     *os.File
	known    knownList
}

// scale picks a per-tier number.
func (w *Worker) scale(quick, thorough int) int {
	if w.Thorough {
		return thorough
	}
	return quick
}

func (w *Worker) count(what string, n int) { w.rep.Counters[what] += n }
func (w *Worker) skip(why string)          { w.rep.Skipped[why]++ }

// newCase starts a case for this property.
func (w *Worker) newCase(oracle string, s *Scenario, runs ...Spec) *Live {
	return &Live{Case: &Case{Prop: w.C.Prop, Oracle: oracle, Name: s.Name, Seed: w.Seed, Files: s.render(), Runs: runs}, Scn: s}
}

// check judges a case. nontrivial says whether the case exercised something.
func (w *Worker) check(l *Live) *Finding {
	w.rep.Evals++
	w.note(l)
	f := l.Case.judge()
	if f == nil {
		return nil
	}
	if k := w.known.match(&Found{Case: l.Case, Finding: f}); k != "" {
		w.rep.Counters["known finding seen: "+f.What]++
		return nil
	}
	// keep at most a few per class
	if w.kinds[f.What] < 2 {
		w.kinds[f.What]++
		c, g, n := minimise(l, f, w.scale(250, 600))
		w.rep.MinEvals += n
		w.rep.Found = append(w.rep.Found, &Found{c, g, w.index})
	}
	return f
}

func (w *Worker) note(l *Live) {
	if len(w.rep.Samples) < 1 {
		j, _ := json.Marshal(l.Case.Runs)
		w.rep.Samples = append(w.rep.Samples, fmt.Sprintf("case %d %s/%s: %d files, runs %s", w.index, l.Case.Oracle, l.Case.Name, len(l.Case.Files), clip(string(j), 700)))
	}
}

// nontrivial records that a distinct, non-trivial execution was judged.
func (w *Worker) nontrivial(l *Live, r *Result) {
	h := rt.Mix(l.Case.filesKey(), r.Out.SchedHash, r.Out.MapHash)
	for _, x := range r.Fired {
		h = rt.Mix(h, rt.HashString(x))
	}
	if len(r.Fired) > 0 {
		h = rt.Mix(h, uint64(len(r.Ops)))
	}
	w.nt[h] = true
}

// current is told before every case, so that a run that kills the process can
// be attributed.
func (w *Worker) current(l *Live) {
	if w.mark == nil || l == nil {
		return
	}
	b, _ := json.Marshal(l.Case)
	w.mark.Truncate(0)
	w.mark.WriteAt(b, 0)
}

func runWorker(prop string, seed uint64, thorough bool, shard, shards, cases int, limit time.Duration, out, known string) {
	c := campaigns[prop]
	w := &Worker{C: c, Seed: seed, Thorough: thorough, nt: map[uint64]bool{}, kinds: map[string]int{},
		rep: &Report{Skipped: map[string]int{}, Counters: map[string]int{}}}
	w.known = loadKnown(known)
	w.mark, _ = os.Create(out + ".cur")
	start := time.Now()
	for i := shard; i < cases; i += shards {
		if time.Since(start) > limit {
			w.rep.TimedOut = true
			break
		}
		w.index = i
		memo = map[string]*Obs{}
		w.R = newRand(seed, rt.HashString(prop), uint64(i))
		w.rep.Cases++
		w.rep.LastCase = i
		c.Case(w, i)
		if len(w.rep.Found) >= 4 {
			break
		}
	}
	r := w.rep
	for h := range w.nt {
		r.Nontrivial = append(r.Nontrivial, h)
	}
	for h := range tot.Hashes {
		r.Hashes = append(r.Hashes, h)
	}
	r.Sites = sortedKeys(tot.Sites)
	r.Runs, r.Decisions, r.MapRuns, r.MapPerm, r.MapAmbig, r.Ops = tot.Runs, tot.Decisions, tot.MapRuns, tot.MapPerm, tot.MapAmbig, tot.Ops
	r.SimTime, r.Faults, r.Kinds, r.MaxTasks, r.Golist = tot.SimTime, tot.Faults, tot.Kinds, tot.MaxTasks, gostub.Calls
	r.Obs = tot.Obs
	r.Wall = time.Since(start).Seconds()
	b, _ := json.Marshal(r)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

// runCheck is the parent: it shards the work over worker processes, confirms
// what they find in fresh processes, and writes the evidence.
func runCheck(o options) int {
	c := campaigns[o.prop]
	if c == nil {
		fatal("no such property: " + o.prop)
	}
	start := time.Now()
	cases := c.Quick
	limit := time.Duration(o.limit) * time.Second
	if o.thorough {
		cases = c.Thorough
	}
	if o.cases > 0 {
		cases = o.cases
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if o.shards > 0 {
		n = o.shards
	}
	if n > cases {
		n = cases
	}
	tmp, err := os.MkdirTemp("", "simh")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	reps := make([]*Report, n)
	crashed := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
			cmd := exec.Command(o.self, "worker", "-world", o.world, "-prop", o.prop, "-seed", fmt.Sprint(o.seed), "-thorough="+fmt.Sprint(o.thorough),
				"-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-cases", fmt.Sprint(cases), "-limit", fmt.Sprint(o.limit), "-out", out, "-known", o.known)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", i)))
			var eb strings.Builder
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			timer := time.AfterFunc(limit+120*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Run()
			timer.Stop()
			b, rerr := os.ReadFile(out)
			if rerr == nil {
				r := &Report{}
				if json.Unmarshal(b, r) == nil {
					reps[i] = r
				}
			}
			if reps[i] == nil {
				crashed[i] = fmt.Sprintf("worker %d: %v: %s", i, err, clip(eb.String(), 3000))
			}
		}(i)
	}
	wg.Wait()

	var found []*Found
	for i := range reps {
		if reps[i] != nil {
			found = append(found, reps[i].Found...)
			continue
		}
		// the process died: the case it was working on is the suspect
		b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("w%d.json.cur", i)))
		k := &Case{}
		if err != nil || json.Unmarshal(b, k) != nil {
			fatal("internal error: " + crashed[i])
		}
		found = append(found, &Found{k, violation("process killed", crashed[i]), -1})
	}
	sort.SliceStable(found, func(i, j int) bool { return found[i].Index < found[j].Index })
	known := loadKnown(o.known)
	viol, unconfirmed := 0, 0
	knownSeen := map[string]bool{}
	seen := map[string]bool{}
	os.MkdirAll(o.replays, 0o755)
	var vlines []string
	for _, f := range found {
		if seen[f.Finding.What] && len(vlines) > 0 {
			continue
		}
		name := fmt.Sprintf("%s-%08x.json", o.prop, uint32(rt.Mix(f.Case.filesKey(), rt.HashString(f.Finding.What))))
		p := filepath.Join(o.replays, name)
		writeReplay(p, f)
		ok, exact := confirm(o, p, f)
		if !ok {
			unconfirmed++
			os.Remove(p)
			fmt.Printf("UNCONFIRMED property=%s %s\n", o.prop, clip(f.Finding.String(), 1500))
			continue
		}
		seen[f.Finding.What] = true
		if k := known.match(f); k != "" {
			knownSeen[k] = true
			os.Remove(p)
			continue
		}
		viol++
		if !exact {
			fmt.Println("(does not repeat exactly: this code draws on something the simulator does not control)")
		}
		vlines = append(vlines, fmt.Sprintf("VIOLATION property=%s replay=%s", o.prop, p))
		fmt.Printf("%s\n", clip(f.Finding.What+"\n  "+strings.Join(f.Finding.Detail, "\n  "), 3000))
	}
	for _, k := range known.forProp(o.prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k)
	}
	writeEvidence(o, c, reps, viol, unconfirmed, start, cases)
	for _, l := range vlines {
		fmt.Println(l)
	}
	if viol > 0 {
		return 1
	}
	if unconfirmed > 0 {
		// something in the machinery is not reproducible: that is no verdict on
		// the code, but it must not be mistaken for a pass either
		return 4
	}
	return 0
}

// Replay is the content of a replay file.
type Replay struct {
	Case    *Case    `json:"case"`
	Finding *Finding `json:"finding"`
	HowTo   string   `json:"how_to"`
	Race    bool     `json:"race_build,omitempty"`
}

func writeReplay(p string, f *Found) {
	r := Replay{f.Case, f.Finding, "run: /verif/bin/check " + f.Case.Prop + " replay " + p, rt.RaceEnabled}
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal(err)
	}
}

// confirm replays the file in fresh processes. An execution of code that is
// nondeterministic in ways the simulator does not control may not repeat
// exactly: then it takes at least one more execution that breaks the property.
func confirm(o options, p string, f *Found) (ok, exact bool) {
	again := 0
	for i := 0; i < 4; i++ {
		if i == 2 && again == 2 {
			return true, true
		}
		cmd := exec.Command(o.self, "replay", "-world", o.world, p)
		t := time.AfterFunc(150*time.Second, func() { cmd.Process.Kill() })
		b, err := cmd.CombinedOutput()
		t.Stop()
		code := 0
		if ee, is := err.(*exec.ExitError); is {
			code = ee.ExitCode()
		} else if err != nil {
			return false, false
		}
		if f.Finding.What == "process killed" {
			// died again, rather than giving a verdict
			if code != 0 && code != 1 && code != 5 {
				again += 2
			}
			if i == 1 {
				return again == 4, true
			}
			continue
		}
		switch code {
		case 1:
			again++
		case 5:
			again += 5
		default:
			fmt.Printf("replay of %s: exit %d %s\n", p, code, clip(string(b), 800))
		}
	}
	return again > 0, false
}

// runReplay re-executes a replay file: exit 1 if it reproduces exactly, 5 if
// the outcome differs, 0 if the property holds.
func runReplay(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal(err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fatal(err)
	}
	f := r.Case.judge()
	if f == nil {
		fmt.Println("the property holds on this execution: the violation does not reproduce")
		return 0
	}
	fmt.Println(f.What)
	for _, d := range f.Detail {
		fmt.Println("  " + d)
	}
	a, _ := json.Marshal(f)
	w, _ := json.Marshal(r.Finding)
	if string(a) != string(w) {
		fmt.Println("not the recorded violation, which was:", r.Finding.String())
		return 5
	}
	fmt.Println("reproduced exactly")
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Case.Prop, p)
	return 1
}

// ---- known findings ----

type knownEntry struct {
	Property string `json:"property"`
	What     string `json:"what"`  // class of the finding
	Match    string `json:"match"` // text the details must contain
	Text     string `json:"text"`
	Fixed    string `json:"fixed,omitempty"`
}

type knownList []knownEntry

func loadKnown(p string) knownList {
	var k knownList
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fatal("known findings:", err)
	}
	return k
}

func (k knownList) match(f *Found) string {
	for _, e := range k {
		if e.Fixed == "" && e.Property == f.Case.Prop && e.What == f.Finding.What && strings.Contains(f.Finding.String(), e.Match) {
			return e.Text
		}
	}
	return ""
}

func (k knownList) forProp(p string) []string {
	var out []string
	for _, e := range k {
		if e.Fixed == "" && e.Property == p {
			out = append(out, e.Text)
		}
	}
	return out
}

// ---- evidence ----

func writeEvidence(o options, c *Campaign, reps []*Report, viol, unconfirmed int, start time.Time, cases int) {
	if o.evidence == "" {
		return
	}
	sum := &Report{Skipped: map[string]int{}, Faults: map[string]int{}, Kinds: map[string]int{}, Counters: map[string]int{}}
	nt, hs, sites := map[uint64]bool{}, map[uint64]bool{}, map[string]bool{}
	for _, r := range reps {
		if r == nil {
			continue
		}
		sum.Cases += r.Cases
		sum.Evals += r.Evals
		sum.Runs += r.Runs
		sum.Decisions += r.Decisions
		sum.MapRuns += r.MapRuns
		sum.MapPerm += r.MapPerm
		sum.MapAmbig += r.MapAmbig
		sum.Ops += r.Ops
		sum.Golist += r.Golist
		sum.SimTime += r.SimTime
		sum.MinEvals += r.MinEvals
		sum.TimedOut = sum.TimedOut || r.TimedOut
		if r.MaxTasks > sum.MaxTasks {
			sum.MaxTasks = r.MaxTasks
		}
		for _, m := range []struct{ d, s map[string]int }{{sum.Skipped, r.Skipped}, {sum.Faults, r.Faults}, {sum.Kinds, r.Kinds}, {sum.Counters, r.Counters}} {
			for k, v := range m.s {
				m.d[k] += v
			}
		}
		for _, h := range r.Nontrivial {
			nt[h] = true
		}
		for _, h := range r.Hashes {
			hs[h] = true
		}
		for _, s := range r.Sites {
			sites[s] = true
		}
		sum.Samples = append(sum.Samples, r.Samples...)
	}
	wall := time.Since(start).Seconds()
	samples := sum.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	tier := "quick"
	if o.thorough {
		tier = "thorough"
	}
	// merge with the evidence of the other build of the same check
	cov := map[string]any{
		"evaluations":                  sum.Evals,
		"distinct_nontrivial":          len(nt),
		"rule":                         c.Rule,
		"samples":                      samples,
		"generated_cases":              sum.Cases,
		"planned_cases":                cases,
		"stopped_by_time_limit":        sum.TimedOut,
		"simulated_processes":          sum.Runs,
		"simulated_processes_per_hour": int(float64(sum.Runs) / wall * 3600),
		"seeds_per_hour":               int(float64(sum.Evals) / wall * 3600),
		"simulated_time_ms":            sum.SimTime / 1e6,
		"scheduling_decisions":         sum.Decisions,
		"map_iterations":               sum.MapRuns,
		"map_iterations_reordered":     sum.MapPerm,
		"map_iterations_ambiguous":     sum.MapAmbig,
		"map_sites_reordered":          len(sites),
		"file_operations":              sum.Ops,
		"go_command_runs_emulated":     sum.Golist,
		"faults_fired":                 sum.Faults,
		"process_endings":              sum.Kinds,
		"distinct_interleavings":       len(hs),
		"interleaving_measure":         "distinct hashes over (scheduling choices, map orders, faults fired)",
		"max_tasks_in_one_process":     sum.MaxTasks,
		"skipped":                      sum.Skipped,
		"counters":                     sum.Counters,
		"minimisation_runs":            sum.MinEvals,
		"violations":                   viol,
		"unconfirmed":                  unconfirmed,
		"real_code":                    c.Real,
		"stubs":                        c.Stub,
	}
	if o.race {
		cov["race_detector_build"] = true
	}
	ev := map[string]any{"property": o.prop, "tier": tier, "seed": int(o.seed), "level": "exploration", "coverage": cov, "wall_s": wall}
	if o.merge {
		if b, err := os.ReadFile(o.evidence); err == nil {
			old := map[string]any{}
			if json.Unmarshal(b, &old) == nil {
				if oc, ok := old["coverage"].(map[string]any); ok {
					oc["race_build"] = cov
					if x, ok := oc["evaluations"].(float64); ok {
						oc["evaluations"] = int(x) + sum.Evals
					}
					if x, ok := oc["violations"].(float64); ok {
						oc["violations"] = int(x) + viol
					}
					if x, ok := old["wall_s"].(float64); ok {
						old["wall_s"] = x + wall
					}
					ev = old
				}
			}
		}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(o.evidence), 0o755)
	if err := os.WriteFile(o.evidence, b, 0o644); err != nil {
		fatal(err)
	}
}
