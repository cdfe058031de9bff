// Command harness runs simulated executions of controller-tools and judges
// them. It is built with the overlay produced by /verif/sim/instr.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/spf13/pflag"
	"k8s.io/klog/v2"

	cgen "sigs.k8s.io/controller-tools/cmd/controller-gen"
	hgen "sigs.k8s.io/controller-tools/cmd/helpgen"
	tscaf "sigs.k8s.io/controller-tools/cmd/type-scaffold"
	"sigs.k8s.io/controller-tools/verifsim/gostub"
	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
	"sigs.k8s.io/controller-tools/verifsim/simos"
)

// Spec is one simulated process.
type Spec struct {
	Tool       string        `json:"tool"`
	Args       []string      `json:"args"`
	Cwd        string        `json:"cwd"`
	Env        []string      `json:"env,omitempty"`
	Clock      int64         `json:"clock,omitempty"` // seconds added to the start of the simulated clock
	Plan       rt.Plan       `json:"plan"`
	Faults     []simfs.Fault `json:"faults,omitempty"`
	ShortReads uint64        `json:"short_reads,omitempty"`

	injects []simfs.Inject // effects of another process
	stopAt  int
}

// Result of one simulated process.
type Result struct {
	Out    rt.Outcome
	Stdout string
	Stderr string
	Ops    []simfs.Op
	Fired  []string
	MaxFDs int
	Uses   []string // map iterations that were not in canonical order
	Value  any      // what an API program returned
	Races  []string // data races the detector saw (race builds)
}

func (r *Result) OK() bool { return r.Out.Kind == "exit" && r.Out.Exit == 0 }

// Abort is true when the process ended in a way no input justifies.
func (r *Result) Abort() bool {
	return r.Out.Kind == "panic" || r.Out.Kind == "deadlock" || r.Out.Kind == "steps"
}

func (r *Result) Status() string {
	if r.Out.Kind == "exit" {
		return fmt.Sprintf("exit %d", r.Out.Exit)
	}
	s := r.Out.Kind
	if r.Out.Panic != "" {
		s += ": " + firstLine(r.Out.Panic)
	}
	if len(r.Out.Blocked) > 0 {
		s += ": " + strings.Join(r.Out.Blocked, ", ")
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

const maxYields = 3_000_000

var defaultEnv = []string{"PATH=/usr/bin:/bin", "HOME=/root", "LANG=C.UTF-8"}

// tools maps a tool name to its main function.
var tools = map[string]func() any{
	"controller-gen": func() any { cgen.Main(); return nil },
	"helpgen":        func() any { hgen.Main(); return nil },
	"type-scaffold":  func() any { tscaf.Main(); return nil },
}

var world *simfs.FS // goroot and dependency modules

// loadWorld reads the stub standard library and modules.
func loadWorld(dir string) error {
	world = simfs.New()
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		world.Put("/sim/"+rel, b)
		return nil
	})
	world.MkParents("/tmp")
	world.MkParents("/root")
	world.MkParents("/work")
	return err
}

func initSim() {
	gostub.Install()
	klog.LogToStderr(false)
	klog.SetOutput(io.Discard)
	klog.SetOutputBySeverity("INFO", klogOut{})
	klog.OsExit = func(code int) { rt.Die("exit", code) }
}

// klogOut stands for klog's standard error: every message arrives once, with
// a header that says when and by whom.
type klogOut struct{}

func (klogOut) Write(b []byte) (int, error) {
	t := string(b)
	if m := simfs.M; m != nil && !strings.HasPrefix(t, "goroutine ") {
		if i := strings.Index(t, "] "); i >= 0 && len(t) > 0 {
			t = t[:1] + " " + t[i+2:]
		}
		m.Stderr = append(m.Stderr, t...)
	}
	return len(b), nil
}

// NewFS returns the file system of a project.
func NewFS(files map[string]string) *simfs.FS {
	f := world.Clone()
	for _, p := range sortedKeys(files) {
		if strings.HasSuffix(p, "/") {
			f.MkParents(strings.TrimSuffix(p, "/"))
			continue
		}
		f.Put(p, []byte(files[p]))
	}
	return f
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// totals over everything this OS process simulated.
var tot struct {
	Runs, Decisions, MapRuns, MapPerm, MapAmbig, Ops, Golist int
	SimTime                                                  int64
	Faults                                                   map[string]int
	Hashes                                                   map[uint64]bool
	Sites                                                    map[string]bool
	Kinds                                                    map[string]int
	MaxTasks                                                 int
	MaxFDs                                                   int
	Obs                                                      uint64
}

func resetTotals() {
	tot.Faults = map[string]int{}
	tot.Hashes = map[uint64]bool{}
	tot.Sites = map[string]bool{}
	tot.Kinds = map[string]int{}
}

// Exec runs spec as a simulated process on f (which it changes).
func Exec(f *simfs.FS, spec Spec) *Result {
	main, ok := tools[spec.Tool]
	if !ok {
		panic("unknown tool " + spec.Tool)
	}
	return ExecFn(f, spec, main)
}

// noLog is set in race builds, where bookkeeping of file operations would add
// synchronisation the program under test does not have.
var noLog bool

// ExecFn runs fn as a simulated process on f.
func ExecFn(f *simfs.FS, spec Spec, fn func() any) *Result {
	m := &simfs.Machine{
		FS:         f,
		Cwd:        spec.Cwd,
		Args:       append([]string{spec.Tool}, spec.Args...),
		Env:        append(append([]string{}, defaultEnv...), spec.Env...),
		Faults:     spec.Faults,
		ShortReads: spec.ShortReads,
		Injects:    spec.injects,
		StopAt:     spec.stopAt,
		NoLog:      noLog,
		Rand:       spec.Plan.Sched.Rand,
	}
	simfs.Begin(m)
	plan := spec.Plan
	plan.Clock = spec.Clock
	rt.TakeUses()
	res := &Result{}
	res.Out = rt.Run(plan, maxYields, func() {
		simos.Reset(m)
		rt.ResetAll()
		pflag.CommandLine = pflag.NewFlagSet(spec.Tool, pflag.ExitOnError)
		res.Value = fn()
	})
	simfs.End()
	res.Races = races()
	res.Uses = rt.TakeUses()
	res.Stdout, res.Stderr = string(m.Stdout), string(m.Stderr)
	res.Ops, res.Fired, res.MaxFDs = m.Ops, m.Fired, m.MaxFDs
	o := &res.Out
	tot.Runs++
	tot.Decisions += o.Decisions
	tot.MapRuns += o.MapRuns
	tot.MapPerm += o.MapPerm
	tot.MapAmbig += o.MapAmbig
	tot.SimTime += o.SimTime
	tot.Ops += len(m.Ops)
	for _, x := range m.Fired {
		tot.Faults[x]++
	}
	tot.Kinds[o.Kind]++
	if o.Tasks > tot.MaxTasks {
		tot.MaxTasks = o.Tasks
	}
	if m.MaxFDs > tot.MaxFDs {
		tot.MaxFDs = m.MaxFDs
	}
	h := rt.Mix(o.SchedHash, o.MapHash)
	for _, x := range m.Fired {
		h = rt.Mix(h, rt.HashString(x))
	}
	if len(m.Fired) > 0 {
		h = rt.Mix(h, uint64(len(m.Ops)))
	}
	tot.Hashes[h] = true
	observe(f, res)
	for _, u := range res.Uses {
		if i := strings.LastIndexByte(u, '#'); i >= 0 {
			u = u[:i]
		}
		tot.Sites[u] = true
	}
	return res
}

// Tree is the observable file tree: path -> content ("<dir>" for directories),
// without the simulated toolchain.
func Tree(f *simfs.FS) map[string]string {
	out := map[string]string{}
	for p, n := range f.Nodes {
		if strings.HasPrefix(p, "/sim/") || p == "/sim" {
			continue
		}
		switch {
		case n.Link != "":
			out[p] = "<link>" + n.Link
		case n.Dir:
			out[p] = "<dir>"
		default:
			out[p] = string(n.Data)
		}
	}
	return out
}

// Files is Tree without directories.
func Files(f *simfs.FS) map[string]string {
	out := Tree(f)
	for p, c := range out {
		if c == "<dir>" {
			delete(out, p)
		}
	}
	return out
}

// diffFiles describes how b differs from a.
func diffFiles(a, b map[string]string) []string {
	var out []string
	for _, p := range sortedKeys(a) {
		y, ok := b[p]
		if !ok {
			out = append(out, "missing "+p)
		} else if y != a[p] {
			out = append(out, "content of "+p+" differs: "+diffText(a[p], y))
		}
	}
	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok {
			out = append(out, "extra "+p)
		}
	}
	return out
}

// diffText shows the first difference.
func diffText(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q vs %q", i+1, clip(x, 160), clip(y, 160))
		}
	}
	return "no difference"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// lines is the multiset of stderr lines, sorted.
func lines(s string) []string {
	ls := strings.Split(strings.TrimRight(s, "\n"), "\n")
	sort.Strings(ls)
	return ls
}

func clipLines(ls []string, n int) string {
	if len(ls) > n {
		ls = append(append([]string{}, ls[:n]...), fmt.Sprintf("… %d more", len(ls)-n))
	}
	return strings.Join(ls, "; ")
}
