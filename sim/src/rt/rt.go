// Package rt is the kernel of the deterministic simulator. It owns every
// scheduling decision, every map-iteration order, the simulated clock and the
// life cycle of the simulated process. Code of the system under test is
// rewritten (see /verif/sim/instr) so that it calls into this package at every
// point where real executions are nondeterministic.
//
// Exactly one simulated process runs at a time (the global S). Outside a
// simulation (S == nil) every entry point behaves like the plain Go construct.
//
// Functions that touch scheduler state are marked go:norace and synchronise
// through channels with race-event handling disabled: in a -race build the
// detector then sees only the happens-before edges the code under test makes
// itself, although tasks really run one at a time.
package rt

import (
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Plan is everything that decides a run, besides the code and the inputs.
type Plan struct {
	Map   MapPlan   `json:"map"`
	Sched SchedPlan `json:"sched"`
	Clock int64     `json:"-"` // seconds added to the start of the clock
}

// MapPlan decides map iteration orders.
type MapPlan struct {
	Mode string   `json:"mode"`           // "canon" (sorted), "reverse", "shuffle"
	Seed uint64   `json:"seed,omitempty"` // for shuffle
	Only []string `json:"only,omitempty"` // if non-nil: only these "site#occurrence" (or "site") deviate from canonical order
}

// Switch is a recorded scheduling decision that deviates from the default.
type Switch struct {
	N int `json:"n"` // ordinal of the decision point
	T int `json:"t"` // task chosen
}

// Stall holds up the tasks that get to a place in the code for as long as any
// other can run.
type Stall struct {
	At  int `json:"at"`            // the place: see yield
	Nth int `json:"nth,omitempty"` // only at this visit; 0: at every one
}

// SchedPlan decides task scheduling.
type SchedPlan struct {
	Mode     string   `json:"mode"` // "default" (run to block), "random", "pct", "stall", "replay"
	Seed     uint64   `json:"seed,omitempty"`
	Den      int      `json:"den,omitempty"`    // random: switch with probability 1/Den
	Points   []int    `json:"points,omitempty"` // pct: change points
	Stalls   []Stall  `json:"stalls,omitempty"` // stall: where tasks are held up
	Switches []Switch `json:"switches,omitempty"`
	Rand     uint64   `json:"rand,omitempty"` // seed of the random numbers the process draws
	CPUs     int      `json:"cpus,omitempty"` // processors the process sees; 0: 4
}

const (
	maxTasks    = 8192
	maxSwitches = 1 << 16
)

type taskState int32

const (
	tsRunnable taskState = iota
	tsBlocked
	tsSleeping
	tsDone
)

type task struct {
	id     int
	state  taskState
	waitOn unsafe.Pointer
	site   int32
	wakeAt int64
	prio   uint64
	stall  bool
	wake   chan struct{}
	spawn  int32
	any    []unsafe.Pointer
}

// CPUs is how many processors the simulated process sees.
func CPUs() int {
	if S == nil || S.plan.Sched.CPUs <= 0 {
		return 4
	}
	return S.plan.Sched.CPUs
}

// Outcome of a simulated process.
type Outcome struct {
	Exit      int
	Kind      string // "exit", "crash", "panic", "deadlock", "steps"
	Panic     string
	Blocked   []string
	Yields    int
	Decisions int // decision points with >1 runnable task
	Tasks     int
	Switches  []Switch
	Overflow  bool
	SchedHash uint64
	MapRuns   int    // map iterations over >=2 keys
	MapPerm   int    // of those, not in canonical order
	MapHash   uint64 // hash of all orders used
	MapAmbig  int    // iterations whose keys could not be told apart canonically
	SimTime   int64  // simulated nanoseconds elapsed
	MapSites  []string
	Places    []int // places at which tasks could be switched
}

type Sim struct {
	plan  Plan
	tasks [maxTasks]*task
	n     int // tasks created
	live  int
	cur   *task
	dead  bool
	out   Outcome
	ended chan struct{}

	decisions int
	maxYields int
	rnd       uint64
	rnd2      uint64
	replayAt  int
	nsw       int
	sw        [maxSwitches]Switch
	hash      uint64
	clock     int64
	prioNext  uint64
	places    []int32 // visits by place
	placeList []int

	mapOnly  map[string]bool
	occ      []int32
	mapHash  uint64
	mapRuns  int
	mapPerm  int
	mapAmbig int
	mapSites map[int32]bool
	ptrSeq   map[unsafe.Pointer]int
}

// S is the running simulation.
var S *Sim

// Multi is true while more than one task is alive.
var Multi bool

// NumSites and SiteName are provided by the generated site table.
var SiteNames []string

func SiteName(i int32) string {
	if int(i) < len(SiteNames) && i >= 0 {
		return SiteNames[i]
	}
	return fmt.Sprintf("site%d", i)
}

// OnDeath hooks are run (on the dying task) the moment the simulated process
// stops executing: nothing the unwinding code does afterwards has an effect.
var OnDeath []func(kind string)

//go:norace
func next(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix hashes its arguments into a seed.
func Mix(a ...uint64) uint64 {
	h := uint64(0x1234567890abcdef)
	for _, v := range a {
		h ^= v
		next(&h)
		h = next(&h)
	}
	return h
}

// HashString is FNV-1a.
//
//go:norace
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

var gen uint32 = 1

// Gen counts simulated processes; 0 outside of them.
//
//go:norace
func Gen() uint32 {
	if S == nil {
		return 0
	}
	return gen
}

// Run executes main as a simulated process under plan.
func Run(plan Plan, maxYields int, main func()) Outcome {
	if S != nil {
		panic("rt: nested simulation")
	}
	s := &Sim{plan: plan, maxYields: maxYields, ended: make(chan struct{})}
	s.rnd = Mix(plan.Sched.Seed, 77)
	s.rnd2 = Mix(plan.Sched.Rand, 78)
	s.prioNext = 1 << 40
	s.occ = make([]int32, len(SiteNames)+1)
	s.places = make([]int32, 2*len(SiteNames)+2)
	s.mapSites = map[int32]bool{}
	s.ptrSeq = map[unsafe.Pointer]int{}
	s.clock = (1700000000 + plan.Clock) * 1e9
	if plan.Map.Only != nil {
		s.mapOnly = map[string]bool{}
		for _, o := range plan.Map.Only {
			s.mapOnly[o] = true
		}
	}
	t := &task{id: 0, wake: make(chan struct{}, 1), spawn: -1}
	s.tasks[0] = t
	s.n, s.live = 1, 1
	s.cur = t
	t.prio = s.newPrio()
	Multi = false
	dropOffers()
	nuses = 0
	gen++
	S = s
	start := s.clock
	go runMain(s, main)
	<-s.ended
	s.killRest()
	joined.Load()
	S = nil
	Multi = false
	o := s.out
	o.Yields = s.decisions
	o.Tasks = s.n
	o.Decisions = s.decisions
	o.Switches = append([]Switch(nil), s.sw[:min(s.nsw, maxSwitches)]...)
	o.Overflow = s.nsw > maxSwitches
	o.SchedHash = s.hash
	o.MapRuns, o.MapPerm, o.MapHash, o.MapAmbig = s.mapRuns, s.mapPerm, s.mapHash, s.mapAmbig
	o.SimTime = s.clock - start
	o.Places = s.placeList
	for id := range s.mapSites {
		o.MapSites = append(o.MapSites, SiteName(id))
	}
	return o
}

func runMain(s *Sim, main func()) {
	t := s.tasks[0]
	defer func() {
		r := recover()
		if !isDead(s) {
			if r != nil {
				s.panicked(r)
			} else {
				s.die("exit", 0)
			}
		}
		markDone(t)
		s.ended <- struct{}{}
	}()
	main()
}

func (s *Sim) die(kind string, exit int) {
	s.dead = true
	s.out.Kind = kind
	s.out.Exit = exit
	for _, f := range OnDeath {
		f(kind)
	}
}

func (s *Sim) panicked(r any) {
	buf := make([]byte, 16<<10)
	buf = buf[:runtime.Stack(buf, false)]
	// keep what is the same in every execution: the functions, without
	// goroutine numbers and addresses
	var fns []string
	past := false
	for _, l := range strings.Split(string(buf), "\n") {
		if strings.HasPrefix(l, "panic(") {
			past, fns = true, nil
			continue
		}
		if !past || l == "" || l[0] == '\t' || strings.HasPrefix(l, "created by") {
			continue
		}
		if i := strings.LastIndexByte(l, '('); i > 0 {
			l = l[:i]
		}
		if len(fns) < 12 {
			fns = append(fns, l)
		}
	}
	s.out.Panic = fmt.Sprintf("%v\nin %s", r, strings.Join(fns, "\n   "))
	s.die("panic", 2)
}

//go:norace
func isDead(s *Sim) bool { return s.dead }

//go:norace
func markDone(t *task) { t.state = tsDone }

// killRest unwinds the tasks that were still alive when the process ended, so
// that no goroutine outlives its simulation.
//
//go:norace
func (s *Sim) killRest() {
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t == nil || t.state == tsDone {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		select {
		case <-s.ended:
		case <-time.After(10 * time.Second):
			panic("rt: a task did not unwind: " + SiteName(t.site))
		}
	}
}

// Die ends the simulated process; it does not return.
func Die(kind string, exit int) {
	s := S
	if s == nil {
		panic(fmt.Sprintf("rt: Die(%s,%d) outside a simulation", kind, exit))
	}
	if !isDead(s) {
		s.die(kind, exit)
	}
	runtime.Goexit()
}

// Dead reports whether the simulated process has ended (code may still be
// unwinding).
//
//go:norace
func Dead() bool { return S != nil && S.dead }

//go:norace
func (s *Sim) newPrio() uint64 { return next(&s.rnd)>>24 | 1<<41 }

// runnable returns the number of runnable tasks.
//
//go:norace
func (s *Sim) runnable() int {
	c := 0
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == tsRunnable {
			c++
		}
	}
	return c
}

//go:norace
func (s *Sim) nth(k int) *task {
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == tsRunnable {
			if k == 0 {
				return s.tasks[i]
			}
			k--
		}
	}
	return nil
}

// pick chooses the task that continues. self is the current task if it could
// continue, nil if it blocked or ended.
//
//go:norace
func (s *Sim) pick(self *task) *task {
	c := s.runnable()
	if c == 0 {
		return nil
	}
	def := self
	if def == nil {
		def = s.nth(0)
	}
	if c == 1 {
		def.stall = false
		return def
	}
	s.decisions++
	d := s.decisions
	choice := def
	switch s.plan.Sched.Mode {
	case "random":
		den := s.plan.Sched.Den
		if den < 1 {
			den = 1
		}
		if self == nil || next(&s.rnd)%uint64(den) == 0 {
			choice = s.nth(int(next(&s.rnd) % uint64(c)))
		}
	case "pct":
		for _, p := range s.plan.Sched.Points {
			if p == d && self != nil {
				s.prioNext--
				self.prio = s.prioNext
			}
		}
		choice = nil
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if t.state == tsRunnable && (choice == nil || t.prio > choice.prio) {
				choice = t
			}
		}
	case "stall":
		den := max(1, s.plan.Sched.Den)
		free := 0
		for i := 0; i < s.n; i++ {
			if t := s.tasks[i]; t.state == tsRunnable && !t.stall {
				free++
			}
		}
		if free == 0 {
			// nobody else can run: one of those held up goes on
			choice = s.nth(int(next(&s.rnd) % uint64(c)))
			choice.stall = false
			break
		}
		if self != nil && !self.stall && next(&s.rnd)%uint64(den) != 0 {
			break
		}
		k := int(next(&s.rnd) % uint64(free))
		for i := 0; i < s.n; i++ {
			if t := s.tasks[i]; t.state == tsRunnable && !t.stall {
				if k == 0 {
					choice = t
					break
				}
				k--
			}
		}
	case "replay":
		for s.replayAt < len(s.plan.Sched.Switches) && s.plan.Sched.Switches[s.replayAt].N < d {
			s.replayAt++
		}
		if s.replayAt < len(s.plan.Sched.Switches) && s.plan.Sched.Switches[s.replayAt].N == d {
			id := s.plan.Sched.Switches[s.replayAt].T
			if id < s.n && s.tasks[id].state == tsRunnable {
				choice = s.tasks[id]
			}
		}
	}
	if choice != def {
		if s.nsw < maxSwitches {
			s.sw[s.nsw] = Switch{N: d, T: choice.id}
		}
		s.nsw++
	}
	s.hash = (s.hash ^ uint64(choice.id+1)) * 1099511628211
	return choice
}

// resched gives control away. The caller has updated the current task's state.
//
//go:norace
func (s *Sim) resched(t *task) {
	var self *task
	if t.state == tsRunnable {
		self = t
	}
	nx := s.pick(self)
	for nx == nil {
		if !s.advance() {
			s.deadlock(t)
			return
		}
		nx = s.pick(nil)
	}
	if nx == t {
		return
	}
	s.cur = nx
	fin := t.state == tsDone
	raceOff()
	nx.wake <- struct{}{}
	if !fin {
		<-t.wake
	}
	raceOn()
	if fin {
		return
	}
	if s.dead {
		runtime.Goexit()
	}
}

// advance moves the simulated clock to the next timer.
//
//go:norace
func (s *Sim) advance() bool {
	var best *task
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == tsSleeping && (best == nil || t.wakeAt < best.wakeAt) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.wakeAt > s.clock {
		s.clock = best.wakeAt
	}
	best.state = tsRunnable
	return true
}

// deadlock ends the process: every live task is blocked. If the task that
// noticed it has itself just finished, it is TaskEnd that reports the end.
func (s *Sim) deadlock(t *task) {
	for i := 0; i < s.n; i++ {
		o := s.tasks[i]
		if o.state == tsBlocked {
			s.out.Blocked = append(s.out.Blocked, fmt.Sprintf("task %d blocked at %s", o.id, SiteName(o.site)))
		}
	}
	if t.state == tsDone {
		s.die("deadlock", 2)
		s.ended <- struct{}{}
		return
	}
	Die("deadlock", 2)
}

// Y is a preemption point.
//
//go:norace
func Y(site int32) {
	if Multi {
		yield(site)
	}
}

//go:norace
func yield(site int32) {
	s := S
	if s == nil || s.dead {
		return
	}
	t := s.cur
	// a place is a statement of the program, or an operation of the
	// synchronisation, file or other simulated packages within it
	place := 2 * int(t.site)
	if site != 0 {
		t.site = site
		place = 2*int(site) + 1
	}
	if s.decisions > s.maxYields {
		Die("steps", 2)
	}
	if place >= 0 && place < len(s.places) {
		s.places[place]++
		if s.places[place] == 1 {
			s.placeList = append(s.placeList, place)
		}
		for _, q := range s.plan.Sched.Stalls {
			if q.At == place && (q.Nth == 0 || q.Nth == int(s.places[place])) {
				t.stall = true
			}
		}
	}
	s.resched(t)
}

// Mid marks the point between evaluating a value and storing it.
//
//go:norace
func Mid[T any](site int32, v T) T {
	if Multi {
		yield(site)
	}
	return v
}

// Block parks the current task until Wake(addr).
//
//go:norace
func Block(site int32, addr unsafe.Pointer) {
	s := S
	if s == nil || s.dead {
		return
	}
	t := s.cur
	if site != 0 {
		t.site = site
	}
	t.waitOn = addr
	t.state = tsBlocked
	s.resched(t)
	t.waitOn = nil
}

// Wake makes every task blocked on addr runnable.
//
//go:norace
func Wake(addr unsafe.Pointer) {
	s := S
	if s == nil || s.dead || !Multi {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state != tsBlocked {
			continue
		}
		if t.waitOn == addr {
			t.state = tsRunnable
		}
		for _, p := range t.any {
			if p == addr {
				t.state = tsRunnable
			}
		}
	}
}

// Sleep parks the current task for d simulated nanoseconds.
//
//go:norace
func Sleep(site int32, d int64) {
	s := S
	if s == nil || s.dead {
		return
	}
	t := s.cur
	t.site = site
	if d < 0 {
		d = 0
	}
	t.wakeAt = s.clock + d
	t.state = tsSleeping
	s.resched(t)
}

// Now is the simulated time in Unix nanoseconds. Each reading advances it by a
// microsecond, so that time is monotonic.
//
//go:norace
func Now() int64 {
	s := S
	if s == nil {
		return 1700000000 * 1e9
	}
	s.clock += 1000
	return s.clock
}

// Tok identifies a task about to be started.
type Tok struct{ t *task }

// Spawn registers a task that the current task is about to start.
//
//go:norace
func Spawn(site int32) Tok {
	s := S
	if s == nil || s.dead {
		return Tok{}
	}
	if s.n >= maxTasks {
		s.compact()
	}
	t := &task{id: s.n, wake: make(chan struct{}, 1), spawn: site, site: site}
	t.prio = s.newPrio()
	s.tasks[s.n] = t
	s.n++
	s.live++
	Multi = true
	return Tok{t}
}

//go:norace
func (s *Sim) compact() {
	panic("rt: too many tasks in one simulated process")
}

// AfterSpawn is a preemption point directly after a go statement.
//
//go:norace
func AfterSpawn(site int32) { Y(site) }

// TaskStart is the first thing a task does, after deferring TaskEnd.
//
//go:norace
func TaskStart(k Tok) {
	if k.t == nil {
		if S != nil && S.dead {
			runtime.Goexit()
		}
		return
	}
	raceOff()
	<-k.t.wake
	raceOn()
	if S == nil || S.dead {
		runtime.Goexit()
	}
}

// joined makes everything that tasks did happen before the end of the process,
// as far as the race detector is concerned.
var joined atomic.Int64

// TaskEnd is deferred by every task (directly, so that recover works).
func TaskEnd(k Tok) {
	if k.t == nil {
		return
	}
	s := S
	r := recover()
	if !isDead(s) {
		if r == nil {
			joined.Add(1)
			s.finish(k.t)
			return
		}
		s.panicked(r)
	}
	markDone(k.t)
	s.ended <- struct{}{}
}

//go:norace
func (s *Sim) finish(t *task) {
	t.state = tsDone
	s.live--
	if s.live == 1 {
		// only one task left alive: find it
		alive := 0
		for i := 0; i < s.n; i++ {
			if s.tasks[i].state != tsDone {
				alive++
			}
		}
		if alive <= 1 {
			Multi = false
			s.trim()
		}
	}
	s.resched(t)
}

// trim forgets finished tasks when only main is left, so that long runs with
// many short-lived tasks stay cheap. Task ids keep increasing in creation order
// within a burst.
//
//go:norace
func (s *Sim) trim() {
	if s.tasks[0].state == tsDone {
		return
	}
	for i := 1; i < s.n; i++ {
		if s.tasks[i].state != tsDone {
			return
		}
	}
	for i := 1; i < s.n; i++ {
		s.tasks[i] = nil
	}
	s.n = 1
}

// NumTasks is the number of live tasks.
//
//go:norace
func NumTasks() int {
	if S == nil {
		return 1
	}
	return S.live
}

var outside uint64

// Rand is the simulated process's source of randomness.
//
//go:norace
func Rand() uint64 {
	if S == nil {
		return next(&outside)
	}
	return next(&S.rnd2)
}
