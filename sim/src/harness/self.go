package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// selfObs makes tot.Obs cover the files each process left behind, too.
var selfObs = os.Getenv("SIM_SELF") != ""

// observe folds everything that can be seen of a process into the totals.
func observe(f *simfs.FS, r *Result) {
	h := rt.Mix(rt.HashString(r.Status()), rt.HashString(r.Stdout), rt.HashString(r.Stderr), r.Out.SchedHash, r.Out.MapHash, uint64(r.Out.Decisions))
	for _, o := range r.Ops {
		h = rt.Mix(h, rt.HashString(o.String()))
	}
	if selfObs {
		t := Tree(f)
		for _, p := range sortedKeys(t) {
			h = rt.Mix(h, rt.HashString(p), rt.HashString(t[p]))
		}
	}
	tot.Obs += h
}

// selfTest checks the simulator itself: that a seed is an execution - in
// another process, with another number of threads, and with the cases spread
// over other processes.
func selfTest(o options) int {
	ids := sortedKeys(campaigns)
	n := 24
	if o.cases > 0 {
		n = o.cases
	}
	tmp, err := os.MkdirTemp("", "simself")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	type key struct{ Obs, Runs, Decisions, MapRuns, MapPerm, Ops uint64 }
	work := func(prop string, shard, shards int, procs string) (k key, err error) {
		out := filepath.Join(tmp, fmt.Sprintf("%s-%d-%d-%s", prop, shard, shards, procs))
		cmd := exec.Command(o.self, "worker", "-world", o.world, "-prop", prop, "-seed", fmt.Sprint(o.seed), "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards),
			"-cases", fmt.Sprint(n), "-limit", "600", "-out", out, "-known", o.known)
		cmd.Env = append(os.Environ(), "GOMAXPROCS="+procs, "SIM_SELF=1")
		if b, err := cmd.CombinedOutput(); err != nil {
			return k, fmt.Errorf("%v: %s", err, clip(string(b), 500))
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return k, err
		}
		r := &Report{}
		if err := json.Unmarshal(b, r); err != nil {
			return k, err
		}
		k = key{Obs: r.Obs, Runs: uint64(r.Runs), Decisions: uint64(r.Decisions), MapRuns: uint64(r.MapRuns), MapPerm: uint64(r.MapPerm), Ops: uint64(r.Ops)}
		return k, nil
	}
	bad := 0
	var mu sync.Mutex
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	for _, id := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			a, err1 := work(id, 0, 1, "1")
			b, err2 := work(id, 0, 1, "8")
			var c key
			var err3 error
			for i := 0; i < 3; i++ {
				k, err := work(id, i, 3, "2")
				if err != nil {
					err3 = err
				}
				c.Obs += k.Obs
				c.Runs += k.Runs
				c.Decisions += k.Decisions
				c.MapRuns += k.MapRuns
				c.MapPerm += k.MapPerm
				c.Ops += k.Ops
			}
			mu.Lock()
			defer mu.Unlock()
			switch {
			case err1 != nil || err2 != nil || err3 != nil:
				fmt.Println(id, "failed:", err1, err2, err3)
				bad++
			case a != b || a != c:
				fmt.Printf("%s: not deterministic\n  %+v\n  %+v\n  %+v\n", id, a, b, c)
				bad++
			default:
				fmt.Printf("%s: %d cases, %d processes, observations %016x: the same in 5 processes\n", id, n, a.Runs, a.Obs)
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		return 1
	}
	return 0
}

// realTest compares simulated executions with those of the real programs, go
// command and operating system, on the same files.
func realTest(o options, bin string) int {
	n := 60
	if o.cases > 0 {
		n = o.cases
	}
	tmp, err := os.MkdirTemp("", "simreal")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	world, _ := filepath.Abs(o.world)
	type out struct {
		i    int
		what string
		diff []string
		ok   bool
	}
	// executions in this process come first: they share it
	type job struct {
		c    *Case
		r    *Result
		want map[string]string
	}
	var jobs []job
	for i := 0; i < n; i++ {
		r := newRand(o.seed, rt.HashString("real"), uint64(i))
		p := errProject(r, 1, 3)
		args, _ := p.command(r, someGens(r, p, 1))
		sp := spec("controller-gen", projRoot, args...)
		c := &Case{Files: p.S.render(), Runs: []Spec{sp}}
		f := NewFS(c.Files)
		res := Exec(f, sp)
		jobs = append(jobs, job{c, res, Files(f)})
	}
	outs := make([]out, n)
	sem := make(chan bool, 6)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			T := filepath.Join(tmp, fmt.Sprint(i))
			in := map[string]string{}
			for p, x := range j.c.Files {
				q := T + p
				if strings.HasSuffix(p, "/") {
					os.MkdirAll(q, 0o755)
					continue
				}
				os.MkdirAll(filepath.Dir(q), 0o755)
				if filepath.Base(p) == "go.mod" {
					for _, m := range []string{"k8s.io/api", "k8s.io/apimachinery", "k8s.io/apiextensions-apiserver", "sigs.k8s.io/controller-tools"} {
						x += "\nreplace " + m + " => " + world + "/mod/" + m + "\n"
					}
				}
				in[p] = x
				os.WriteFile(q, []byte(x), 0o644)
			}
			sp := j.c.Runs[0]
			args := append([]string{}, sp.Args...)
			for k := range args {
				args[k] = strings.ReplaceAll(args[k], projRoot, T+projRoot)
			}
			os.MkdirAll(T+"/tmp", 0o755)
			cmd := exec.Command(bin, args...)
			cmd.Dir = T + sp.Cwd
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "TMPDIR="+T+"/tmp", "PWD="+cmd.Dir)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Run()
			t.Stop()
			got := map[string]string{}
			filepath.Walk(T, func(q string, info os.FileInfo, err error) error {
				if err != nil || info.IsDir() || strings.HasPrefix(q, T+"/tmp/") {
					return nil
				}
				b, _ := os.ReadFile(q)
				got[strings.TrimPrefix(q, T)] = string(b)
				return nil
			})
			os.RemoveAll(T)
			u := &out{i: i, what: j.r.Status() + " " + strings.Join(sp.Args, " ")}
			if (err == nil) != j.r.OK() {
				u.diff = append(u.diff, fmt.Sprintf("status: simulated %s, real %v: %s", j.r.Status(), err, clip(se.String(), 600)))
			}
			want := map[string]string{}
			for p, x := range j.want {
				if b := filepath.Base(p); b != "go.mod" && b != "go.sum" && !strings.HasPrefix(p, "/tmp/") {
					want[p] = x
				}
			}
			for p := range got {
				if b := filepath.Base(p); b == "go.mod" || b == "go.sum" {
					delete(got, p)
				}
			}
			u.diff = append(u.diff, diffFiles(want, got)...)
			if so.String() != j.r.Stdout {
				u.diff = append(u.diff, "stdout: "+diffText(j.r.Stdout, so.String()))
			}
			x, y := lines(j.r.Stderr), lines(strings.ReplaceAll(se.String(), T, ""))
			sort.Strings(x)
			sort.Strings(y)
			if a, b := strings.Join(x, "\n"), strings.Join(y, "\n"); a != b {
				u.diff = append(u.diff, "stderr: "+diffText(a, b))
			}
			outs[i] = *u
		}()
	}
	wg.Wait()
	same := 0
	for _, u := range outs {
		if len(u.diff) == 0 {
			same++
			continue
		}
		fmt.Printf("case %d: %s\n", u.i, clip(u.what, 200))
		for _, d := range clipN(u.diff, 4) {
			fmt.Println("   ", clip(d, 900))
		}
	}
	fmt.Printf("%d of %d executions are the same simulated and real\n", same, n)
	if same < n {
		return 1
	}
	return 0
}
