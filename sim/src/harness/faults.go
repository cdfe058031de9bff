package main

import (
	"fmt"
	"path"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// generic are diagnostics that do not say what went wrong.
func generic(l string) bool {
	return l == "" || strings.HasPrefix(l, "Error: not all generators ran successfully") || strings.HasPrefix(l, "run `") || strings.HasPrefix(l, "Usage:")
}

func init() {
	// Runs[0] is the fault-free run, Runs[1] the same with faults. A run that
	// claims success must have done everything the fault-free run did; one that
	// does not must say why.
	oracles["fault"] = func(c *Case) *Finding {
		a := c.run(0)
		b := c.run(1)
		if len(b.Res.Fired) == 0 {
			return nil
		}
		if b.Res.Abort() {
			return violation("abnormal end after a fault", b.Res.Status(), faultText(c.Runs[1]), clip(b.Res.Out.Panic, 600))
		}
		if !b.Res.OK() {
			old := map[string]bool{}
			for _, l := range lines(a.Res.Stderr) {
				old[l] = true
			}
			for _, l := range lines(b.Res.Stderr) {
				if !generic(l) && !old[l] {
					return nil
				}
			}
			if !a.Res.OK() {
				return nil
			}
			return violation("failure without a reason", b.Res.Status(), faultText(c.Runs[1]), "stderr: "+b.Res.Stderr)
		}
		if !a.Res.OK() {
			return violation("success only because of a fault", a.Res.Status(), a.Res.Stderr, faultText(c.Runs[1]))
		}
		if d := diffFiles(a.Files, b.Files); len(d) > 0 {
			// recorded: gengo ignores what closing its output files says
			if strings.Contains(strings.Join(c.Runs[1].Args, " "), "applyconfiguration") && allPrefix(d, "content of ") &&
				allSuffix(b.Res.Fired, ":closew") {
				return violation("apply configuration code: error on close ignored", append([]string{faultText(c.Runs[1])}, d...)...)
			}
			return violation("success reported, output wrong", append([]string{faultText(c.Runs[1])}, clipN(d, 4)...)...)
		}
		if a.Res.Stdout != b.Res.Stdout {
			return violation("success reported, standard output wrong", faultText(c.Runs[1]), diffText(a.Res.Stdout, b.Res.Stdout))
		}
		return nil
	}

	// Runs[0] is the uninterrupted run. Runs[1:n-1] are interrupted or failing
	// runs one after the other, on the same files, and the last is a run
	// without faults on whatever they left behind.
	oracles["recover"] = func(c *Case) *Finding {
		a := c.run(0)
		if !a.Res.OK() {
			return nil
		}
		f := NewFS(c.Files)
		src := Files(f)
		for p, x := range src {
			if a.Files[p] != x {
				return nil // its own input is its output: another property
			}
		}
		var text []string
		var o *Obs
		torn := map[string]bool{}
		for i := 1; i < len(c.Runs); i++ {
			o = c.step(i, f)
			text = append(text, faultText(c.Runs[i])+" => "+o.Res.Status())
			if i < len(c.Runs)-1 {
				for _, op := range o.Res.Ops {
					if op.Kind == "create" || op.Kind == "write" {
						torn[op.Path] = true
					}
				}
				if c.Params["power"] != "" && o.Res.Out.Kind == "crash" {
					powerCut(f, o.Res, rt.HashString(c.Params["power"]))
				}
				// sources are inputs: no crash may touch them
				for _, p := range sortedKeys(src) {
					if _, made := a.Files[p]; made && a.Files[p] != src[p] {
						continue // also an output
					}
					if n := f.Nodes[p]; n == nil || string(n.Data) != src[p] {
						return violation("interrupted run damaged an input", p, strings.Join(text, "; "))
					}
				}
			}
		}
		if o.Res.Abort() {
			return violation("rerun ended abnormally", o.Res.Status(), strings.Join(text, "; "))
		}
		if !o.Res.OK() {
			for p := range torn {
				// recorded: a generated Go file without a complete package
				// clause stops the next run
				if strings.HasPrefix(path.Base(p), "zz_generated") && strings.HasSuffix(p, ".go") && strings.Contains(o.Res.Stderr, path.Base(p)) {
					return violation("rerun refuses a torn generated file", p, strings.Join(text, "; "), o.Res.Stderr)
				}
			}
			return violation("rerun failed", append(text, o.Res.Status(), o.Res.Stderr)...)
		}
		left := map[string]string{}
		for p, d := range o.Files {
			left[p] = d
		}
		for p := range left {
			if _, ok := a.Files[p]; !ok && isTemp(p) {
				delete(left, p) // litter of an interrupted run
			}
		}
		if d := diffFiles(a.Files, left); len(d) > 0 {
			return violation("rerun did not converge", append(text, clipN(d, 4)...)...)
		}
		if a.Res.Stdout != o.Res.Stdout {
			return violation("rerun printed something else", append(text, diffText(a.Res.Stdout, o.Res.Stdout))...)
		}
		return nil
	}

	// In-place patching: whatever happens, every manifest is as it was or as it
	// should become. Runs[0] is fault-free, Runs[1] has faults.
	oracles["inplace"] = func(c *Case) *Finding {
		a := c.run(0)
		b := c.run(1)
		if !a.Res.OK() || len(b.Res.Fired) == 0 {
			return nil
		}
		if c.Params["power"] != "" && b.Res.Out.Kind == "crash" {
			g := b.FS.Clone()
			powerCut(g, b.Res, rt.HashString(c.Params["power"]))
			b = &Obs{Res: b.Res, FS: g, Files: Files(g)}
		}
		// files whose rewriting began and did not end well
		torn := map[string]bool{}
		done := map[string]bool{}
		bad := map[string]bool{}
		for _, op := range b.Res.Ops {
			switch op.Kind {
			case "create", "openw":
				torn[op.Path] = op.Err == "" || op.Err == "crash"
			case "write":
				bad[op.Path] = bad[op.Path] || op.Err != ""
			case "closew":
				if op.Err == "" && !bad[op.Path] {
					delete(torn, op.Path)
					done[op.Path] = true
				}
			}
		}
		for _, p := range sortedKeys(c.Files) {
			x, ok := b.Files[p]
			if ok && (x == c.Files[p] || x == a.Files[p]) {
				continue
			}
			if ok && strings.HasPrefix(a.Files[p], x) && strings.HasPrefix(p, path.Join(projRoot, c.Params["dir"])+"/") {
				// recorded: the target is truncated and written in place
				if torn[p] && len(torn) == 1 {
					return violation("manifest being rewritten is torn", p, faultText(c.Runs[1]), fmt.Sprintf("%d bytes left of %d", len(x), len(c.Files[p])))
				}
				// recorded: nothing is flushed to the disk
				if done[p] && c.Params["power"] != "" {
					return violation("patched manifest lost to a power cut", p, faultText(c.Runs[1]), fmt.Sprintf("%d bytes left of %d", len(x), len(c.Files[p])))
				}
			}
			return violation("manifest lost", p, faultText(c.Runs[1]), fmt.Sprintf("present: %v", ok), diffText(c.Files[p], x))
		}
		return nil
	}
}

func allPrefix(xs []string, p string) bool {
	for _, x := range xs {
		if !strings.HasPrefix(x, p) {
			return false
		}
	}
	return true
}

func allSuffix(xs []string, p string) bool {
	for _, x := range xs {
		if !strings.HasSuffix(x, p) {
			return false
		}
	}
	return true
}

func isTemp(p string) bool {
	return strings.HasPrefix(p, "/tmp/") || strings.HasPrefix(p, "/var/tmp/") || strings.HasSuffix(p, ".tmp") || strings.Contains(path.Base(p), ".tmp")
}

func faultText(s Spec) string {
	if len(s.Faults) == 0 {
		return "no fault"
	}
	var t []string
	for _, f := range s.Faults {
		x := fmt.Sprintf("%s at %s %s #%d", f.Err, f.Op, f.Path, f.Nth)
		if f.Part > 0 {
			x += fmt.Sprintf(" after %d‰", f.Part)
		}
		if f.Late {
			x += " (after it took effect)"
		}
		if f.Sticky {
			x += " and from then on"
		}
		t = append(t, x)
	}
	return strings.Join(t, ", ")
}

// powerCut loses the unsynchronised tail of what a crashed process wrote.
func powerCut(f *simfs.FS, r *Result, seed uint64) {
	synced := map[string]bool{}
	wrote := map[string]bool{}
	for _, op := range r.Ops {
		switch op.Kind {
		case "write", "create":
			if op.Err != "" {
				continue // nothing happened, or to a file listed already
			}
			wrote[op.Path] = true
			synced[op.Path] = false
		case "sync":
			synced[op.Path] = op.Err == ""
		}
	}
	for _, p := range sortedKeys(wrote) {
		n := f.Nodes[p]
		if n == nil || n.Dir || synced[p] {
			continue
		}
		h := rt.Mix(seed, rt.HashString(p))
		switch h % 4 {
		case 0: // reached the disk
		case 1:
			n.Data = nil
		default:
			if k := len(n.Data); k > 0 {
				k = int(h >> 8 % uint64(k))
				if k < 0 {
					k = 0
				}
				n.Data = n.Data[: k%len(n.Data) : k%len(n.Data)]
			}
		}
	}
}

var (
	outOps = map[string][]string{
		"create":     {"EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO"},
		"openw":      {"EACCES", "EMFILE", "EIO"},
		"write":      {"ENOSPC", "EIO", "EDQUOT"},
		"closew":     {"EIO", "ENOSPC"},
		"mkdir":      {"EACCES", "ENOSPC", "EROFS", "EIO"},
		"mkdirall":   {"EACCES", "ENOSPC", "EROFS", "EIO"},
		"rename":     {"EACCES", "EIO", "ENOSPC"},
		"createtemp": {"EACCES", "ENOSPC", "EMFILE"},
		"truncate":   {"EIO", "ENOSPC"},
		"sync":       {"EIO", "ENOSPC"},
		"chmod":      {"EACCES", "EROFS"},
	}
	inOps = map[string][]string{
		"open":    {"EACCES", "EMFILE", "EIO", "ENOENT", "ESTALE"},
		"read":    {"EIO", "ESTALE"},
		"stat":    {"EACCES", "EIO", "ESTALE"},
		"lstat":   {"EACCES", "EIO"},
		"readdir": {"EACCES", "EIO", "EMFILE"},
		"golist":  {"EIO", "short", "ENOMEM", "ENOENT"},
	}
)

// sites lists the operations of a run at which faults of a table can strike.
func sites(r *Result, table map[string][]string, keep func(simfs.Op) bool) []simfs.Op {
	var out []simfs.Op
	for _, o := range r.Ops {
		if len(table[o.Kind]) == 0 || o.Path == "/dev/stderr" || keep != nil && !keep(o) {
			continue
		}
		out = append(out, o)
	}
	return out
}

// spread picks k sites, at most a few per path and kind.
func spread(r *Rand, s []simfs.Op, k int) []simfs.Op {
	s = shuffled(r, s)
	seen := map[string]int{}
	var out []simfs.Op
	for lim := 1; len(out) < k && lim <= 64; lim *= 2 {
		for _, o := range s {
			if len(out) >= k {
				break
			}
			key := o.Kind + o.Path
			if seen[key] >= lim {
				continue
			}
			seen[key]++
			out = append(out, o)
		}
		if len(out) >= len(s) {
			break
		}
	}
	return out
}

func faultAt(r *Rand, o simfs.Op, table map[string][]string) simfs.Fault {
	f := simfs.Fault{Op: o.Kind, Path: o.Path, Nth: o.Nth, Err: pick(r, table[o.Kind])}
	switch o.Kind {
	case "write":
		if r.p(1, 2) {
			f.Part = r.n(1000)
		}
		f.Sticky = r.p(1, 4)
	case "closew":
		f.Part = r.n(1001)
	case "create", "open":
		f.Sticky = r.p(1, 5) && (f.Err == "EMFILE" || f.Err == "ENOSPC")
	case "golist":
		f.Part = r.n(1000)
	}
	return f
}

// crashAt makes a crash at or just after an operation.
func crashAt(r *Rand, o simfs.Op) simfs.Fault {
	f := simfs.Fault{Op: o.Kind, Path: o.Path, Nth: o.Nth, Err: "crash", Late: r.p(1, 2)}
	if o.Kind == "write" && r.p(2, 3) {
		f.Part = 1 + r.n(999)
		f.Late = false
	}
	return f
}
