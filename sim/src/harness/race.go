package main

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// In a -race build the detector writes its reports to a file, which is read
// back after every simulated process.

var raceLog struct {
	path string
	at   int64
	seen int
}

// raceInit makes sure that reports go where they can be read back.
func raceInit() {
	if !rt.RaceEnabled {
		return
	}
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(kv, "log_path="); ok && strings.Contains(os.Getenv("GORACE"), "suppress_equal_stacks=0") {
			raceLog.path = fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	if raceLog.path != "" {
		raceLog.seen = rt.RaceErrors()
		return
	}
	dir, err := os.MkdirTemp("", "simrace")
	if err != nil {
		fatal(err)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+dir+"/r")
	err = cmd.Run()
	os.RemoveAll(dir)
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
		os.Exit(ee.ExitCode())
	}
	if err != nil {
		fatal(err)
	}
	os.Exit(0)
}

var frameRE = regexp.MustCompile(`^  ([^ ].*)\(\)$`)

// isStd tells whether a function is of the standard library: who called it is
// of interest.
func isStd(fn string) bool {
	pkg, _, _ := strings.Cut(fn, "(")
	if i := strings.LastIndexByte(pkg, '/'); i >= 0 {
		return !strings.Contains(pkg[:strings.IndexByte(pkg, '/')], ".")
	}
	return !strings.HasPrefix(pkg, "main.")
}

var ownRE = regexp.MustCompile(` in sigs\.k8s\.io/controller-tools/(verifsim/[a-z]+\.)| in main\.`)

// races are the data races reported since the last call.
func races() []string {
	if !rt.RaceEnabled || rt.RaceErrors() == raceLog.seen {
		return nil
	}
	raceLog.seen = rt.RaceErrors()
	f, err := os.Open(raceLog.path)
	if err != nil {
		return []string{"report not readable: " + err.Error()}
	}
	defer f.Close()
	st, _ := f.Stat()
	b := make([]byte, st.Size()-raceLog.at)
	n, _ := f.ReadAt(b, raceLog.at)
	raceLog.at += int64(n)
	set := map[string]bool{}
	for _, rep := range strings.Split(string(b[:n]), "WARNING: DATA RACE")[1:] {
		// two stacks: this access, and the previous one
		var acc []string
		want := ""
		for _, l := range strings.Split(rep, "\n") {
			t := strings.ToLower(strings.TrimSpace(l))
			if strings.HasPrefix(t, "goroutine ") {
				break
			}
			if strings.Contains(t, " at 0x") && strings.Contains(t, " by ") {
				want = "write"
				if strings.Contains(t, "read at") {
					want = "read"
				}
				continue
			}
			if m := frameRE.FindStringSubmatch(l); m != nil && want != "" && !isStd(m[1]) && !strings.Contains(m[1], "/verifsim/rt.") {
				acc = append(acc, want+" in "+m[1])
				want = ""
			}
		}
		// (nothing: neither stack could be restored to more than library code)
		own := true
		for _, a := range acc {
			own = own && ownRE.MatchString(a)
		}
		if own {
			continue // the simulator's own data: its tasks run one at a time
		}
		sort.Strings(acc)
		set[strings.Join(acc, " and ")] = true
	}
	return sortedKeys(set)
}
