// Package gostub emulates the go command for the simulated process: it answers
// "go list" and "go env" from the simulated file system, in the format of go
// 1.24. It stands for a separate operating-system process, so its own reads are
// not subject to file faults; the command as a whole can be made to fail.
package gostub

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/build"
	"go/scanner"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"sigs.k8s.io/controller-tools/verifsim/rt"
	"sigs.k8s.io/controller-tools/verifsim/simfs"
)

// GoRoot and ModCache are where the simulated standard library and the
// simulated dependency modules live.
const (
	GoRoot   = "/sim/goroot"
	ModCache = "/sim/mod"
)

// Calls counts emulated invocations.
var Calls int

// Install hooks the emulation into go/packages.
func Install() {
	packages.SetSimRun(run)
}

func fail(stderr string) (*bytes.Buffer, *bytes.Buffer, error, error) {
	err := &exec.ExitError{ProcessState: &os.ProcessState{}}
	return &bytes.Buffer{}, bytes.NewBufferString(stderr), fmt.Errorf("err: exit status 1: stderr: %s", stderr), err
}

//go:norace
func called() { Calls++ }

func run(dir, verb string, args, env []string) (*bytes.Buffer, *bytes.Buffer, error, error) {
	m := simfs.M
	rt.Y(0)
	called()
	if f := m.Golist(verb + " " + what(args)); f != nil && (f.Err != "crash") {
		switch f.Err {
		case "ENOENT":
			err := &exec.Error{Name: "go", Err: exec.ErrNotFound}
			return &bytes.Buffer{}, &bytes.Buffer{}, fmt.Errorf("go command required, not found: %v", err), err
		case "EMFILE", "EACCES", "ENOMEM":
			err := fmt.Errorf("fork/exec /usr/bin/go: %w", simfs.Errno(f.Err))
			return &bytes.Buffer{}, &bytes.Buffer{}, fmt.Errorf("err: %v: stderr: ", err), err
		case "short":
			// the command was killed half way through its output
			out := list(m, dir, args)
			n := out.Len() * f.Part / 1000
			err := &exec.ExitError{ProcessState: &os.ProcessState{}}
			return bytes.NewBuffer(out.Bytes()[:n]), &bytes.Buffer{}, fmt.Errorf("err: signal: killed: stderr: "), err
		default:
			return fail("go: error reading go.mod: input/output error\n")
		}
	}
	if dir == "" {
		dir = m.Cwd
	}
	if n := m.FS.Nodes[dir]; n == nil || !n.Dir {
		err := &fs.PathError{Op: "chdir", Path: dir, Err: fs.ErrNotExist}
		return &bytes.Buffer{}, &bytes.Buffer{}, fmt.Errorf("err: %v: stderr: ", err), err
	}
	switch verb {
	case "env":
		mod := findModRoot(m.FS, dir)
		if mod != "" {
			mod += "/go.mod"
		} else {
			mod = "/dev/null"
		}
		if len(args) == 1 && args[0] == "GOARCH" {
			return bytes.NewBufferString("amd64\n"), &bytes.Buffer{}, nil, nil
		}
		b, _ := json.Marshal(map[string]string{"GOMOD": mod, "GOPATH": "/root/go"})
		return bytes.NewBuffer(b), &bytes.Buffer{}, nil, nil
	case "list":
		for i, a := range args {
			if a == "-f" && i+1 < len(args) {
				if strings.Contains(args[i+1], "ReleaseTags") {
					var tags []string
					for v := 1; v <= 24; v++ {
						tags = append(tags, fmt.Sprintf("go1.%d", v))
					}
					return bytes.NewBufferString("[" + strings.Join(tags, " ") + "]\n"), &bytes.Buffer{}, nil, nil
				}
				return bytes.NewBufferString("amd64 gc\n"), &bytes.Buffer{}, nil, nil
			}
		}
		return list(m, dir, args), &bytes.Buffer{}, nil, nil
	}
	return fail("go " + verb + ": unknown command\n")
}

func what(args []string) string {
	for i, a := range args {
		if a == "-f" {
			return args[i+1]
		}
		if a == "--" {
			return strings.Join(args[i+1:], " ")
		}
	}
	return strings.Join(args, " ")
}

func findModRoot(f *simfs.FS, dir string) string {
	for {
		if _, ok := f.Get(dir + "/go.mod"); ok {
			return dir
		}
		if dir == "/" {
			return ""
		}
		dir = path.Dir(dir)
	}
}

type module struct {
	path, dir string
	requires  []string
	replaces  map[string]string
	main      bool
}

func parseMod(f *simfs.FS, dir string) *module {
	b, _ := f.Get(dir + "/go.mod")
	m := &module{dir: dir, replaces: map[string]string{}}
	block := ""
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		fs := strings.Fields(l)
		if len(fs) == 0 {
			continue
		}
		if len(fs) == 1 && fs[0] == ")" {
			block = ""
			continue
		}
		if len(fs) == 2 && fs[1] == "(" {
			block = fs[0]
			continue
		}
		kind := block
		if block == "" {
			kind, fs = fs[0], fs[1:]
		}
		switch kind {
		case "module":
			if len(fs) > 0 {
				m.path = fs[0]
			}
		case "require":
			if len(fs) > 0 {
				m.requires = append(m.requires, fs[0])
			}
		case "replace":
			for i, x := range fs {
				if x == "=>" && i+1 < len(fs) {
					t := fs[i+1]
					if !path.IsAbs(t) {
						t = path.Join(dir, t)
					}
					m.replaces[fs[0]] = t
				}
			}
		}
	}
	return m
}

type perr struct {
	ImportStack []string
	Pos         string
	Err         string
}

type pkg struct {
	Dir               string            `json:",omitempty"`
	ImportPath        string            `json:",omitempty"`
	Name              string            `json:",omitempty"`
	Standard          bool              `json:",omitempty"`
	DepOnly           bool              `json:",omitempty"`
	Incomplete        bool              `json:",omitempty"`
	GoFiles           []string          `json:",omitempty"`
	CgoFiles          []string          `json:",omitempty"`
	CompiledGoFiles   []string          `json:",omitempty"`
	IgnoredGoFiles    []string          `json:",omitempty"`
	IgnoredOtherFiles []string          `json:",omitempty"`
	EmbedPatterns     []string          `json:",omitempty"`
	Imports           []string          `json:",omitempty"`
	ImportMap         map[string]string `json:",omitempty"`
	Module            map[string]any    `json:",omitempty"`
	Error             *perr             `json:",omitempty"`
	DepsErrors        []*perr           `json:",omitempty"`

	bp      *build.Package
	matched bool
	done    bool
	failed  bool // has an error or depends on one
	visit   bool
}

type lister struct {
	fs    *simfs.FS
	cwd   string
	main  *module
	mods  []*module // longest path first
	ctx   build.Context
	pkgs  map[string]*pkg
	order []*pkg
}

// vfile adapts file contents.
type vfile struct{ io.Reader }

func (vfile) Close() error { return nil }

func newLister(f *simfs.FS, cwd string, tags []string) *lister {
	l := &lister{fs: f, cwd: cwd, pkgs: map[string]*pkg{}}
	if root := findModRoot(f, cwd); root != "" {
		l.main = parseMod(f, root)
		l.main.main = true
		l.mods = append(l.mods, l.main)
		for p, d := range l.main.replaces {
			l.mods = append(l.mods, &module{path: p, dir: d})
		}
		for _, r := range l.main.requires {
			if _, ok := l.main.replaces[r]; ok {
				continue
			}
			if n := f.Nodes[ModCache+"/"+r]; n != nil && n.Dir {
				l.mods = append(l.mods, &module{path: r, dir: ModCache + "/" + r})
			}
		}
		sort.Slice(l.mods, func(i, j int) bool {
			if len(l.mods[i].path) != len(l.mods[j].path) {
				return len(l.mods[i].path) > len(l.mods[j].path)
			}
			return l.mods[i].path < l.mods[j].path
		})
	}
	var rel []string
	for v := 1; v <= 24; v++ {
		rel = append(rel, fmt.Sprintf("go1.%d", v))
	}
	l.ctx = build.Context{
		GOARCH: "amd64", GOOS: "linux", GOROOT: GoRoot, Compiler: "gc",
		BuildTags: tags, ReleaseTags: rel, ToolTags: []string{"goexperiment.regabiwrappers"},
		JoinPath:      func(e ...string) string { return path.Join(e...) },
		SplitPathList: func(s string) []string { return strings.Split(s, ":") },
		IsAbsPath:     path.IsAbs,
		IsDir:         func(p string) bool { n := f.Nodes[path.Clean(p)]; return n != nil && n.Dir },
		HasSubdir: func(root, dir string) (string, bool) {
			if strings.HasPrefix(dir, root+"/") {
				return dir[len(root)+1:], true
			}
			return "", false
		},
		ReadDir: func(dir string) ([]fs.FileInfo, error) {
			n := f.Nodes[path.Clean(dir)]
			if n == nil {
				return nil, fs.ErrNotExist
			}
			var names []string
			for k := range n.Kids {
				names = append(names, k)
			}
			sort.Strings(names)
			var out []fs.FileInfo
			for _, k := range names {
				c := f.Nodes[path.Join(dir, k)]
				out = append(out, info{k, c})
			}
			return out, nil
		},
		OpenFile: func(p string) (io.ReadCloser, error) {
			b, ok := f.Get(p)
			if !ok {
				return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
			}
			return vfile{bytes.NewReader(b)}, nil
		},
	}
	return l
}

type info struct {
	name string
	n    *simfs.Node
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode  { return i.n.Mode }
func (i info) ModTime() (t timeT) { return }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }

func under(p, root string) bool { return p == root || strings.HasPrefix(p, root+"/") }

// dirOf resolves an import path.
func (l *lister) dirOf(imp string) (dir string, std bool, mod *module, err string) {
	first, _, _ := strings.Cut(imp, "/")
	if !strings.Contains(first, ".") {
		d := GoRoot + "/src/" + imp
		if n := l.fs.Nodes[d]; n != nil && n.Dir {
			return d, true, nil, ""
		}
	}
	for _, m := range l.mods {
		if under(imp, m.path) {
			d := path.Join(m.dir, strings.TrimPrefix(imp, m.path))
			if n := l.fs.Nodes[d]; n != nil && n.Dir && findModRoot(l.fs, d) == m.dir && l.hasGo(d) {
				return d, false, m, ""
			}
			if m.main {
				break
			}
		}
	}
	if !strings.Contains(first, ".") {
		return "", false, nil, fmt.Sprintf("package %s is not in std (%s/src/%s)", imp, GoRoot, imp)
	}
	return "", false, nil, fmt.Sprintf("no required module provides package %s; to add it:\n\tgo get %s", imp, imp)
}

func (l *lister) hasGo(d string) bool {
	for k := range l.fs.Nodes[d].Kids {
		if strings.HasSuffix(k, ".go") {
			return true
		}
	}
	return false
}

// pathOf gives the import path of a directory.
func (l *lister) pathOf(dir string) string {
	if under(dir, GoRoot+"/src") {
		return strings.TrimPrefix(strings.TrimPrefix(dir, GoRoot+"/src"), "/")
	}
	root := findModRoot(l.fs, dir)
	for _, m := range l.mods {
		if m.dir == root {
			return path.Join(m.path, strings.TrimPrefix(dir, m.dir))
		}
	}
	return ""
}

func (l *lister) rel(p string) string {
	if p == l.cwd {
		return "."
	}
	if strings.HasPrefix(p, l.cwd+"/") {
		return p[len(l.cwd)+1:]
	}
	a, b := strings.Split(l.cwd, "/"), strings.Split(p, "/")
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	up := strings.Repeat("../", len(a)-i) + strings.Join(b[i:], "/")
	if len(up) < len(p) {
		return up
	}
	return p
}

// load reads one package directory.
func (l *lister) load(imp, dir string, std bool) *pkg {
	if p := l.pkgs[imp]; p != nil {
		return p
	}
	p := &pkg{ImportPath: imp, Dir: dir, Standard: std}
	l.pkgs[imp] = p
	bp, err := l.ctx.ImportDir(dir, build.ImportComment)
	p.bp = bp
	p.Name = bp.Name
	p.GoFiles = append([]string(nil), bp.GoFiles...)
	p.CgoFiles = bp.CgoFiles
	p.IgnoredGoFiles = bp.IgnoredGoFiles
	p.IgnoredOtherFiles = bp.IgnoredOtherFiles
	p.EmbedPatterns = bp.EmbedPatterns
	if err != nil {
		p.Error = l.convert(imp, dir, bp, err)
		if p.Error == nil {
			err = nil
		}
	}
	for _, i := range bp.Imports {
		p.Imports = append(p.Imports, i)
	}
	return p
}

// convert turns a go/build error into go list's form (nil: not an error).
func (l *lister) convert(imp, dir string, bp *build.Package, err error) *perr {
	var ng *build.NoGoError
	var mp *build.MultiplePackageError
	var sl scanner.ErrorList
	switch {
	case errors.As(err, &ng):
		if len(bp.TestGoFiles) > 0 || len(bp.XTestGoFiles) > 0 {
			return nil
		}
		if len(bp.IgnoredGoFiles) > 0 {
			return &perr{ImportStack: []string{imp}, Err: "build constraints exclude all Go files in " + dir}
		}
		return &perr{ImportStack: []string{}, Err: "no Go files in " + dir}
	case errors.As(err, &mp):
		return &perr{ImportStack: []string{}, Err: fmt.Sprintf("found packages %s (%s) and %s (%s) in %s", mp.Packages[0], mp.Files[0], mp.Packages[1], mp.Files[1], dir)}
	case errors.As(err, &sl):
		pos := sl[0].Pos
		fn := pos.Filename
		if !path.IsAbs(fn) {
			fn = path.Join(dir, fn)
		}
		pos.Filename = l.rel(fn)
		return &perr{ImportStack: []string{imp}, Pos: pos.String(), Err: sl[0].Msg}
	}
	return &perr{ImportStack: []string{}, Err: err.Error()}
}

// visit loads p's imports depth first, recording post-order.
func (l *lister) visit(p *pkg, stack []string) {
	if p.done {
		return
	}
	if p.visit {
		return
	}
	p.visit = true
	stack = append(stack, p.ImportPath)
	if p.bp != nil {
		for _, i := range p.Imports {
			if i == "C" || i == "unsafe" && l.fs.Nodes[GoRoot+"/src/unsafe"] == nil {
				continue
			}
			q := l.pkgs[i]
			if q == nil {
				dir, std, _, e := l.dirOf(i)
				if e != "" {
					pos := ""
					if ps := p.bp.ImportPos[i]; len(ps) > 0 {
						x := ps[0]
						fn := x.Filename
						if !path.IsAbs(fn) {
							fn = path.Join(p.Dir, fn)
						}
						x.Filename = l.rel(fn)
						pos = x.String()
					}
					q = &pkg{ImportPath: i, Incomplete: true, Error: &perr{ImportStack: append([]string(nil), stack...), Pos: pos, Err: e}}
					l.pkgs[i] = q
				} else {
					q = l.load(i, dir, std)
				}
			}
			if q.visit && !q.done {
				// cycle
				at := 0
				for k, s := range stack {
					if s == i {
						at = k
					}
				}
				cyc := append(append([]string(nil), stack[at:]...), i)
				if q.Error == nil {
					q.Error = &perr{ImportStack: cyc, Err: "import cycle not allowed"}
				}
				p.DepsErrors = append(p.DepsErrors, q.Error)
				p.failed = true
				continue
			}
			l.visit(q, stack)
			if q.Name == "main" && q.Error == nil && p.Error == nil {
				pos := ""
				if ps := p.bp.ImportPos[i]; len(ps) > 0 {
					x := ps[0]
					x.Filename = l.rel(path.Join(p.Dir, path.Base(x.Filename)))
					pos = x.String()
				}
				p.Error = &perr{ImportStack: append([]string(nil), stack...), Pos: pos, Err: fmt.Sprintf("import %q is a program, not an importable package", i)}
			}
			if q.Error != nil {
				p.DepsErrors = append(p.DepsErrors, q.Error)
			}
			if q.Error != nil || q.failed {
				p.failed = true
			}
		}
	}
	if p.Error != nil {
		p.failed = true
		p.Incomplete = true
		// files that could not be parsed are listed too
		if p.bp != nil {
			seen := map[string]bool{}
			for _, g := range p.GoFiles {
				seen[g] = true
			}
			for _, g := range p.bp.InvalidGoFiles {
				if !seen[g] {
					seen[g] = true
					p.GoFiles = append(p.GoFiles, g)
				}
			}
			sort.Strings(p.GoFiles)
		}
	}
	if !p.failed {
		p.CompiledGoFiles = append([]string(nil), p.GoFiles...)
	}
	p.done = true
	l.order = append(l.order, p)
}

// match expands one pattern to packages, in order.
func (l *lister) match(pat string) []*pkg {
	local := strings.HasPrefix(pat, "./") || strings.HasPrefix(pat, "../") || pat == "." || pat == ".." || path.IsAbs(pat)
	if strings.Contains(pat, "...") {
		if local {
			base := path.Dir(pat[:strings.Index(pat, "...")] + "x")
			if !path.IsAbs(base) {
				base = path.Join(l.cwd, base)
			}
			return l.walk(base)
		}
		var out []*pkg
		prefix := strings.TrimSuffix(pat[:strings.Index(pat, "...")], "/")
		if l.main == nil {
			return nil
		}
		for _, p := range l.walk(l.main.dir) {
			if under(p.ImportPath, prefix) {
				out = append(out, p)
			}
		}
		return out
	}
	if local {
		d := pat
		if !path.IsAbs(d) {
			d = path.Join(l.cwd, d)
		}
		name := pat
		if pat == "./." {
			name = "."
		}
		if n := l.fs.Nodes[d]; n == nil || !n.Dir {
			return []*pkg{{ImportPath: name, Incomplete: true, Error: &perr{ImportStack: []string{}, Err: "stat " + d + ": directory not found"}}}
		}
		if !l.hasGo(d) {
			return []*pkg{{Dir: d, ImportPath: name, Incomplete: true, Error: &perr{ImportStack: []string{}, Err: "no Go files in " + d}}}
		}
		imp := l.pathOf(d)
		if imp == "" {
			return []*pkg{{ImportPath: name, Incomplete: true, Error: &perr{ImportStack: []string{}, Err: "directory " + l.rel(d) + " outside main module or its selected dependencies"}}}
		}
		return []*pkg{l.load(imp, d, under(d, GoRoot))}
	}
	dir, std, _, e := l.dirOf(pat)
	if e != "" {
		return []*pkg{{ImportPath: pat, Incomplete: true, Error: &perr{ImportStack: []string{}, Err: e}}}
	}
	return []*pkg{l.load(pat, dir, std)}
}

func (l *lister) walk(base string) []*pkg {
	var out []*pkg
	n := l.fs.Nodes[base]
	if n == nil || !n.Dir || l.main == nil || findModRoot(l.fs, base) != l.main.dir {
		return nil
	}
	var rec func(d string)
	rec = func(d string) {
		n := l.fs.Nodes[d]
		if l.hasGo(d) {
			imp := l.pathOf(d)
			p := l.load(imp, d, false)
			if p.Error != nil && p.Name == "" && len(p.GoFiles) == 0 && len(p.bp.InvalidGoFiles) == 0 {
				// nothing but excluded files: not matched by a wildcard
				delete(l.pkgs, imp)
			} else {
				out = append(out, p)
			}
		}
		var kids []string
		for k := range n.Kids {
			kids = append(kids, k)
		}
		sort.Strings(kids)
		for _, k := range kids {
			c := l.fs.Nodes[d+"/"+k]
			if c == nil || !c.Dir || strings.HasPrefix(k, ".") || strings.HasPrefix(k, "_") || k == "testdata" || k == "vendor" {
				continue
			}
			if _, ok := l.fs.Get(d + "/" + k + "/go.mod"); ok {
				continue
			}
			rec(d + "/" + k)
		}
	}
	rec(base)
	return out
}

// List is the package listing for tests of the emulation.
func List(f *simfs.FS, cwd string, args []string) []byte {
	tags := []string{}
	deps := false
	var pats []string
	for i, a := range args {
		if v, ok := strings.CutPrefix(a, "-tags="); ok {
			tags = strings.FieldsFunc(v, func(r rune) bool { return r == ',' || r == ' ' })
		}
		if a == "-deps=true" || a == "-deps" {
			deps = true
		}
		if a == "--" {
			pats = args[i+1:]
			break
		}
	}
	if len(pats) == 0 {
		pats = []string{"."}
	}
	l := newLister(f, cwd, tags)
	var roots []*pkg
	for _, p := range pats {
		for _, q := range l.match(p) {
			if !q.matched {
				q.matched = true
				roots = append(roots, q)
			}
		}
	}
	for _, r := range roots {
		l.visit(r, nil)
	}
	list := l.order
	if !deps {
		list = roots
	}
	var out bytes.Buffer
	for _, p := range list {
		if !p.matched {
			p.DepOnly = true
		}
		if p.Module == nil && p.Dir != "" && !p.Standard {
			for _, m := range l.mods {
				if under(p.ImportPath, m.path) {
					p.Module = map[string]any{"Path": m.path, "Dir": m.dir, "Main": m.main, "GoMod": m.dir + "/go.mod", "GoVersion": "1.24"}
					break
				}
			}
		}
		b, _ := json.Marshal(p)
		out.Write(b)
		out.WriteByte('\n')
	}
	return out.Bytes()
}

type cacheKey struct {
	cwd  string
	args string
	h    uint64
}

var cache = map[cacheKey][]byte{}

func list(m *simfs.Machine, dir string, args []string) *bytes.Buffer {
	k := cacheKey{dir, strings.Join(args, "\x00"), fsHash(m.FS)}
	b, ok := cache[k]
	if !ok {
		b = List(m.FS, dir, args)
		if len(cache) > 2000 {
			cache = map[cacheKey][]byte{}
		}
		cache[k] = b
	}
	return bytes.NewBuffer(append([]byte(nil), b...))
}

// fsHash digests everything a listing depends on.
func fsHash(f *simfs.FS) uint64 {
	var h uint64
	for p, n := range f.Nodes {
		if strings.HasPrefix(p, "/sim/") {
			continue
		}
		x := rt.HashString(p)
		if n.Dir {
			h ^= rt.Mix(x, 1)
			continue
		}
		if strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "go.mod") {
			x = rt.Mix(x, hashBytes(n.Data))
		}
		h ^= rt.Mix(x, 2)
	}
	return h
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}
