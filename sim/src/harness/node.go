package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// Node is a piece of a generated input that the minimiser can take out.
type Node struct {
	Pre   string
	Kids  []*Node
	Post  string
	Meta  any  // what the reference model knows about it
	Fixed bool // cannot be taken out on its own
	Off   bool
}

func (n *Node) add(k ...*Node) *Node { n.Kids = append(n.Kids, k...); return n }
func line(s string) *Node            { return &Node{Pre: s + "\n"} }
func linef(f string, a ...any) *Node { return &Node{Pre: fmt.Sprintf(f, a...) + "\n"} }
func fixed(s string) *Node           { return &Node{Pre: s, Fixed: true} }

func (n *Node) render(b *strings.Builder) {
	if n.Off {
		return
	}
	b.WriteString(n.Pre)
	for _, k := range n.Kids {
		k.render(b)
	}
	b.WriteString(n.Post)
}

func (n *Node) String() string {
	var b strings.Builder
	n.render(&b)
	return b.String()
}

// walk visits the enabled nodes.
func (n *Node) walk(f func(*Node)) {
	if n.Off {
		return
	}
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

// GFile is a generated file. Go files get the imports their text uses.
type GFile struct {
	Path    string
	Head    *Node // before the imports (package clause, package markers)
	Body    *Node
	Imports map[string]string // alias -> path
	Dot     map[string]bool   // aliases that are imported with a dot instead
	Off     bool
	Keep    bool // the case means something else without it
}

func (g *GFile) text() string {
	body := ""
	if g.Body != nil {
		body = g.Body.String()
	}
	head := ""
	if g.Head != nil {
		head = g.Head.String()
	}
	var im []string
	for _, a := range sortedKeys(g.Imports) {
		p := g.Imports[a]
		if strings.Contains(body, a+".") && usesAlias(body, a) {
			if g.Dot[a] {
				body = strings.ReplaceAll(body, a+".", "\x00")
				body = regexp.MustCompile(`(^|[^A-Za-z0-9_.])\x00`).ReplaceAllString(body, "${1}")
				body = strings.ReplaceAll(body, "\x00", a+".")
				a = "."
			}
			im = append(im, fmt.Sprintf("\t%s %q\n", a, p))
		}
	}
	sort.Strings(im)
	if len(im) > 0 {
		head += "\nimport (\n" + strings.Join(im, "") + ")\n"
	}
	if head != "" && body != "" {
		head += "\n"
	}
	return head + body
}

func usesAlias(body, a string) bool {
	for _, l := range strings.Split(body, "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "//") {
			continue
		}
		for i := strings.Index(l, a+"."); i >= 0; {
			if i == 0 || !isIdent(l[i-1]) {
				return true
			}
			j := strings.Index(l[i+1:], a+".")
			if j < 0 {
				break
			}
			i += 1 + j
		}
	}
	return false
}

func isIdent(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// Scenario is a generated input: files, and the processes to run on them.
type Scenario struct {
	Name  string
	Files []*GFile
	Runs  []Spec // the runs a user would make, without faults or variations
	Feat  []string
}

func (s *Scenario) file(p string) *GFile {
	g := &GFile{Path: p, Head: &Node{}, Body: &Node{}}
	s.Files = append(s.Files, g)
	return g
}

func (s *Scenario) raw(p, text string) *GFile {
	g := &GFile{Path: p, Body: fixed(text)}
	s.Files = append(s.Files, g)
	return g
}

func (s *Scenario) render() map[string]string {
	out := map[string]string{}
	for _, g := range s.Files {
		if !g.Off {
			out[path.Clean(g.Path)] = g.text()
		}
	}
	return out
}

// metas returns the model data of everything still present.
func (s *Scenario) metas() []any {
	var out []any
	for _, g := range s.Files {
		if g.Off {
			continue
		}
		for _, n := range []*Node{g.Head, g.Body} {
			if n != nil {
				n.walk(func(x *Node) {
					if x.Meta != nil {
						out = append(out, x.Meta)
					}
				})
			}
		}
	}
	return out
}

// Rand is a small seeded generator, independent of Go's.
type Rand struct{ x uint64 }

func newRand(a ...uint64) *Rand { return &Rand{rt.Mix(a...)} }
func (r *Rand) u() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.u() % uint64(k))
}

// p is true with probability a/b.
func (r *Rand) p(a, b int) bool     { return r.n(b) < a }
func (r *Rand) in(lo, hi int) int   { return lo + r.n(hi-lo+1) }
func pick[T any](r *Rand, xs []T) T { return xs[r.n(len(xs))] }
func shuffled[T any](r *Rand, xs []T) []T {
	out := append([]T(nil), xs...)
	for i := len(out) - 1; i > 0; i-- {
		j := r.n(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// subset picks each element with probability a/b.
func subset[T any](r *Rand, xs []T, a, b int) []T {
	var out []T
	for _, x := range xs {
		if r.p(a, b) {
			out = append(out, x)
		}
	}
	return out
}

func sortFiles(fs []*GFile) []*GFile {
	sort.Slice(fs, func(i, j int) bool { return fs[i].Path < fs[j].Path })
	return fs
}
