package main

import (
	"fmt"
	"sort"
	"strings"
)

// RBACRule is what the reference model knows of one rbac marker.
type RBACRule struct {
	Groups, Resources, Names, Verbs, URLs []string
	NS                                    string
	Pkg                                   string
}

// HookCfg is what the reference model knows of one webhook marker.
type HookCfg struct {
	Pkg                                       string
	File                                      string
	Config                                    bool // a webhookconfiguration marker
	Mutating                                  bool
	Name, Fail, Match, Side, Path, URL, Reinv string
	Timeout                                   int
	Groups, Resources, Verbs, Versions, ARV   []string
	SvcName, SvcNS                            string
	Port                                      int
}

func list(r *Rand, xs []string) string {
	if len(xs) == 1 && r.p(1, 2) {
		return quoteMaybe(r, xs[0])
	}
	if r.p(1, 3) {
		var q []string
		for _, x := range xs {
			q = append(q, quoteMaybe(r, x))
		}
		return "{" + strings.Join(q, ",") + "}"
	}
	var q []string
	for _, x := range xs {
		q = append(q, quoteMaybe(r, x))
	}
	return strings.Join(q, ";")
}

func quoteMaybe(r *Rand, s string) string {
	plain := s != ""
	for _, c := range s {
		if !(c == '.' || c == '-' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			plain = false
		}
	}
	if !plain || r.p(1, 4) {
		return "\"" + s + "\""
	}
	return s
}

func nonEmpty(r *Rand, pool []string, k int) []string {
	n := r.in(1, k)
	out := shuffled(r, pool)[:min(n, len(pool))]
	if r.p(1, 8) {
		out = append(out, out[0])
	}
	return out
}

// ctlPkg lays out a package whose files carry package-level markers.
type ctlPkg struct {
	dir, path string
	files     []*GFile
}

// ctlScenario generates controller packages. nth supplies the marker nodes.
func ctlScenario(r *Rand, npk int, name string) (*Scenario, []*ctlPkg) {
	s := &Scenario{Name: name}
	s.raw(projRoot+"/go.mod", modFile(projMod))
	var out []*ctlPkg
	dirs := shuffled(r, []string{"controllers", "internal/controller", "pkg/a", "pkg/b/c", "webhooks", "."})[:npk]
	for _, d := range dirs {
		p := &ctlPkg{dir: strings.TrimSuffix(projRoot+"/"+d, "/."), path: projMod}
		if d != "." {
			p.path += "/" + d
		}
		base := strings.ReplaceAll(d[strings.LastIndexByte(d, '/')+1:], ".", "root")
		for i, k := 0, r.in(1, 3); i < k; i++ {
			f := s.file(fmt.Sprintf("%s/f%d.go", p.dir, i))
			f.Imports = stdImports
			f.Head.add(fixed("package " + base + "\n"))
			p.files = append(p.files, f)
		}
		out = append(out, p)
	}
	return s, out
}

// place puts a marker line at one of the positions where package markers go.
func place(r *Rand, f *GFile, marker string, meta any, n int) {
	m := &Node{Pre: "// " + marker + "\n", Meta: meta}
	switch r.n(7) {
	case 0: // before the package clause
		f.Head.Kids = append([]*Node{{Kids: []*Node{m}, Post: pick(r, []string{"\n", ""})}}, f.Head.Kids...)
	case 1: // above a function, apart from its documentation
		doc := ""
		if r.p(1, 2) {
			doc = fmt.Sprintf("// F%d does things.\n", n)
		}
		f.Body.add(&Node{Kids: []*Node{fixed("\n"), m, fixed(fmt.Sprintf("\n%sfunc F%d() {}\n\n", doc, n))}})
	case 2, 3: // above a type, apart from its documentation
		doc := ""
		if r.p(1, 2) {
			doc = fmt.Sprintf("// T%d is a type.\n", n)
		}
		f.Body.add(&Node{Kids: []*Node{fixed("\n"), m, fixed(fmt.Sprintf("\n%stype T%d struct{ A int }\n\n", doc, n))}})
	case 4: // between declarations
		f.Body.add(&Node{Kids: []*Node{fixed("\n"), m, fixed(fmt.Sprintf("\nvar V%d = %d\n\n", n, n))}})
	default:
		// appended to the previous free-standing block, if any
		if k := len(f.Body.Kids); k > 0 && f.Body.Kids[k-1].Meta == "block" {
			b := f.Body.Kids[k-1]
			b.Kids = append(b.Kids[:len(b.Kids)-1], m, b.Kids[len(b.Kids)-1])
			return
		}
		f.Body.add(&Node{Meta: "block", Kids: []*Node{fixed("\n"), m, fixed("\n")}})
	}
}

func rbacScenario(r *Rand, npk, max int) (*Scenario, []*ctlPkg) {
	s, ps := ctlScenario(r, npk, "rbac")
	groups := []string{"core", "", "apps", "batch", "a.example.com", "b.example.com", "*"}
	res := []string{"pods", "deployments", "deployments/status", "jobs", "widgets", "widgets/finalizers", "secrets", "*"}
	verbs := []string{"get", "list", "watch", "create", "update", "patch", "delete", "*"}
	names := []string{"one", "two", "three"}
	urls := []string{"/healthz", "/metrics", "/api/*", "/version"}
	nss := []string{"", "", "", "ns-a", "ns-b"}
	// small pools make merging and colliding rules likely
	gp := shuffled(r, groups)[:r.in(1, 4)]
	rp := shuffled(r, res)[:r.in(1, 4)]
	vp := shuffled(r, verbs)[:r.in(1, 4)]
	np := shuffled(r, names)[:r.in(1, 2)]
	if r.p(1, 6) {
		np[0] = ""
	}
	n := 0
	for _, p := range ps {
		for i, k := 0, r.in(1, max); i < k; i++ {
			n++
			m := &RBACRule{Pkg: p.path, NS: pick(r, nss)}
			var a []string
			m.Verbs = nonEmpty(r, vp, 3)
			if r.p(1, 8) {
				m.URLs = nonEmpty(r, urls, 2)
				a = append(a, "urls="+list(r, m.URLs))
			} else {
				m.Resources = nonEmpty(r, rp, 3)
				a = append(a, "resources="+list(r, m.Resources))
				if !r.p(1, 10) {
					m.Groups = nonEmpty(r, gp, 3)
					a = append(a, "groups="+list(r, m.Groups))
				}
				if r.p(1, 4) {
					m.Names = nonEmpty(r, np, 2)
					a = append(a, "resourceNames="+list(r, m.Names))
				}
				if r.p(1, 12) {
					m.URLs = nonEmpty(r, urls, 2)
					a = append(a, "urls="+list(r, m.URLs))
				}
			}
			a = append(a, "verbs="+list(r, m.Verbs))
			if m.NS != "" {
				a = append(a, "namespace="+quoteMaybe(r, m.NS))
			}
			place(r, pick(r, p.files), "+kubebuilder:rbac:"+strings.Join(shuffled(r, a), ","), m, n)
		}
	}
	return s, ps
}

func hookScenario(r *Rand, npk, max int) (*Scenario, []*ctlPkg) {
	s, ps := ctlScenario(r, npk, "webhook")
	n := 0
	cfgdM, cfgdV := false, false
	for _, p := range ps {
		for i, k := 0, r.in(0, max); i < k; i++ {
			n++
			m := &HookCfg{Pkg: p.path, Mutating: r.p(1, 2)}
			// few names, so that several hooks share one
			m.Name = fmt.Sprintf("h%d.example.com", r.n(6))
			m.Fail = pick(r, []string{"fail", "Fail", "ignore", "Ignore"})
			m.Side = pick(r, []string{"None", "none", "NoneOnDryRun"})
			m.Groups = nonEmpty(r, []string{"core", "apps", "x.example.com"}, 2)
			m.Resources = nonEmpty(r, []string{"pods", "widgets", "deployments"}, 2)
			m.Verbs = nonEmpty(r, []string{"create", "update", "delete", "Connect", "*"}, 3)
			m.Versions = nonEmpty(r, []string{"v1", "v1beta1"}, 2)
			m.ARV = nonEmpty(r, []string{"v1", "v1beta1"}, 2)
			a := []string{fmt.Sprintf("mutating=%v", m.Mutating), "failurePolicy=" + m.Fail, "sideEffects=" + m.Side,
				"groups=" + list(r, m.Groups), "resources=" + list(r, m.Resources), "verbs=" + list(r, m.Verbs),
				"versions=" + list(r, m.Versions), "name=" + m.Name, "admissionReviewVersions=" + list(r, m.ARV)}
			if r.p(1, 5) {
				m.URL = fmt.Sprintf("https://h%d.example.com:8443/p", n)
				a = append(a, "url=\""+m.URL+"\"")
			} else {
				m.Path = fmt.Sprintf("/mutate-%d", r.n(4))
				a = append(a, "path="+m.Path)
				m.SvcName, m.SvcNS = "webhook-service", "system"
				if r.p(1, 4) {
					m.SvcName = "other-svc"
					a = append(a, "serviceName=other-svc")
				}
				if r.p(1, 4) {
					m.SvcNS = "other-ns"
					a = append(a, "serviceNamespace=other-ns")
				}
				if r.p(1, 4) {
					m.Port = 8443
					a = append(a, "servicePort=8443")
				}
			}
			if r.p(1, 3) {
				m.Match = pick(r, []string{"Exact", "equivalent", "Equivalent"})
				a = append(a, "matchPolicy="+m.Match)
			}
			if r.p(1, 3) {
				m.Timeout = r.in(1, 30)
				a = append(a, fmt.Sprintf("timeoutSeconds=%d", m.Timeout))
			}
			if m.Mutating && r.p(1, 3) {
				m.Reinv = pick(r, []string{"Never", "IfNeeded"})
				a = append(a, "reinvocationPolicy="+m.Reinv)
			}
			if r.p(1, 4) {
				a = append(a, "webhookVersions="+pick(r, []string{"v1", "{v1}", "{v1,v1}", "v1;v1"}))
			}
			f := pick(r, p.files)
			m.File = f.Path
			place(r, f, "+kubebuilder:webhook:"+strings.Join(shuffled(r, a), ","), m, n)
		}
		for _, mut := range []bool{true, false} {
			done := &cfgdV
			if mut {
				done = &cfgdM
			}
			if *done || !r.p(1, 5) {
				continue
			}
			*done = true
			n++
			m := &HookCfg{Pkg: p.path, Config: true, Mutating: mut, Name: fmt.Sprintf("cfg-%d", n)}
			place(r, pick(r, p.files), fmt.Sprintf("+kubebuilder:webhookconfiguration:mutating=%v,name=%s", mut, m.Name), m, n)
		}
	}
	return s, ps
}

// ctlPatterns returns patterns covering the packages, and whether sub-packages
// of the project root matter.
func ctlPatterns(r *Rand, ps []*ctlPkg) []string {
	if r.p(1, 2) {
		return []string{"./..."}
	}
	var out []string
	for _, p := range shuffled(r, ps) {
		d := strings.TrimPrefix(strings.TrimPrefix(p.dir, projRoot), "/")
		out = append(out, "./"+d)
	}
	if r.p(1, 4) {
		out = append(out, out[r.n(len(out))])
	}
	return out
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}
