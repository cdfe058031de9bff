package main

import (
	"fmt"
	"sort"
	"strings"
)

// ProjCfg says what a whole project contains.
type ProjCfg struct {
	API    APICfg
	NoAPI  bool
	RBAC   int // at most so many rules per package
	Hooks  int
	Patch  bool // hand-written manifests to patch
	Inline bool // kinds nested in kinds
}

// Proj is a generated project and what can be generated from it.
type Proj struct {
	S   *Scenario
	API *apiGen
	Ctl []*ctlPkg
	Dir string // of the manifests

	file *GFile // of the last manifest
}

func (s *Scenario) merge(o *Scenario) {
	for _, f := range o.Files {
		if s.has(f.Path) == nil {
			s.Files = append(s.Files, f)
		}
	}
}

// genProject makes a project with API types, controllers, webhooks and
// manifests.
func genProject(r *Rand, cfg ProjCfg) *Proj {
	p := &Proj{S: &Scenario{Name: "project"}}
	p.S.raw(projRoot+"/go.mod", modFile(projMod))
	p.S.headers()
	if !cfg.NoAPI {
		s, g := apiScenario(r, cfg.API)
		p.S.merge(s)
		p.API = g
	}
	if cfg.RBAC > 0 {
		s, ps := rbacScenario(r, r.in(1, 2), cfg.RBAC)
		p.S.merge(s)
		p.Ctl = append(p.Ctl, ps...)
	}
	if cfg.Hooks > 0 {
		s, ps := hookScenario(r, 1, cfg.Hooks)
		var keep []*ctlPkg
		for _, q := range ps {
			clash := false
			for _, o := range p.Ctl {
				clash = clash || o.dir == q.dir
			}
			if !clash {
				keep = append(keep, q)
			}
		}
		if len(keep) == len(ps) {
			p.S.merge(s)
			p.Ctl = append(p.Ctl, ps...)
		}
	}
	if cfg.Patch && p.API != nil {
		p.Dir = "config/crd/bases"
		p.manifests(r)
	}
	return p
}

// Manifest is what the model knows of a hand-written manifest.
type Manifest struct{ File, Group, Kind string }

// manifests writes hand-written CRD manifests, and other files beside them.
func (p *Proj) manifests(r *Rand) {
	vers := map[string][]string{}
	for _, k := range p.API.kinds {
		id := k.Group + "/" + k.Kind
		vers[id] = append(vers[id], k.Version)
	}
	dir := projRoot + "/" + p.Dir
	p.S.raw(dir+"/.gitkeep", "\n").Keep = true
	for _, id := range sortedKeys(vers) {
		if r.p(1, 6) {
			continue
		}
		g, k, _ := strings.Cut(id, "/")
		p.manifest(r, dir, g, k, vers[id])
	}
	if r.p(1, 4) {
		p.manifest(r, dir, "unrelated.example.org", "Stranger", []string{"v1"})
	}
	if r.p(1, 4) {
		p.S.raw(dir+"/deployment.yaml", "apiVersion: apps/v1\nkind: Deployment\nmetadata:\n  name: d\n")
	}
	if r.p(1, 6) {
		p.S.raw(dir+"/README.md", "# Notes\n")
	}
	if r.p(1, 8) {
		p.S.raw(dir+"/kustomization.yaml", "resources:\n- a.yaml\n")
	}
	if r.p(1, 8) {
		p.S.raw(dir+"/sub/crd.yaml", "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\n")
	}
}

func (p *Proj) manifest(r *Rand, dir, group, kind string, vs []string) {
	plural := strings.ToLower(kind) + "s"
	var f *GFile
	b := &Node{Fixed: true}
	if p.file != nil && r.p(1, 5) {
		// another document of the same file
		f = p.file
		b = &Node{}
		f.Body.add(b)
		if r.p(1, 3) {
			b.add(line("---\napiVersion: v1\nkind: Namespace\nmetadata:\n  name: between\n"))
		}
		b.add(fixed("---\n"))
	} else {
		name := group + "_" + plural + ".yaml"
		if r.p(1, 4) {
			name = strings.ToLower(kind) + "." + group + ".yaml"
		}
		f = p.S.file(dir + "/" + name)
		f.Body.add(b)
		if r.p(1, 3) {
			b.add(line("# hand-written header of " + kind))
		}
		if r.p(1, 3) {
			b.add(line("---"))
		}
		if r.p(1, 12) {
			b.add(line("apiVersion: v1\nkind: Namespace\nmetadata:\n  name: before # it all\n---"))
		}
	}
	p.file = f
	b.add(&Node{Pre: "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: " + plural + "." + group + "\n", Fixed: true,
		Meta: &Manifest{f.Path, group, kind}})
	labels := r.p(1, 2)
	if labels {
		b.add(line("  labels: # kept by hand\n    team: alpha\n    zone: \"7\""))
	}
	if r.p(1, 2) {
		b.add(line("  annotations:\n    note: |\n      several\n      lines\n    api-approved.kubernetes.io: 'https://example.com/1'"))
	} else if r.p(1, 3) {
		b.add(line("  annotations: {yes: \"on\", 'no': \"0o17\", date: '2020-01-01', \"null\": \"~\", num: \"1e3\", empty: ''}"))
	} else if r.p(1, 3) {
		b.add(line("  annotations:\n    long: >-\n      several words that\n      are folded\n\n      into lines\n    plain: words that go on\n      in another line\n    uni: \"caf\\u00e9 \\x41\"\n    keep: |+\n      trailing\n\n    last: end"))
	} else if !labels && r.p(1, 3) {
		b.add(line("  labels: &labels\n    team: beta\n  annotations: *labels"))
	}
	b.add(fixed("spec:\n"))
	old := "  validation:\n    openAPIV3Schema:\n      type: object # old\n      description: from long ago"
	if r.p(1, 8) {
		b.add(line(old))
		old = ""
	}
	b.add(fixed("  group: " + group + "\n  names:\n    kind: " + kind + "\n    plural: " + plural + "\n"))
	if r.p(1, 2) {
		b.add(line("    listKind: " + kind + "List\n    shortNames: [a, b]"))
	}
	b.add(fixed("  scope: " + pick(r, []string{"Namespaced", "Cluster"}) + "\n"))
	if r.p(1, 4) {
		b.add(line("  conversion:\n    strategy: None"))
	}
	if r.p(1, 4) {
		b.add(line("  # the versions, by hand"))
	}
	b.add(fixed("  versions:\n"))
	all := append([]string{}, vs...)
	if r.p(1, 5) {
		all = append(all, "v0") // no longer in the sources
	}
	all = shuffled(r, all)
	if len(all) > 1 && r.p(1, 4) {
		all = all[1:]
	}
	for i, v := range all {
		n := &Node{Pre: "  - name: " + v + "\n", Fixed: i == 0}
		parts := []*Node{fixed(fmt.Sprintf("    served: true\n    storage: %v\n", i == 0))}
		if r.p(1, 3) {
			parts = append(parts, line("    subresources:\n      status: {}"))
		}
		if r.p(1, 3) {
			parts = append(parts, line("    additionalPrinterColumns:\n    - {name: Age, type: date, jsonPath: .metadata.creationTimestamp} # keep"))
		}
		if r.p(1, 6) {
			parts = append(parts, line("    # on its own\n    deprecated: false"))
		}
		if r.p(2, 3) {
			parts = append(parts, line(pick(r, []string{
				"    schema:\n      openAPIV3Schema:\n        type: object\n        description: stale",
				"    schema:\n      openAPIV3Schema:\n        type: object\n        description: stale",
				"    schema: {openAPIV3Schema: {type: object}}",
				"    schema: {}",
				"    \"schema\":\n        openAPIV3Schema:\n            description: |\n                stale\n            type: object",
			})))
		}
		for j, q := range parts {
			if r.p(1, 2) {
				k := r.n(j + 1)
				parts[j], parts[k] = parts[k], q
			}
		}
		for _, q := range parts {
			n.add(q)
		}
		b.add(n)
	}
	if old != "" && r.p(1, 10) {
		b.add(line(old))
	}
	if r.p(1, 5) {
		b.add(line("status:\n  storedVersions: []"))
	}
}

// gens lists the generators this project has input for.
func (p *Proj) gens() []string {
	var out []string
	if p.API != nil {
		out = append(out, "crd")
		if p.API.cfg.Deepcopy {
			out = append(out, "object")
		}
	}
	if len(p.Ctl) > 0 {
		out = append(out, "rbac", "webhook")
	}
	if p.Dir != "" {
		out = append(out, "schemapatch")
	}
	return out
}

// genArg is the argument for one generator.
func (p *Proj) genArg(r *Rand, gen string) string {
	switch gen {
	case "crd":
		return crdOpts(r, p.API.cfg.Errors > 0)
	case "object":
		if r.p(1, 3) {
			return "object:headerFile=hack/boilerplate.go.txt" + pick(r, []string{"", ",year=2031"})
		}
	case "rbac":
		return "rbac:roleName=manager-role"
	case "webhook":
		if r.p(1, 4) {
			return "webhook:headerFile=hack/boilerplate.yaml.txt" + pick(r, []string{"", ",year=2031"})
		}
	case "schemapatch":
		o := []string{"manifests=" + p.Dir}
		if r.p(1, 4) {
			o = append(o, fmt.Sprintf("maxDescLen=%d", pick(r, []int{0, 20})))
		}
		if r.p(1, 4) {
			o = append(o, "generateEmbeddedObjectMeta=true")
		}
		return opts("schemapatch", shuffled(r, o))
	}
	return gen
}

// outArgs draws output rules for the generators.
func outArgs(r *Rand, gens []string, dir string) []string {
	var out []string
	switch r.n(5) {
	case 0:
		out = append(out, "output:dir=out")
	case 1:
		out = append(out, "output:artifacts:config=cfg,code=gen")
	case 2:
		out = append(out, "output:artifacts:config=cfg")
	case 3:
		out = append(out, "output:stdout")
	}
	for _, g := range gens {
		if r.p(1, 2) {
			out = append(out, "output:"+g+":"+pick(r, []string{"dir=config/" + g, "stdout", "artifacts:config=config/" + g, "dir=" + projRoot + "/abs/" + g, "none"}))
		}
	}
	if dir != "" && strings.Contains(","+strings.Join(gens, ",")+",", ",schemapatch,") && r.p(2, 3) {
		var keep []string
		for _, o := range out {
			if !strings.HasPrefix(o, "output:schemapatch:") {
				keep = append(keep, o)
			}
		}
		out = append(keep, "output:schemapatch:dir="+dir)
	}
	return out
}

// paths draws package patterns that cover the project.
func (p *Proj) paths(r *Rand) []string {
	if r.p(1, 2) {
		return []string{"./..."}
	}
	var out []string
	if p.API != nil {
		out = append(out, p.API.patterns()...)
	}
	if len(p.Ctl) > 0 {
		out = append(out, ctlPatterns(r, p.Ctl)...)
	}
	return shuffled(r, out)
}

// projSpec draws a project and a command line for it.
func randProject(r *Rand, errs int) *Proj {
	cfg := ProjCfg{API: APICfg{Groups: 2, Versions: 2, Errors: errs, Deepcopy: r.p(2, 3), Conflicts: r.p(1, 4)}, Patch: r.p(1, 2)}
	if r.p(1, 4) {
		cfg.API.Mesh = r.in(2, 6)
	}
	switch r.n(6) {
	case 0:
		cfg.NoAPI, cfg.RBAC, cfg.Hooks = true, 4, 2
	case 1, 2:
	default:
		cfg.RBAC, cfg.Hooks = r.n(4), r.n(3)
	}
	return genProject(r, cfg)
}

func sorted(x []string) []string { y := append([]string{}, x...); sort.Strings(y); return y }
