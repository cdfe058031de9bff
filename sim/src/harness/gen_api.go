package main

import (
	"fmt"
	"strings"
)

// APICfg steers the API-project generator.
type APICfg struct {
	Groups    int  // at most
	Versions  int  // at most, per group
	Conflicts bool // markers that contradict each other across versions or within a type
	Errors    int  // mistakes to plant
	Nested    bool // a nested module
	Deepcopy  bool // object:generate markers
	Compiles  bool // only inputs whose generated methods have everything they need
	Apply     bool // applyconfiguration markers
	Big       bool
	Acyclic   bool // no recursive types
	NoSkip    bool // no skipped versions
	Mesh      int  // packages of types that import one another
}

const projRoot = "/work/proj"
const projMod = "example.com/proj"

var stdImports = map[string]string{
	"metav1":       "k8s.io/apimachinery/pkg/apis/meta/v1",
	"corev1":       "k8s.io/api/core/v1",
	"runtime":      "k8s.io/apimachinery/pkg/runtime",
	"resource":     "k8s.io/apimachinery/pkg/api/resource",
	"intstr":       "k8s.io/apimachinery/pkg/util/intstr",
	"types":        "k8s.io/apimachinery/pkg/types",
	"unstructured": "k8s.io/apimachinery/pkg/apis/meta/v1/unstructured",
	"apiext":       "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1",
	"json":         "encoding/json",
	"time":         "time",
	"unsafe":       "unsafe",
}

func modFile(name string) string {
	return "module " + name + "\n\ngo 1.24\n\nrequire (\n\tk8s.io/api v0.0.0\n\tk8s.io/apimachinery v0.0.0\n\tk8s.io/apiextensions-apiserver v0.0.0\n\tsigs.k8s.io/controller-tools v0.0.0\n)\n"
}

type gtype struct {
	name  string
	class string // str int bool arr map obj any
	pkg   *gpkg
}

type gpkg struct {
	dir, path, name, alias string
	group, version         string
	types                  []*gtype
	file                   []*GFile
	depth                  int
	mesh                   bool
	sees                   []*gpkg // version packages it may import
	uses                   []*gpkg // those whose types its types may use
}

type apiGen struct {
	r      *Rand
	cfg    APICfg
	s      *Scenario
	common []*gpkg
	twins  []*gpkg // those of common whose paths end alike
	pkgs   []*gpkg
	errs   int
	kinds  []kindInfo
	cur    *gtype // being generated
	slots  []slot
	dots   bool // shared packages are imported with a dot
	reuse  bool // version packages use one another's types
	funcs  bool // version packages have functions of one another's types
}

// slot is the specification struct of one version of a kind.
type slot struct {
	pkg  *gpkg
	file *GFile
	kind string
	typ  *Node // the kind's own type
	spec *Node
}

// kindInfo is one version of a generated kind.
type kindInfo struct{ Group, Kind, Version string }

// apiScenario generates a project of API types.
func apiScenario(r *Rand, cfg APICfg) (*Scenario, *apiGen) {
	g := &apiGen{r: r, cfg: cfg, s: &Scenario{Name: "api"}, errs: cfg.Errors}
	g.s.raw(projRoot+"/go.mod", modFile(projMod))
	if r.p(2, 3) {
		g.commonPkg("common", r.in(1, 4))
		if r.p(1, 3) {
			g.commonPkg("shared", r.in(1, 3))
		}
	}
	if cfg.Mesh > 0 {
		g.mesh()
	}
	if r.p(1, 4) {
		g.twinPkgs()
	}
	g.dots = len(g.common) > 0 && len(g.twins) == 0 && r.p(1, 6)
	g.reuse, g.funcs = r.p(1, 4), r.p(1, 3)
	ng := r.in(1, max(1, cfg.Groups))
	groups := shuffled(r, []string{"apps.example.com", "batch.example.io", "infra.test.dev"})[:ng]
	flat := r.p(1, 2)
	for gi, grp := range groups {
		nv := r.in(1, max(1, cfg.Versions))
		vers := shuffled(r, []string{"v1", "v1alpha1", "v1beta1", "v2"})[:nv]
		kinds := shuffled(r, []string{"Foo", "Bar", "Gadget", "Widget", "Policy", "Index"})[:r.in(1, 3)]
		var stored = map[string]string{}
		for _, k := range kinds {
			stored[k] = pick(r, vers)
		}
		for _, v := range vers {
			dir := "apis/" + strings.SplitN(grp, ".", 2)[0] + "/" + v
			if flat && ng == 1 {
				dir = "api/" + v
			}
			root, mod := projRoot, projMod
			if cfg.Nested && gi == ng-1 && ng > 1 {
				root, mod = projRoot+"/nested", projMod+"/nested"
				if g.s.has(root+"/go.mod") == nil {
					g.s.raw(root+"/go.mod", modFile(mod))
				}
			}
			p := &gpkg{dir: root + "/" + dir, path: mod + "/" + dir, name: v, group: grp, version: v}
			g.versionPkg(p, kinds, vers, stored, mod != projMod)
		}
	}
	return g.s, g
}

func (s *Scenario) has(p string) *GFile {
	for _, f := range s.Files {
		if f.Path == p {
			return f
		}
	}
	return nil
}

func (g *apiGen) goFile(p *gpkg, name string) *GFile {
	f := g.s.file(p.dir + "/" + name)
	f.Imports = map[string]string{}
	for a, i := range stdImports {
		f.Imports[a] = i
	}
	for _, c := range g.common {
		if c != p && !p.mesh {
			f.Imports[c.alias] = c.path
			if g.dots {
				if f.Dot == nil {
					f.Dot = map[string]bool{}
				}
				f.Dot[c.alias] = true
			}
		}
	}
	for _, q := range p.sees {
		f.Imports[q.alias] = q.path
	}
	p.file = append(p.file, f)
	f.Keep = g.cfg.Compiles && len(p.file) == 1
	return f
}

func (g *apiGen) commonPkg(name string, n int) {
	p := &gpkg{dir: projRoot + "/pkg/" + name, path: projMod + "/pkg/" + name, name: name, alias: name}
	g.sharedPkg(p, n, strings.ToUpper(name[:1])+name[1:])
}

func (g *apiGen) sharedPkg(p *gpkg, n int, prefix string) {
	f := g.goFile(p, "types.go")
	f.Head.add(fixed("// Package " + p.name + " holds shared types.\n"))
	if g.r.p(1, 2) {
		f.Head.add(line("// +kubebuilder:validation:Optional"))
	}
	if g.cfg.Deepcopy && (g.cfg.Compiles || g.r.p(2, 3)) {
		f.Head.add(&Node{Pre: "// +kubebuilder:object:generate=true\n", Fixed: true})
	}
	f.Head.add(fixed("package " + p.name + "\n"))
	g.namedTypes(p, f, n, prefix)
	g.common = append(g.common, p)
}

// twinPkgs adds packages whose import paths end alike, with types of the same
// names.
func (g *apiGen) twinPkgs() {
	r := g.r
	end := pick(r, []string{"infrastructure/v1alpha1", "types", "meta/v1", "core/v1", "api", "controlplane.x/managed-clusters/v1beta1", "very_long_words/in_this_path/v2", "intstr", "json",
		"key", "out", "val", "in", "clone", "x", "make", "default", "string", "inVal", "runtime", "a/c"})
	tops := shuffled(r, []string{"left", "middle", "right", "pkg/left", "pkg", "x/y/left", "l-eft", "l.eft"})
	name := end[strings.LastIndex(end, "/")+1:]
	if name == "default" {
		name = "defaults"
	}
	if r.p(1, 6) {
		name = "p" + name
	}
	n := r.in(1, 4)
	for i := 0; i < n; i++ {
		d := "/" + tops[i] + "/" + end
		p := &gpkg{dir: projRoot + d, path: projMod + d, name: name, alias: fmt.Sprintf("twin%d", i)}
		g.sharedPkg(p, r.in(1, 3), "W")
		g.twins = append(g.twins, p)
	}
}

// twinUses adds a type that uses all of them, in shapes that need their names.
func (g *apiGen) twinUses(p *gpkg, f *GFile) {
	r := g.r
	if len(g.common) == 0 || len(g.twins) == 0 {
		return
	}
	n := &Node{}
	n.add(fixed("type TwinUser struct {\n"))
	for i, q := range g.twins {
		for k := 0; k < r.in(1, 3); k++ {
			sh := pick(r, []string{"[]%s", "*%s", "map[string]%s", "map[string][]%s", "[][]%s", "map[string]*%s", "[]*%s", "*[]%s"})
			n.add(linef("\tF%d%d %s `json:\"f%d%d,omitempty\"`", i, k, fmt.Sprintf(sh, qual(p, pick(r, q.types))), i, k))
		}
	}
	n.Post = "}\n\n"
	f.Body.add(n)
	if d := g.twins[0].dir; r.p(1, 5) {
		// something here has the name that a package would get
		if w := d[strings.LastIndex(d, "/")+1:]; w != "default" && w != "in" && w != "make" && w != "string" && stdImports[w] == "" {
			f.Body.add(linef(pick(r, []string{"const %s = 1\n", "var %s int\n", "type %s struct{}\n", "func %s() {}\n"}), w))
		}
	}
	p.types = append(p.types, &gtype{name: "TwinUser", class: "obj", pkg: p})
}

// mesh adds packages that import one another, for types or for functions only.
func (g *apiGen) mesh() {
	r := g.r
	var ps []*gpkg
	for i := 0; i < g.cfg.Mesh; i++ {
		name := fmt.Sprintf("lib%d", i)
		if r.p(1, 2) {
			name = fmt.Sprintf("lib%c", 'z'-i)
		}
		p := &gpkg{dir: projRoot + "/lib/" + name, path: projMod + "/lib/" + name, name: name, alias: name, mesh: true}
		for _, q := range ps {
			switch r.n(4) {
			case 0:
				p.sees, p.uses = append(p.sees, q), append(p.uses, q)
			case 1, 2:
				p.sees = append(p.sees, q)
			}
		}
		f := g.goFile(p, "types.go")
		if g.cfg.Deepcopy && (g.cfg.Compiles || r.p(2, 3)) {
			f.Head.add(&Node{Pre: "// +kubebuilder:object:generate=true\n", Fixed: true})
		}
		f.Head.add(fixed("package " + name + "\n"))
		g.namedTypes(p, f, r.in(1, 3), strings.ToUpper(name[:1])+name[1:])
		if len(p.sees) > 0 {
			g.helpers(p)
		}
		ps = append(ps, p)
	}
	g.common = append(g.common, ps...)
}

// namedTypes adds n helper types to p.
func (g *apiGen) namedTypes(p *gpkg, f *GFile, n int, prefix string) {
	r := g.r
	// reserve names so that types can refer to later ones
	start := len(p.types)
	for i := 0; i < n; i++ {
		c := pick(r, []string{"obj", "obj", "obj", "str", "int", "arr", "map", "enum"})
		t := &gtype{name: fmt.Sprintf("%s%s%d", prefix, strings.ToUpper(c[:1])+c[1:], i), class: c, pkg: p}
		if c == "enum" {
			t.class = "str"
		}
		if i > 0 && !g.cfg.Apply && r.p(1, 10) {
			// only differs in case from another name (apply configurations
			// for such would go to the same file)
			o := p.types[len(p.types)-1].name
			if l := len(prefix); l < len(o) && o[l] >= 'A' && o[l] <= 'Z' {
				t.name = o[:l] + strings.ToLower(o[l:l+1]) + o[l+1:]
			}
		}
		p.types = append(p.types, t)
	}
	defer func() { g.cur = nil }()
	for _, t := range p.types[start:] {
		g.cur = t
		n := &Node{}
		switch {
		case t.class == "obj":
			if r.p(1, 4) {
				n.add(linef("// %s is a helper.", t.name))
			}
			g.typeMarkers(n, "obj")
			n.add(fixed("type " + t.name + " struct {\n"))
			g.fields(p, n, r.in(1, 4), t)
			n.Post = "}\n\n"
			g.methods(n, t, "*")
		case t.class == "str" && strings.Contains(strings.ToLower(t.name), "enum"):
			n.add(line("// +kubebuilder:validation:Enum=Alpha;Beta;Gamma"))
			g.typeMarkers(n, "str")
			n.add(fixed("type " + t.name + " string\n\n"))
		case t.class == "str":
			g.typeMarkers(n, "str")
			n.add(fixed("type " + t.name + " string\n\n"))
		case t.class == "int":
			g.typeMarkers(n, "int")
			n.add(fixed("type " + t.name + " int32\n\n"))
		case t.class == "arr":
			g.typeMarkers(n, "refarr")
			n.add(fixed("type " + t.name + " []" + g.elem(p) + "\n\n"))
			g.methods(n, t, "")
		case t.class == "map":
			g.typeMarkers(n, "map")
			n.add(fixed("type " + t.name + " map[string]" + g.elem(p) + "\n\n"))
			g.methods(n, t, "")
		}
		f.Body.add(n)
	}
	g.aliases(p, f, start)
}

// aliases adds other names for types.
func (g *apiGen) aliases(p *gpkg, f *GFile, start int) {
	r := g.r
	if r.p(1, 4) && len(p.types) > start {
		t := p.types[start+r.n(len(p.types)-start)]
		f.Body.add(linef("type %sAlias = %s\n", t.name, t.name))
		if !g.cfg.Apply {
			p.types = append(p.types, &gtype{name: t.name + "Alias", class: t.class, pkg: p})
		}
	}
	if r.p(1, 6) && !g.cfg.Apply {
		for i, a := range shuffled(r, [][3]string{
			{"Protocol", "str", "corev1.Protocol"}, {"Text", "str", "string"}, {"Count", "int", "int32"},
			{"Texts", "arr", "[]string"}, {"Words", "map", "map[string]string"}, {"Lists", "map", "map[string][]string"},
			{"Span", "str", "metav1.Duration"}, {"Ref", "obj", "corev1.LocalObjectReference"}, {"Yes", "str", "bool"},
		})[:r.in(1, 2)] {
			t := &gtype{name: fmt.Sprintf("Other%s%s%d", a[0], strings.ToUpper(p.name[:1])+p.name[1:], i), class: a[1], pkg: p}
			f.Body.add(linef("type %s = %s\n", t.name, a[2]))
			p.types = append(p.types, t)
		}
	}
}

// methods gives t hand-written deep copies.
func (g *apiGen) methods(n *Node, t *gtype, ptr string) {
	if !g.cfg.Deepcopy || !g.r.p(1, 8) {
		return
	}
	w := g.r.n(3)
	if g.r.p(1, 4) {
		ptr = ""
	}
	if w != 0 || ptr == "" {
		n.Post += fmt.Sprintf("func (in %[1]s%[2]s) DeepCopy() %[1]s%[2]s { return in }\n\n", ptr, t.name)
	}
	if w != 1 && ptr != "" {
		n.Post += fmt.Sprintf("func (in *%[1]s) DeepCopyInto(out *%[1]s) { *out = *in }\n\n", t.name)
	}
}

// ownCopy gives a kind hand-written deep copies.
func (g *apiGen) ownCopy(n *Node, kind string) {
	w := g.r.n(3)
	ptr, ref := "*", "*"
	if g.r.p(1, 3) {
		ptr, ref = "", "" // copies by value
	}
	if w != 0 {
		n.Post += fmt.Sprintf("func (in %[2]s%[1]s) DeepCopy() %[3]s%[1]s { return in }\n\n", kind, ptr, ref)
	}
	if w != 1 {
		n.Post += fmt.Sprintf("func (in *%[1]s) DeepCopyInto(out *%[1]s) { *out = *in }\n\n", kind)
	}
	if g.r.p(1, 4) {
		n.Post += fmt.Sprintf("func (in *%s) DeepCopyObject() runtime.Object { return nil }\n\n", kind)
	}
}

func (g *apiGen) elem(p *gpkg) string {
	r := g.r
	if r.p(1, 2) {
		if t := g.ref(p); t != nil && (t.class != "arr" && t.class != "map" || r.p(1, 4)) {
			q := qual(p, t)
			if r.p(1, 5) {
				q = pick(r, []string{"[]", "*", "[]*", "map[string]"}) + q
			}
			return q
		}
	}
	return pick(r, []string{"string", "int64", "bool", "metav1.Duration", "resource.Quantity", "intstr.IntOrString", "[]string"})
}

func qual(p *gpkg, t *gtype) string {
	if t.pkg == p {
		return t.name
	}
	return t.pkg.alias + "." + t.name
}

// ref picks a named type visible from p.
func (g *apiGen) ref(p *gpkg) *gtype {
	var c []*gtype
	for _, t := range p.types {
		if !g.cfg.Acyclic || g.cur == nil || after(p, g.cur, t) {
			c = append(c, t)
		}
	}
	for _, q := range g.common {
		if q != p && !p.mesh {
			c = append(c, q.types...)
		}
	}
	for _, q := range p.uses {
		c = append(c, q.types...)
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.r.n(len(c))]
}

var fieldNames = []string{"name", "replicas", "paused", "template", "selector", "labels", "items", "mode", "limits", "owner", "port", "weight", "config", "schedule", "strategy", "history", "ref", "size", "tier", "zone"}

func (g *apiGen) fields(p *gpkg, n *Node, k int, self *gtype) {
	r := g.r
	names := shuffled(r, fieldNames)
	for i := 0; i < k && i < len(names); i++ {
		n.add(g.field(p, names[i], self))
	}
	if r.p(1, 8) {
		if t := g.ref(p); t != nil && t.class == "obj" && t != self && (self == nil || t.pkg != self.pkg || r.p(1, 3) && after(p, self, t)) {
			n.add(linef("\t%s `json:\",inline\"`", qual(p, t)))
		}
	}
	if r.p(1, 10) {
		n.add(line("\tinternal string `json:\"-\"`"))
	}
}

// after reports whether t is declared after self, so that value embedding
// cannot make a cycle.
func after(p *gpkg, self, t *gtype) bool {
	a, b := -1, -1
	for i, x := range p.types {
		if x == self {
			a = i
		}
		if x == t {
			b = i
		}
	}
	return a >= 0 && b > a
}

func (g *apiGen) field(p *gpkg, name string, self *gtype) *Node {
	r := g.r
	typ, class := "string", "str"
	switch r.n(16) {
	case 0, 1:
	case 2:
		typ, class = pick(r, []string{"int32", "int64", "int", "uint32"}), "int"
	case 3:
		typ, class = "bool", "bool"
	case 4:
		typ, class = "*string", "str"
	case 5:
		typ, class = "[]string", "arr"
	case 6:
		typ, class = "map[string]string", "map"
	case 7:
		typ, class = pick(r, []string{"metav1.Time", "metav1.Duration", "*metav1.Time", "resource.Quantity", "intstr.IntOrString", "*intstr.IntOrString", "metav1.LabelSelector", "runtime.RawExtension", "apiext.JSON", "json.RawMessage", "types.UID", "unstructured.Unstructured"}), "any"
	case 8:
		typ, class = pick(r, []string{"corev1.LocalObjectReference", "corev1.ResourceList", "[]corev1.Container", "corev1.PodTemplateSpec", "corev1.Protocol", "metav1.Condition", "[]metav1.Condition"}), "any"
	case 9:
		typ, class = "[]int32", "refarr"
	default:
		t := g.ref(p)
		if t == nil {
			break
		}
		q := qual(p, t)
		switch {
		case r.p(1, 6):
			typ = pick(r, []string{"[][]%s", "map[string][]%s", "[]*%s", "map[string]*%s", "[]map[string]%s", "map[string]map[string]%s", "*[]%s", "*map[string]%s", "map[string][][]%s"})
			class = map[bool]string{true: "map", false: "refarr"}[strings.Contains(typ[:2], "m")]
			if r.p(1, 4) {
				q = pick(r, []string{"metav1.Time", "resource.Quantity", "intstr.IntOrString", "json.RawMessage", "apiext.JSON", "runtime.RawExtension", "corev1.ResourceList", "corev1.Protocol"})
			}
			typ = fmt.Sprintf(typ, q)
		case t.class == "obj":
			class = "ref"
			val := t.pkg != p || self != nil && after(p, self, t)
			if self == nil && t.pkg == p {
				val = true
			}
			switch r.n(4) {
			case 0:
				typ, class = "[]"+q, "refarr"
			case 1:
				typ, class = "map[string]"+q, "map"
			case 2:
				if val {
					typ = q
				} else {
					typ = "*" + q
				}
			default:
				typ = "*" + q
			}
		default:
			typ, class = q, "ref"
			if t.pkg == p && self != nil && (t.class == "arr" || t.class == "map") && r.p(1, 2) {
				typ = "*" + q
			}
			if r.p(1, 5) {
				typ, class = "[]"+q, "refarr"
			}
		}
	}
	if g.errs > 0 && r.p(1, 6) {
		g.errs--
		switch r.n(5) {
		case 0:
			typ, class = "float64", "any"
		case 1:
			typ, class = "chan int", "any"
		case 2:
			typ, class = "map[int]string", "any"
		case 3:
			typ, class = "Missing"+strings.ToUpper(name[:1]), "any"
		case 4:
			typ, class = "func()", "any"
		}
	}
	n := &Node{}
	if r.p(1, 3) {
		n.add(linef("\t// %s", pick(r, []string{
			"The " + name + " of the thing.",
			"A long description that goes on and on. It has a second sentence, and `code`.\n\t// And a second line.",
			name + " is required; see https://example.com/docs for details.",
			"TODO(someone): remove " + name + ".\n\t//\n\t// A paragraph after the note.",
		})))
	}
	opt := ",omitempty"
	if r.p(1, 3) {
		opt = ""
	}
	for _, m := range g.fieldMarkers(class) {
		n.add(line("\t// " + m))
	}
	if g.errs > 0 && r.p(1, 5) {
		g.errs--
		n.add(line("\t// " + pick(r, []string{
			"+kubebuilder:validation:Maximum=abc",
			"+kubebuilder:validation:MaxLength=\"x",
			"+kubebuilder:validation:XValidation:message=\"no rule\"",
			"+kubebuilder:default={a: b",
			"+kubebuilder:validation:MinItems=3\n\t// +kubebuilder:validation:MinLength=4\n\t// +kubebuilder:validation:MinProperties=4\n\t// +kubebuilder:validation:Pattern=`a`\n\t// +kubebuilder:validation:UniqueItems=true",
			"+listType=bogus\n\t// +mapType=bogus\n\t// +structType=bogus",
		})))
	}
	tag := "`json:\"" + name + opt + "\"`"
	if r.p(1, 25) {
		tag = "`json:\"-\"`"
	}
	if g.errs > 0 && r.p(1, 8) {
		g.errs--
		tag = ""
	}
	n.Post = "\t" + strings.ToUpper(name[:1]) + name[1:] + " " + typ + " " + tag + "\n"
	return n
}

func (g *apiGen) fieldMarkers(class string) []string {
	r := g.r
	var out []string
	opt := []string{"+optional", "+kubebuilder:validation:Optional", "+required", "+kubebuilder:validation:Required", "+k8s:optional", "+k8s:required"}
	if r.p(1, 3) {
		out = append(out, pick(r, opt))
		if g.cfg.Conflicts && r.p(1, 3) {
			out = append(out, pick(r, opt))
		}
	}
	if r.p(1, 10) {
		out = append(out, "+nullable")
	}
	if r.p(1, 8) {
		out = append(out, "+kubebuilder:title=\"A title\"")
	}
	k := r.n(3)
	if r.p(1, 6) {
		k = r.in(3, 6)
	}
	for i := 0; i < k; i++ {
		out = append(out, g.valMarker(class, false))
	}
	if r.p(1, 6) {
		switch class {
		case "str":
			out = append(out, pick(r, []string{"+kubebuilder:default=\"x\"", "+default=\"y\"", "+kubebuilder:default:=z"}))
			if g.cfg.Conflicts && r.p(1, 2) {
				out = append(out, "+default=\"other\"")
			}
		case "int":
			out = append(out, pick(r, []string{"+kubebuilder:default=3", "+default=4"}))
			if g.cfg.Conflicts && r.p(1, 2) {
				out = append(out, "+default=7")
			}
		case "bool":
			out = append(out, "+kubebuilder:default=true")
		case "arr":
			out = append(out, "+kubebuilder:default={}")
		}
	}
	if r.p(1, 10) {
		out = append(out, "+kubebuilder:example=\"ex\"")
	}
	if r.p(1, 12) {
		for i, k := 0, r.in(2, 14); i < k; i++ {
			out = append(out, fmt.Sprintf("+kubebuilder:validation:XValidation:rule=\"self.size() > %d\",message=\"m%d\"", i, i))
		}
	}
	if r.p(1, 20) {
		out = append(out, "+kubebuilder:pruning:PreserveUnknownFields")
	}
	if r.p(1, 30) {
		out = []string{"+kubebuilder:validation:Schemaless"}
	}
	return shuffled(r, out)
}

func (g *apiGen) valMarker(class string, typ bool) string {
	r := g.r
	v := func(s string) string { return "+kubebuilder:validation:" + s }
	if g.cfg.Errors > 0 && g.errs > 0 && r.p(1, 6) {
		g.errs--
		class = pick(r, []string{"str", "int", "arr", "map", "obj", "bad"})
	}
	switch class {
	case "bad":
		return pick(r, []string{v("Type=string"), v("Type=object"), v("EmbeddedResource"), v("XIntOrString"), v("Type=integer"), v("Type=boolean")})
	case "ref":
		return pick(r, []string{v("XValidation:rule=\"self != null\""), v("XPreserveUnknownFields"), v("Enum=a;b"), v("Format=date"), v("Enum=b;c"), v("XValidation:rule=\"true\",message=\"m\"")})
	case "refarr":
		return pick(r, []string{v("MinItems=1"), v("MaxItems=10"), v("MaxItems=3"), v("UniqueItems=false"), "+listType=atomic", "+listType=set", v("MinItems=2"), v("XValidation:rule=\"self.size() < 5\"")})
	case "str":
		return pick(r, []string{v("MinLength=1"), v("MaxLength=63"), v("MaxLength=30"), v("Pattern=`^[a-z]+$`"), v("Pattern=`^.{1,3}$`"), v("Format=date-time"), v("Enum=a;b;c"), v("Enum={x,y}"), v("MinLength=2"), v("XValidation:rule=\"self != ''\"")})
	case "int":
		return pick(r, []string{v("Minimum=1"), v("Maximum=100"), v("Minimum=5"), v("MultipleOf=2"), v("ExclusiveMaximum=true"), v("ExclusiveMinimum=false"), v("Enum=1;2;3"), v("Maximum=50"), v("Format=int32")})
	case "arr":
		return pick(r, []string{v("MinItems=1"), v("MaxItems=10"), v("MaxItems=3"), v("UniqueItems=false"), "+listType=atomic", "+listType=set", v("items:MinLength=1"), v("items:Pattern=`^x`"), v("items:MaxLength=9"), v("MinItems=2"), v("items:Enum=p;q"), v("XValidation:rule=\"self.size() < 5\"")})
	case "map":
		return pick(r, []string{v("MinProperties=1"), v("MaxProperties=5"), "+mapType=atomic", "+mapType=granular", v("XValidation:rule=\"true\"")})
	case "obj":
		return pick(r, []string{v("XValidation:rule=\"has(self.name)\""), "+structType=atomic", v("XPreserveUnknownFields"), v("MinProperties=1"), v("XValidation:rule=\"1 == 1\",message=\"always\"")})
	case "bool":
		return pick(r, []string{v("Enum=true"), v("XValidation:rule=\"self\"")})
	}
	if typ {
		return v("XPreserveUnknownFields")
	}
	return pick(r, []string{v("XPreserveUnknownFields"), v("XValidation:rule=\"1 < 2\"")})
}

func (g *apiGen) typeMarkers(n *Node, class string) {
	r := g.r
	k := r.n(3)
	if r.p(1, 2) {
		k = 0
	}
	for i := 0; i < k; i++ {
		n.add(line("// " + g.valMarker(class, true)))
	}
	if class == "obj" && g.cfg.Deepcopy && !g.cfg.Compiles && r.p(1, 8) {
		n.add(line("// +kubebuilder:object:generate=" + pick(r, []string{"true", "false"})))
	}
}

func (g *apiGen) versionPkg(p *gpkg, kinds, vers []string, stored map[string]string, nested bool) {
	r, cfg := g.r, g.cfg
	p.alias = strings.SplitN(p.group, ".", 2)[0] + p.version
	if !nested {
		for _, q := range g.pkgs {
			if r.p(2, 3) {
				p.sees = append(p.sees, q)
				if g.reuse {
					p.uses = append(p.uses, q)
				}
			}
		}
	}
	g.pkgs = append(g.pkgs, p)
	common := g.common
	if nested {
		g.common = nil
		defer func() { g.common = common }()
	}
	f := g.goFile(p, "groupversion_info.go")
	f.Head.add(fixed(fmt.Sprintf("// Package %s is an API package.\n", p.name)))
	if cfg.Deepcopy {
		f.Head.add(&Node{Pre: "// +kubebuilder:object:generate=true\n", Fixed: true})
	}
	if cfg.Apply {
		f.Head.add(line("// +kubebuilder:ac:generate=true"))
		if r.p(1, 3) {
			f.Head.add(line("// +kubebuilder:ac:output:package=\"" + pick(r, []string{"acs", "applyconfiguration"}) + "\""))
		}
	}
	if r.p(1, 4) {
		f.Head.add(line("// +kubebuilder:validation:Optional"))
	}
	if r.p(1, 12) {
		f.Head.add(line("// +versionName=" + p.version))
	}
	f.Head.add(&Node{Pre: "// +groupName=" + p.group + "\n", Fixed: true})
	f.Head.add(fixed("package " + p.name + "\n"))
	nf := r.in(1, 2)
	var files []*GFile
	for i := 0; i < nf; i++ {
		t := g.goFile(p, []string{"types.go", "extra_types.go"}[i])
		t.Head.add(fixed("package " + p.name + "\n"))
		files = append(files, t)
	}
	k := r.in(1, 5)
	if cfg.Big {
		k = r.in(5, 10)
	}
	g.namedTypes(p, files[len(files)-1], k, "T")
	g.twinUses(p, files[0])
	present := 0
	for i, kind := range kinds {
		if present > 0 && r.p(1, 5) && stored[kind] != p.version {
			continue
		}
		present++
		g.kinds = append(g.kinds, kindInfo{p.group, kind, p.version})
		file := files[i%len(files)]
		n := &Node{}
		n.add(line("// " + kind + " is a kind."))
		for _, m := range g.kindMarkers(kind, p, stored, len(vers)) {
			n.add(line("// " + m))
		}
		if cfg.Apply && r.p(3, 4) {
			n.add(line("// +genclient"))
		}
		if cfg.Deepcopy {
			n.add(&Node{Pre: "// +kubebuilder:object:root=true\n", Meta: &RootType{p.path, kind}})
		}
		n.add(fixed("type " + kind + " struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\n"))
		n.add(linef("\tSpec %sSpec `json:\"spec,omitempty\"`", kind))
		if r.p(2, 3) {
			n.add(linef("\tStatus %sStatus `json:\"status,omitempty\"`", kind))
		}
		n.Post = "}\n\n"
		if cfg.Deepcopy && r.p(1, 12) {
			g.ownCopy(n, kind)
		}
		file.Body.add(n)
		sp := &Node{}
		g.typeMarkers(sp, "obj")
		sp.add(fixed("type " + kind + "Spec struct {\n"))
		g.fields(p, sp, r.in(1, 5), nil)
		sp.Post = "}\n\n"
		file.Body.add(sp)
		g.slots = append(g.slots, slot{p, file, kind, n, sp})
		st := &Node{}
		st.add(fixed("type " + kind + "Status struct {\n"))
		g.fields(p, st, r.in(1, 3), nil)
		st.Post = "}\n\n"
		file.Body.add(st)
		l := &Node{}
		if cfg.Deepcopy {
			l.add(&Node{Pre: "// +kubebuilder:object:root=true\n", Meta: &RootType{p.path, kind + "List"}})
		}
		l.add(fixed(fmt.Sprintf("type %sList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n\tItems []%s `json:\"items\"`\n}\n\n", kind, kind)))
		file.Body.add(l)
	}
	if g.funcs && r.p(2, 3) {
		g.helpers(p)
	}
	if g.errs > 0 && r.p(1, 6) {
		g.errs--
		file := pick(r, files)
		switch r.n(4) {
		case 0:
			file.Body.add(line("type Broken struct {"))
		case 1:
			file.Body.add(line("var undefinedUse = notDeclaredAnywhere"))
		case 2:
			file.Imports["bogus"] = "example.com/does/not/exist"
			file.Body.add(line("var _ bogus.Thing"))
		case 3:
			file.Body.add(line("type TDup struct{}\n\ntype TDup struct{}"))
		}
	}
}

// helpers adds declarations that are not of types, and use types of other
// packages: conversions, constants, interfaces, registration.
func (g *apiGen) helpers(p *gpkg) {
	r := g.r
	f := g.goFile(p, pick(r, []string{"conversion.go", "a_helpers.go", "zz_helpers.go"}))
	f.Head.add(fixed("package " + p.name + "\n"))
	f.Keep = false
	var ts []string
	qs := append([]*gpkg{p}, p.sees...)
	if !p.mesh {
		qs = append(qs, g.common...)
	}
	for _, q := range qs {
		for _, t := range q.types {
			if q != p || r.p(1, 3) {
				ts = append(ts, qual(p, t))
			}
		}
	}
	ts = append(ts, "metav1.Time", "corev1.PodSpec", "json.RawMessage")
	for i, n := 0, r.in(1, 4); i < n; i++ {
		t := pick(r, ts)
		f.Body.add(linef(pick(r, []string{
			"func convert%[1]d(in *%[2]s) (out *%[2]s) { return in }\n",
			"var helper%[1]d func(%[2]s) error\n",
			"type helper%[1]d interface {\n\tDo(%[2]s) error\n}\n",
			"type helperFunc%[1]d func(*%[2]s) bool\n",
			"var _ = map[string]*%[2]s{}\n",
			"// +kubebuilder:object:generate=false\ntype helperStruct%[1]d struct {\n\tat *%[2]s\n\tby []%[2]s\n}\n",
			"func _() {\n\tvar x%[1]d %[2]s\n\t_ = x%[1]d\n}\n",
		}), i, t))
	}
}

func (g *apiGen) kindMarkers(kind string, p *gpkg, stored map[string]string, nver int) []string {
	r := g.r
	var out []string
	if nver > 1 && stored[kind] == p.version {
		out = append(out, "+kubebuilder:storageversion")
	}
	if g.errs > 0 && nver > 1 && r.p(1, 5) {
		g.errs--
		out = nil
	}
	if r.p(1, 3) {
		out = append(out, "+kubebuilder:subresource:status")
	}
	if r.p(1, 6) {
		out = append(out, "+kubebuilder:subresource:scale:specpath=.spec.replicas,statuspath=.status.replicas")
	}
	for i, k := 0, r.n(4); i < k; i++ {
		out = append(out, fmt.Sprintf("+kubebuilder:printcolumn:name=\"Col%d\",type=string,JSONPath=`.spec.c%d`", i, i))
	}
	if r.p(1, 6) {
		out = append(out, "+kubebuilder:deprecatedversion")
	}
	if r.p(1, 10) && nver > 1 {
		out = append(out, "+kubebuilder:unservedversion")
	}
	if !g.cfg.NoSkip && r.p(1, 12) && nver > 1 && stored[kind] != p.version {
		out = append(out, "+kubebuilder:skipversion")
	}
	if r.p(1, 8) {
		out = append(out, "+kubebuilder:selectablefield:JSONPath=`.spec.name`")
	}
	same := !g.cfg.Conflicts
	h := kindHash(kind)
	if same {
		if h%3 == 0 {
			out = append(out, "+kubebuilder:resource:scope=Cluster,shortName=sn")
		}
		if h%4 == 0 {
			out = append(out, "+kubebuilder:metadata:labels={\"a=b\",\"c=d\"},annotations={\"x=y\"}")
		}
	} else {
		if r.p(1, 2) {
			out = append(out, pick(r, []string{
				"+kubebuilder:resource:scope=Cluster",
				"+kubebuilder:resource:scope=Namespaced,shortName=" + p.version,
				"+kubebuilder:resource:path=others,categories=all;" + p.version,
				"+kubebuilder:resource:singular=one" + p.version,
			}))
		}
		if r.p(1, 2) {
			out = append(out, pick(r, []string{
				"+kubebuilder:metadata:labels={\"a=" + p.version + "\"}",
				"+kubebuilder:metadata:annotations={\"k=" + p.version + "\",\"l=m\"}",
			}))
		}
		if r.p(1, 5) {
			out = append(out, "+kubebuilder:storageversion")
		}
	}
	return shuffled(r, out)
}

func kindHash(s string) int {
	h := 0
	for _, c := range s {
		h = h*31 + int(c)
	}
	return h
}

// patterns returns package patterns that cover the project.
func (g *apiGen) patterns() []string {
	r := g.r
	dirs := g.dirs()
	switch r.n(4) {
	case 0:
		out := shuffled(r, dirs)
		if r.p(1, 3) {
			out = append(out, out[0])
		}
		return out
	case 1:
		top := map[string]bool{}
		var out []string
		for _, d := range dirs {
			t := "./" + strings.SplitN(strings.TrimPrefix(d, "./"), "/", 2)[0] + "/..."
			if !top[t] {
				top[t] = true
				out = append(out, t)
			}
		}
		return out
	}
	return []string{"./..."}
}

// dirs lists the version packages, as patterns.
func (g *apiGen) dirs() []string {
	var dirs []string
	for _, p := range g.pkgs {
		dirs = append(dirs, "./"+strings.TrimPrefix(p.dir, projRoot+"/"))
	}
	return dirs
}
