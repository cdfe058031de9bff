package main

import (
	"encoding/json"
	"fmt"
	"io"
	"path"
	"reflect"
	"strings"

	yaml3 "gopkg.in/yaml.v3"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/yaml"
)

// crdSchemas reads the schema of every version of every CRD in a YAML stream.
func crdSchemas(stream string) (map[string]any, error) {
	out := map[string]any{}
	for _, d := range yamlDocs(stream) {
		var c apiext.CustomResourceDefinition
		if err := yaml.Unmarshal([]byte(d), &c); err != nil {
			return nil, err
		}
		if c.Kind != "CustomResourceDefinition" {
			continue
		}
		for _, v := range c.Spec.Versions {
			var s any
			if v.Schema != nil {
				b, _ := json.Marshal(v.Schema.OpenAPIV3Schema)
				json.Unmarshal(b, &s)
			}
			out[c.Spec.Group+"/"+c.Spec.Names.Kind+"/"+v.Name] = s
		}
	}
	return out, nil
}

// outside returns what a manifest says apart from its schemata, with the order
// of keys, and its comments.
func outside(text string) (any, []string, error) {
	var comments []string
	var conv func(n *yaml3.Node, at string) any
	conv = func(n *yaml3.Node, at string) any {
		for _, c := range []string{n.HeadComment, n.LineComment, n.FootComment} {
			for _, l := range strings.Split(c, "\n") {
				if l = strings.TrimSpace(l); l != "" {
					comments = append(comments, l)
				}
			}
		}
		switch n.Kind {
		case yaml3.DocumentNode:
			var out []any
			for _, k := range n.Content {
				out = append(out, conv(k, at))
			}
			return out
		case yaml3.MappingNode:
			var out []any
			for i := 0; i+1 < len(n.Content); i += 2 {
				k := n.Content[i].Value
				if at == "/spec/versions/-" && k == "schema" || at == "/spec" && k == "validation" {
					continue
				}
				conv(n.Content[i], at)
				out = append(out, k, conv(n.Content[i+1], at+"/"+k))
			}
			return out
		case yaml3.SequenceNode:
			out := []any{"seq"}
			for _, k := range n.Content {
				out = append(out, conv(k, at+"/-"))
			}
			return out
		}
		return n.ShortTag() + " " + n.Value + " " + n.Anchor
	}
	var v []any
	for dec := yaml3.NewDecoder(strings.NewReader(text)); ; {
		var doc yaml3.Node
		if err := dec.Decode(&doc); err == io.EOF {
			return v, comments, nil
		} else if err != nil {
			return nil, nil, err
		}
		if d := conv(&doc, ""); len(doc.Content) > 0 && doc.Content[0].ShortTag() != "!!null" {
			v = append(v, d)
		}
	}
}

func init() {
	// Runs[0] patches, Runs[1] generates CRDs from the same sources, the rest
	// patch again under other conditions.
	oracles["patch"] = func(c *Case) *Finding {
		a := c.run(0)
		for i := 2; i < len(c.Runs); i++ {
			if f := diffObs(a, c.run(i), a.Res.OK()); f != nil {
				return f
			}
		}
		b := c.run(1)
		if !b.Res.OK() {
			return nil
		}
		if !a.Res.OK() {
			return violation("valid input rejected", a.Res.Status(), a.Res.Stderr)
		}
		want, err := crdSchemas(b.Res.Stdout)
		if err != nil {
			return violation("unreadable CRD", err.Error())
		}
		if len(want) == 0 {
			return nil
		}
		var ms []*Manifest
		json.Unmarshal(c.Model, &ms)
		mine := map[string]bool{}
		for _, m := range ms {
			old := c.Files[m.File]
			out := path.Join(c.Params["out"], path.Base(m.File))
			mine[out] = true
			text, ok := a.Files[out]
			if !ok {
				return violation("manifest not written", out)
			}
			o1, c1, err := outside(old)
			if err != nil {
				panic(err)
			}
			o2, c2, err := outside(text)
			if err != nil {
				return violation("unreadable manifest", out, err.Error())
			}
			if !reflect.DeepEqual(o1, o2) {
				return violation("patching changed more than schemata", out, "before: "+old, "after: "+text)
			}
			have := map[string]int{}
			for _, x := range c2 {
				have[x]++
			}
			for _, x := range c1 {
				if have[x]--; have[x] < 0 {
					return violation("patching lost a comment", out, x)
				}
			}
			if c.Params["schemas"] == "" {
				continue // recursive types flatten differently with other roots
			}
			got, err := crdSchemas(text)
			if err != nil {
				return violation("unreadable manifest", out, err.Error())
			}
			before, _ := crdSchemas(old)
			touched := map[string]bool{}
			for _, v := range sortedKeys(got) {
				if _, known := want[v]; known {
					touched[path.Dir(v)] = true
				}
			}
			for _, v := range sortedKeys(got) {
				w, known := want[v]
				if !touched[path.Dir(v)] {
					w = before[v] // a kind the sources do not have is left alone
				} else if !known {
					w = nil // a version the sources do not have loses its schema
				}
				if !reflect.DeepEqual(got[v], w) {
					x, _ := yaml.Marshal(w)
					y, _ := yaml.Marshal(got[v])
					return violation("patched schema differs from the generated one", v+" in "+out, diffText(string(x), string(y)))
				}
			}
		}
		for _, p := range sortedKeys(a.Files) {
			if old, ok := c.Files[p]; !mine[p] && (!ok || old != a.Files[p]) {
				return violation("patching wrote another file", p)
			}
		}
		return nil
	}

	register(&Campaign{Prop: "C06", Quick: 1350, Thorough: 30000, Real: realCode, Stub: stubCode,
		Rule: "a case is a generated API project with hand-written CRD manifests (comments, labels, versions the sources do not have, foreign kinds, other files), patched in place or elsewhere in a reference execution, compared with the schemata the CRD generator makes of the same sources, and patched again under other map orders, schedules, read sizes, clocks and environments; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			acyclic := r.p(3, 4)
			p := genProject(r, ProjCfg{API: APICfg{Groups: 2, Versions: 3, NoSkip: true, Acyclic: acyclic, Nested: r.p(1, 8), Deepcopy: r.p(1, 4)}, Patch: true})
			s := p.S
			var so, co []string
			if r.p(1, 3) {
				x := fmt.Sprintf("maxDescLen=%d", pick(r, []int{0, 20, 60}))
				so, co = append(so, x), append(co, x)
			}
			if r.p(1, 3) {
				so, co = append(so, "generateEmbeddedObjectMeta=true"), append(co, "generateEmbeddedObjectMeta=true")
			}
			out := pick(r, []string{p.Dir, p.Dir, "out", "config/crd/patched"})
			pats := pathArgs(p.API.patterns())
			args := append([]string{opts("schemapatch", shuffled(r, append(so, "manifests="+p.Dir))), pick(r, []string{"output:dir=", "output:schemapatch:dir=", "output:artifacts:config="}) + out}, pats...)
			sp := spec("controller-gen", projRoot, shuffled(r, args)...)
			crd := spec("controller-gen", projRoot, append([]string{opts("crd", co), "output:stdout"}, pats...)...)
			model := func(s *Scenario) any { return modelOf[Manifest](s) }
			base := &Live{Case: w.newCase("patch", s, sp, crd).Case, Scn: s, Model: model}
			base.Case.Model = mustJSON(model(s))
			base.Case.Params = map[string]string{"out": path.Join(projRoot, out)}
			if acyclic {
				base.Case.Params["schemas"] = "compare"
			}
			w.current(base)
			if w.check(base) != nil {
				return
			}
			o := base.Case.run(0)
			w.count("base "+statusClass(o.Res), 1)
			if b := base.Case.run(1); !b.Res.OK() {
				w.skip("CRD generation did not succeed")
			}
			for _, v := range variants(r, sp, o.Res, w.scale(4, 8)) {
				k := &Live{Case: base.Case.clone(), Scn: s, Model: model}
				k.Case.Runs = []Spec{sp, crd, v}
				w.current(k)
				if w.check(k) != nil {
					return
				}
				x := k.Case.run(2)
				if x.Res.Out.MapPerm > 0 || len(x.Res.Out.Switches) > 0 {
					w.nontrivial(k, x.Res)
				}
			}
		}})
}
