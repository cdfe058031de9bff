package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	admv1 "k8s.io/api/admissionregistration/v1"
	rbacv1 "k8s.io/api/rbac/v1"
	"sigs.k8s.io/yaml"
)

// yamlDocs splits a stream into documents.
func yamlDocs(s string) []string {
	var out []string
	for _, d := range strings.Split("\n"+s, "\n---\n") {
		keep := false
		for _, l := range strings.Split(d, "\n") {
			if l != "" && !strings.HasPrefix(l, "#") {
				keep = true
			}
		}
		if keep {
			out = append(out, d)
		}
	}
	return out
}

func modelOf[T any](s *Scenario) []*T {
	out := []*T{}
	for _, m := range s.metas() {
		if x, ok := m.(*T); ok {
			out = append(out, x)
		}
	}
	return out
}

// allows is the reference RBAC authorizer for one rule.
func allows(ar []string, groups, resources, names, verbs, urls []string) bool {
	has := func(xs []string, x string, star bool) bool {
		for _, y := range xs {
			if y == x || star && y == "*" {
				return true
			}
		}
		return false
	}
	if ar[0] == "url" {
		if !has(verbs, ar[2], true) {
			return false
		}
		return has(urls, ar[1], true)
	}
	return has(verbs, ar[4], true) && has(groups, ar[1], true) && has(resources, ar[2], true) && (len(names) == 0 || has(names, ar[3], false))
}

// outputs returns the files of an output rule relative to nothing: everything
// that appeared or changed, plus standard output under "<stdout>".
func (c *Case) produced(o *Obs) map[string]string {
	out := map[string]string{}
	for p, d := range o.Files {
		if e, ok := c.Files[p]; !ok || e != d {
			out[p] = d
		}
	}
	if o.Res.Stdout != "" {
		out["<stdout>"] = o.Res.Stdout
	}
	return out
}

func init() {
	oracles["rbac"] = func(c *Case) *Finding {
		var rules []*RBACRule
		if err := json.Unmarshal(c.Model, &rules); err != nil {
			panic(err)
		}
		a := c.run(0)
		if !a.Res.OK() {
			return violation("valid rules rejected", a.Res.Status(), a.Res.Stderr)
		}
		for i := 1; i < len(c.Runs); i++ {
			if f := diffObs(a, c.run(i), true); f != nil {
				return f
			}
		}
		prod := c.produced(a)
		if len(rules) == 0 {
			if len(prod) != 0 {
				return violation("roles without rules", strings.Join(sortedKeys(prod), ", "))
			}
			return nil
		}
		type role struct {
			ns    string
			rules []rbacv1.PolicyRule
		}
		got := map[string][]rbacv1.PolicyRule{}
		name := c.Params["role"]
		for _, p := range sortedKeys(prod) {
			for _, d := range yamlDocs(prod[p]) {
				var x rbacv1.Role
				if err := yaml.UnmarshalStrict([]byte(d), &x); err != nil {
					return violation("unreadable role", err.Error(), d)
				}
				switch {
				case x.Kind == "ClusterRole" && x.Namespace == "":
				case x.Kind == "Role" && x.Namespace != "":
				default:
					return violation("unexpected object", d)
				}
				if x.Name != name || x.APIVersion != "rbac.authorization.k8s.io/v1" {
					return violation("unexpected object", d)
				}
				if _, dup := got[x.Namespace]; dup {
					return violation("two roles for one scope", fmt.Sprintf("namespace %q", x.Namespace))
				}
				got[x.Namespace] = x.Rules
			}
		}
		// the universe of requests that can tell the two apart
		nss := map[string]bool{}
		g, rs, ns, vs, us := []string{"other.group"}, []string{"others"}, []string{"other", ""}, []string{"otherverb"}, []string{"/other"}
		for _, r := range rules {
			nss[r.NS] = true
			g, rs, ns, vs, us = append(g, r.Groups...), append(rs, r.Resources...), append(ns, r.Names...), append(vs, r.Verbs...), append(us, r.URLs...)
		}
		for n := range got {
			nss[n] = true
		}
		fixCore := func(xs []string) []string {
			out := append([]string{}, xs...)
			for i, x := range out {
				if x == "core" {
					out[i] = ""
				}
			}
			return out
		}
		g, rs, ns, vs, us = uniq(fixCore(g)), uniq(rs), uniq(ns), uniq(vs), uniq(us)
		ask := func(n string, req ...string) *Finding {
			want, have := false, false
			for _, r := range rules {
				if r.NS == n && allows(req, fixCore(r.Groups), r.Resources, r.Names, r.Verbs, r.URLs) {
					want = true
					break
				}
			}
			for _, r := range got[n] {
				if allows(req, r.APIGroups, r.Resources, r.ResourceNames, r.Verbs, r.NonResourceURLs) {
					have = true
					break
				}
			}
			if want == have {
				return nil
			}
			if want {
				return violation("permission lost", fmt.Sprintf("namespace %q: request %q is allowed by the markers and by none of the generated rules", n, req))
			}
			return violation("permission gained", fmt.Sprintf("namespace %q: request %q is allowed by the generated rules and by none of the markers", n, req))
		}
		for _, n := range sortedKeys(nss) {
			for _, v := range vs {
				for _, x := range g {
					for _, y := range rs {
						for _, z := range ns {
							if f := ask(n, "res", x, y, z, v); f != nil {
								return f
							}
						}
					}
				}
				for _, u := range us {
					if f := ask(n, "url", u, v); f != nil {
						return f
					}
				}
			}
		}
		return nil
	}

	oracles["webhook"] = func(c *Case) *Finding {
		var cfgs []*HookCfg
		if err := json.Unmarshal(c.Model, &cfgs); err != nil {
			panic(err)
		}
		a := c.run(0)
		if !a.Res.OK() {
			return violation("valid webhooks rejected", a.Res.Status(), a.Res.Stderr)
		}
		for i := 1; i < len(c.Runs); i++ {
			if f := diffObs(a, c.run(i), true); f != nil {
				return f
			}
		}
		want := map[string][]string{}
		objName := map[string]string{"MutatingWebhookConfiguration": "mutating-webhook-configuration", "ValidatingWebhookConfiguration": "validating-webhook-configuration"}
		kind := func(m bool) string {
			if m {
				return "MutatingWebhookConfiguration"
			}
			return "ValidatingWebhookConfiguration"
		}
		for _, h := range cfgs {
			if h.Config {
				objName[kind(h.Mutating)] = h.Name
				continue
			}
			want[kind(h.Mutating)] = append(want[kind(h.Mutating)], hookText(h))
		}
		got := map[string][]string{}
		prod := c.produced(a)
		for _, p := range sortedKeys(prod) {
			for _, d := range yamlDocs(prod[p]) {
				var x admv1.MutatingWebhookConfiguration
				if err := yaml.UnmarshalStrict([]byte(d), &x); err != nil {
					return violation("unreadable configuration", err.Error(), d)
				}
				if n, ok := objName[x.Kind]; !ok || x.Name != n || x.APIVersion != "admissionregistration.k8s.io/v1" {
					return violation("unexpected object", fmt.Sprintf("%s %s %s", x.APIVersion, x.Kind, x.Name))
				}
				if _, dup := got[x.Kind]; dup {
					return violation("two configurations of one kind", x.Kind)
				}
				got[x.Kind] = []string{}
				for _, w := range x.Webhooks {
					j, _ := json.Marshal(w)
					got[x.Kind] = append(got[x.Kind], string(j))
				}
			}
		}
		for _, k := range []string{"MutatingWebhookConfiguration", "ValidatingWebhookConfiguration"} {
			w, g := sortStrings(want[k]), sortStrings(got[k])
			if len(w) == 0 && len(g) == 0 {
				continue
			}
			if !reflect.DeepEqual(w, g) {
				d := []string{fmt.Sprintf("%s: %d declared, %d generated", k, len(w), len(g))}
				m := map[string]int{}
				for _, x := range w {
					m[x]++
				}
				for _, x := range g {
					m[x]--
				}
				for _, x := range sortedKeys(m) {
					if m[x] > 0 {
						d = append(d, "declared only: "+x)
					} else if m[x] < 0 {
						d = append(d, "generated only: "+x)
					}
				}
				return violation("webhooks differ from the declared ones", clipN(d, 5)...)
			}
		}
		return nil
	}
}

func fold(s string, opts ...string) string {
	for _, o := range opts {
		if strings.EqualFold(s, o) {
			return o
		}
	}
	return s
}

// hookText is the webhook the reference model expects.
func hookText(h *HookCfg) string {
	w := admv1.MutatingWebhook{Name: h.Name, AdmissionReviewVersions: h.ARV}
	ru := admv1.RuleWithOperations{Rule: admv1.Rule{APIVersions: h.Versions, Resources: h.Resources}}
	for _, g := range h.Groups {
		if g == "core" {
			g = ""
		}
		ru.APIGroups = append(ru.APIGroups, g)
	}
	for _, v := range h.Verbs {
		ru.Operations = append(ru.Operations, admv1.OperationType(strings.ToUpper(v)))
	}
	w.Rules = []admv1.RuleWithOperations{ru}
	fp := admv1.FailurePolicyType(fold(h.Fail, "Ignore", "Fail"))
	w.FailurePolicy = &fp
	se := admv1.SideEffectClass(fold(h.Side, "None", "NoneOnDryRun"))
	w.SideEffects = &se
	if h.Match != "" {
		m := admv1.MatchPolicyType(fold(h.Match, "Exact", "Equivalent"))
		w.MatchPolicy = &m
	}
	if h.Timeout != 0 {
		t := int32(h.Timeout)
		w.TimeoutSeconds = &t
	}
	if h.Reinv != "" {
		p := admv1.ReinvocationPolicyType(h.Reinv)
		w.ReinvocationPolicy = &p
	}
	if h.URL != "" {
		w.ClientConfig.URL = &h.URL
	} else {
		w.ClientConfig.Service = &admv1.ServiceReference{Name: h.SvcName, Namespace: h.SvcNS, Path: &h.Path}
		if h.Port != 0 {
			p := int32(h.Port)
			w.ClientConfig.Service.Port = &p
		}
	}
	j, _ := json.Marshal(w)
	return string(j)
}

func outRule(r *Rand, gen string) string {
	return pick(r, []string{"output:" + gen + ":dir=config/" + gen, "output:stdout", "output:dir=out", "output:artifacts:config=cfg", "output:" + gen + ":artifacts:config=cfg,code=gen", "output:" + gen + ":stdout"})
}

// modelCampaign checks a scenario with a model, run by run.
func (w *Worker) modelCampaign(oracle string, s *Scenario, model func(*Scenario) any, params map[string]string, sp Spec, n int) {
	base := &Live{Case: w.newCase(oracle, s, sp).Case, Scn: s, Model: model}
	base.Case.Model = mustJSON(model(s))
	base.Case.Params = params
	w.current(base)
	if w.check(base) != nil {
		return
	}
	o := base.Case.run(0)
	w.count("base "+statusClass(o.Res), 1)
	for _, v := range variants(w.R, sp, o.Res, n) {
		k := &Live{Case: base.Case.clone(), Scn: s, Model: model}
		k.Case.Runs = []Spec{sp, v}
		w.current(k)
		if w.check(k) != nil {
			return
		}
		x := k.Case.run(1)
		if x.Res.Out.MapPerm > 0 || len(x.Res.Out.Switches) > 0 {
			w.nontrivial(k, x.Res)
		}
	}
}

func init() {
	register(&Campaign{Prop: "C02", Quick: 9600, Thorough: 60000, Real: realCode, Stub: stubCode,
		Rule: "a case is a set of packages with randomly placed rbac markers drawn from small pools (so that rules overlap, merge and collide), judged against a reference authorizer over every request the markers can distinguish, in a reference execution and again under other map orders, schedules, read sizes, clocks and environments; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s, ps := rbacScenario(r, r.in(1, 3), pick(r, []int{2, 5, 10}))
			s.headers()
			role := pick(r, []string{"manager-role", "r"})
			o := []string{"roleName=" + role}
			if r.p(1, 4) {
				o = append(o, "headerFile=hack/boilerplate.yaml.txt")
				if r.p(1, 2) {
					o = append(o, "year=2031")
				}
			}
			if r.p(1, 4) {
				o = append(o, "fileName=roles.yaml")
			}
			args := append([]string{opts("rbac", shuffled(r, o)), outRule(r, "rbac")}, pathArgs(ctlPatterns(r, ps))...)
			w.modelCampaign("rbac", s, func(s *Scenario) any { return modelOf[RBACRule](s) }, map[string]string{"role": role},
				spec("controller-gen", projRoot, shuffled(r, args)...), w.scale(4, 8))
		}})
	register(&Campaign{Prop: "C03", Quick: 9600, Thorough: 60000, Real: realCode, Stub: stubCode,
		Rule: "a case is a set of packages with randomly placed webhook and webhook-configuration markers, judged against a reference translation of every marker in a reference execution and again under other map orders, schedules, read sizes, clocks and environments; non-trivial when a map was iterated in another order or a scheduling choice differed",
		Case: func(w *Worker, i int) {
			r := w.R
			s, ps := hookScenario(r, r.in(1, 3), pick(r, []int{1, 3, 8}))
			s.headers()
			var o []string
			if r.p(1, 4) {
				o = append(o, "headerFile=hack/boilerplate.yaml.txt")
				if r.p(1, 2) {
					o = append(o, "year=2031")
				}
			}
			args := append([]string{opts("webhook", o), outRule(r, "webhook")}, pathArgs(ctlPatterns(r, ps))...)
			w.modelCampaign("webhook", s, func(s *Scenario) any { return modelOf[HookCfg](s) }, nil,
				spec("controller-gen", projRoot, shuffled(r, args)...), w.scale(4, 8))
		}})
	_ = sort.Strings
}
