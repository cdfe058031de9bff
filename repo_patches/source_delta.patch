From 9156661b64edba34e07c32fca141f52fffd1f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 01/31] fix: apply CRD markers in a well-defined order

When several versions of a kind carry contradicting resource or metadata
markers, or a version carries skipversion next to other version-level
markers, the CRD (and whether generation succeeded) depended on map
iteration order.
---
 pkg/crd/spec.go | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..4c96198 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -24,7 +24,9 @@ import (
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
 	"sigs.k8s.io/controller-tools/pkg/loader"
+	"sigs.k8s.io/controller-tools/pkg/markers"
 )
 
 // SpecMarker is a marker that knows how to apply itself to a particular
@@ -60,6 +62,14 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// don't let map iteration order decide which version's markers win when
+	// versions disagree, or where errors get reported.
+	sort.Slice(packages, func(i, j int) bool {
+		if vi, vj := p.GroupVersions[packages[i]].Version, p.GroupVersions[packages[j]].Version; vi != vj {
+			return vi < vj
+		}
+		return packages[i].ID < packages[j].ID
+	})
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -113,8 +123,8 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		for _, markerName := range crdMarkerOrder(typeInfo.Markers) {
+			for _, val := range typeInfo.Markers[markerName] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
@@ -138,7 +148,7 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 
 	// it is necessary to make sure the order of CRD versions in crd.Spec.Versions is stable and explicitly set crd.Spec.Version.
 	// Otherwise, crd.Spec.Version may point to different CRD versions across different runs.
-	sort.Slice(crd.Spec.Versions, func(i, j int) bool { return crd.Spec.Versions[i].Name < crd.Spec.Versions[j].Name })
+	sort.SliceStable(crd.Spec.Versions, func(i, j int) bool { return crd.Spec.Versions[i].Name < crd.Spec.Versions[j].Name })
 
 	// make sure we have *a* storage version
 	// (default it if we only have one, otherwise, bail)
@@ -169,8 +179,37 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 	if !served {
 		// just add the error to the first relevant package for this CRD,
 		// since there's no specific error location
-		packages[0].AddError(fmt.Errorf("CRD for %s with version(s) %v does not serve any version", groupKind, crd.Spec.Versions))
+		verNames := make([]string, 0, len(crd.Spec.Versions))
+		for _, ver := range crd.Spec.Versions {
+			verNames = append(verNames, ver.Name)
+		}
+		packages[0].AddError(fmt.Errorf("CRD for %s with version(s) %v does not serve any version", groupKind, verNames))
 	}
 
 	p.CustomResourceDefinitions[groupKind] = crd
 }
+
+// crdMarkerOrder returns the names of the given markers in the order in which
+// they should be applied to a CRD: sorted, except that markers which remove a
+// version come last, since the others need the version to still be there.
+func crdMarkerOrder(markerSet markers.MarkerValues) []string {
+	removesVersion := func(name string) bool {
+		for _, val := range markerSet[name] {
+			if _, isSkip := val.(crdmarkers.SkipVersion); isSkip {
+				return true
+			}
+		}
+		return false
+	}
+	names := make([]string, 0, len(markerSet))
+	for name := range markerSet {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if ri, rj := removesVersion(names[i]), removesVersion(names[j]); ri != rj {
+			return rj
+		}
+		return names[i] < names[j]
+	})
+	return names
+}
-- 
2.43.0


From 364aa5250cc638d9e18ee21efa2aa8692f7aa2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 02/31] fix: apply schema markers of equal priority in a
 well-defined order

---
 pkg/crd/schema.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..4408c6b 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -148,8 +148,16 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	// markers with the same priority are applied in order of their names, so
+	// that the result doesn't depend on map iteration order.
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -189,8 +197,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From 4b6ac5b7866baaf3838f12e4b97dd9cd39c57a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 03/31] fix: visit sub-schemata in a well-defined order

Flattening carries state from one property to the next, so recursive types
came out differently from run to run.
---
 pkg/crd/schema_visitor.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema_visitor.go b/pkg/crd/schema_visitor.go
index 2604d73..bd61634 100644
--- a/pkg/crd/schema_visitor.go
+++ b/pkg/crd/schema_visitor.go
@@ -17,6 +17,8 @@ limitations under the License.
 package crd
 
 import (
+	"sort"
+
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
 
@@ -93,7 +95,8 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 		subWalker.walkPtr(schema.AdditionalProperties.Schema)
 	}
 	subWalker.walkMap(schema.PatternProperties)
-	for name, dep := range schema.Dependencies {
+	for _, name := range sortedNames(schema.Dependencies) {
+		dep := schema.Dependencies[name]
 		subWalker.walkPtr(dep.Schema)
 		schema.Dependencies[name] = dep
 	}
@@ -103,9 +106,22 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 	subWalker.walkMap(schema.Definitions)
 }
 
+// sortedNames returns the keys of the given map in a well-defined order.
+// Visitors may carry state from one sub-schema to the next, so the order in
+// which we visit must not vary.
+func sortedNames[V any](defs map[string]V) []string {
+	names := make([]string, 0, len(defs))
+	for name := range defs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // walkMap walks over values of the given map, saving changes to them.
 func (w schemaWalker) walkMap(defs map[string]apiext.JSONSchemaProps) {
-	for name, def := range defs {
+	for _, name := range sortedNames(defs) {
+		def := defs[name]
 		// this is iter var reference is because we immediately preseve it below
 		//nolint:gosec
 		w.walkSchema(&def)
-- 
2.43.0


From 0d780516e75cb2223d4d1c81764ac2a565fd5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 04/31] fix: collect package-level markers in source order

Package-level markers found above type declarations were collected in map
iteration order, which showed in the order of generated webhooks.
---
 pkg/markers/collect.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/collect.go b/pkg/markers/collect.go
index 23f52e3..363d484 100644
--- a/pkg/markers/collect.go
+++ b/pkg/markers/collect.go
@@ -19,6 +19,7 @@ package markers
 import (
 	"go/ast"
 	"go/token"
+	"sort"
 	"strings"
 	"sync"
 
@@ -99,7 +100,8 @@ func (c *Collector) MarkersInPackage(pkg *loader.Package) (map[ast.Node]MarkerVa
 func (c *Collector) parseMarkersInPackage(nodeMarkersRaw map[ast.Node][]markerComment) (map[ast.Node]MarkerValues, error) {
 	var errors []error
 	nodeMarkerValues := make(map[ast.Node]MarkerValues)
-	for node, markersRaw := range nodeMarkersRaw {
+	for _, node := range nodesInOrder(nodeMarkersRaw) {
+		markersRaw := nodeMarkersRaw[node]
 		var target TargetType
 		switch node.(type) {
 		case *ast.File:
@@ -159,7 +161,10 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 	visitor.pkgMarkers = append(visitor.pkgMarkers, lastFileMarkers...)
 
 	// figure out if any type-level markers are actually package-level markers
-	for node, markers := range visitor.nodeMarkers {
+	// (go through them in source order, since the order of package-level
+	// markers is visible to generators)
+	for _, node := range nodesInOrder(visitor.nodeMarkers) {
+		markers := visitor.nodeMarkers[node]
 		_, isType := node.(*ast.TypeSpec)
 		if !isType {
 			continue
@@ -197,6 +202,22 @@ func (c *Collector) associateFileMarkers(file *ast.File) map[ast.Node][]markerCo
 	return visitor.nodeMarkers
 }
 
+// nodesInOrder returns the nodes that have markers, in source order.
+func nodesInOrder(nodeMarkers map[ast.Node][]markerComment) []ast.Node {
+	nodes := make([]ast.Node, 0, len(nodeMarkers))
+	for node := range nodeMarkers {
+		nodes = append(nodes, node)
+	}
+	sort.Slice(nodes, func(i, j int) bool {
+		if nodes[i].Pos() != nodes[j].Pos() {
+			return nodes[i].Pos() < nodes[j].Pos()
+		}
+		// an embedded field and its type, say
+		return nodes[i].End() > nodes[j].End()
+	})
+	return nodes
+}
+
 // markerComment is an AST comment that contains a marker.
 // It may or may not be from a Godoc comment, which affects
 // marker re-associated (from type-level to package-level)
-- 
2.43.0


From ef0228a2ac7eba731409a027fdca34764105de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 05/31] fix: don't lose permissions when merged RBAC rules
 coincide

Merging resources, groups or URLs can produce two rules for exactly the same
resources with different verbs, only one of which was kept.
---
 pkg/rbac/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..c7c4c0c 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -143,6 +143,17 @@ func removeDupAndSort(strs []string) []string {
 	return result
 }
 
+// addRule adds the given rule to the given map.  If there's already a rule for
+// exactly the same resources, the verbs of the two are combined.
+func addRule(ruleMap map[ruleKey]*Rule, rule *Rule) {
+	key := rule.key()
+	if existing, ok := ruleMap[key]; ok {
+		existing.addVerbs(rule.Verbs)
+		return
+	}
+	ruleMap[key] = rule
+}
+
 // ToRule converts this rule to its Kubernetes API form.
 func (r *Rule) ToRule() rbacv1.PolicyRule {
 	return rbacv1.PolicyRule{
@@ -257,8 +268,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Resources = append(rule.Resources, mergeRule.Resources...)
 			}
 
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate groups
@@ -276,8 +286,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// deduplicate URLs
@@ -295,8 +304,7 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			for _, mergeRule := range rules[1:] {
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
-			key := rule.key()
-			ruleMap[key] = rule
+			addRule(ruleMap, rule)
 		}
 
 		// sort the Rules in rules according to their ruleKeys
-- 
2.43.0


From 04c5749524fb1a89cfa89285acfe2eacc58a6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 06/31] fix: list marker definitions in a well-defined order,
 under the registry's lock

---
 pkg/genall/help/types.go |  2 +-
 pkg/markers/reg.go       | 22 +++++++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..f245b3c 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -196,7 +196,7 @@ func ByCategory(reg *markers.Registry, sorter SortGroup) []CategoryDoc {
 	res := make([]CategoryDoc, len(allGroups))
 	for i, groupName := range allGroups {
 		markers := groupedMarkers[groupName]
-		sort.Slice(markers, func(i, j int) bool {
+		sort.SliceStable(markers, func(i, j int) bool {
 			return sorter.Less(markers[i], markers[j])
 		})
 
diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 7dcd458..0b1aa8c 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -18,6 +18,7 @@ package markers
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 )
 
@@ -122,17 +123,20 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 	return r.helpFor[def]
 }
 
-// AllDefinitions returns all marker definitions known to this registry.
+// AllDefinitions returns all marker definitions known to this registry,
+// ordered by target (package, type, field), then by name.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	res := make([]*Definition, 0, len(r.forPkg)+len(r.forType)+len(r.forField))
-	for _, def := range r.forPkg {
-		res = append(res, def)
-	}
-	for _, def := range r.forType {
-		res = append(res, def)
-	}
-	for _, def := range r.forField {
-		res = append(res, def)
+	for _, defs := range []map[string]*Definition{r.forPkg, r.forType, r.forField} {
+		start := len(res)
+		for _, def := range defs {
+			res = append(res, def)
+		}
+		added := res[start:]
+		sort.Slice(added, func(i, j int) bool { return added[i].Name < added[j].Name })
 	}
 	return res
 }
-- 
2.43.0


From 845cc5262b115793d86db8e0d75328f8d15208f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 07/31] fix: generate compilable deep copies of pointers to
 named maps and slices

---
 pkg/deepcopy/traverse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..6aa563f 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -545,10 +545,12 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		// (use the declared type, not the underlying one: *map[K]V is not assignable to *NamedMap)
+		elemName := &namingInfo{typeInfo: pointerType.Elem()}
+		c.Linef("*out = new(%s)", elemName.Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
+			c.genDeepCopyIntoBlock(elemName, underlyingElem)
 		})
 		return
 	}
-- 
2.43.0


From e4ae9a42a82866fc96c3796847af8e9f373cd57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 08/31] fix: quote patched-in strings that would be read back
 as something else

---
 pkg/schemapatcher/internal/yaml/convert.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/schemapatcher/internal/yaml/convert.go b/pkg/schemapatcher/internal/yaml/convert.go
index b0ac001..d059c2a 100644
--- a/pkg/schemapatcher/internal/yaml/convert.go
+++ b/pkg/schemapatcher/internal/yaml/convert.go
@@ -57,5 +57,20 @@ func changeAll(root *yaml.Node, cb func(*yaml.Node)) {
 func SetStyle(root *yaml.Node, style yaml.Style) {
 	changeAll(root, func(node *yaml.Node) {
 		node.Style = style
+		if style == 0 && node.Kind == yaml.ScalarNode && node.ShortTag() == "!!str" {
+			node.Style = autoStringStyle(node.Value)
+		}
 	})
 }
+
+// autoStringStyle returns the style in which the encoder would write the given
+// string value.  Left to choose a style for a scalar *node*, the encoder does
+// not quote strings that YAML 1.1 parsers (such as Kubernetes') take for
+// something else (like "yes" and "on"), and it drops leading line breaks.
+func autoStringStyle(value string) yaml.Style {
+	var encoded yaml.Node
+	if err := encoded.Encode(value); err != nil || encoded.Value != value {
+		return yaml.DoubleQuotedStyle
+	}
+	return encoded.Style
+}
-- 
2.43.0


From 0c37f874ef6edc87be5fbe5bb9300d94ca76c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 09/31] fix: patch CRD manifests in a well-defined order

---
 pkg/schemapatcher/gen.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..7ecdd5c 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"gopkg.in/yaml.v3"
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
@@ -111,6 +112,26 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		return err
 	}
 
+	// go through versions and CRDs in a well-defined order: it's the order in
+	// which schemata get flattened, errors get reported and files get written.
+	packages := make([]*loader.Package, 0, len(parser.GroupVersions))
+	for pkg := range parser.GroupVersions {
+		packages = append(packages, pkg)
+	}
+	sort.Slice(packages, func(i, j int) bool {
+		if vi, vj := parser.GroupVersions[packages[i]].Version, parser.GroupVersions[packages[j]].Version; vi != vj {
+			return vi < vj
+		}
+		return packages[i].ID < packages[j].ID
+	})
+	groupKinds := make([]schema.GroupKind, 0, len(partialCRDSets))
+	for groupKind := range partialCRDSets {
+		groupKinds = append(groupKinds, groupKind)
+	}
+	sort.Slice(groupKinds, func(i, j int) bool {
+		return groupKinds[i].String() < groupKinds[j].String()
+	})
+
 	// generate schemata for the types we care about, and save them to be written later.
 	for _, groupKind := range crdgen.FindKubeKinds(parser, metav1Pkg) {
 		existingSet, wanted := partialCRDSets[groupKind]
@@ -118,7 +139,8 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			continue
 		}
 
-		for pkg, gv := range parser.GroupVersions {
+		for _, pkg := range packages {
+			gv := parser.GroupVersions[pkg]
 			if gv.Group != groupKind.Group {
 				continue
 			}
@@ -145,7 +167,9 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// patch existing CRDs with new schemata
-	for _, existingSet := range partialCRDSets {
+	for _, groupKind := range groupKinds {
+		existingSet := partialCRDSets[groupKind]
+
 		// first, figure out if we need to merge schemata together if they're *all*
 		// identical (meaning we also don't have any "unset" versions)
 
@@ -183,12 +207,12 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	for _, set := range partialCRDSets {
+	for _, groupKind := range groupKinds {
 		// We assume all CRD versions came from different files, since this
 		// is how controller-gen works.  If they came from the same file,
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
-		for _, crd := range set.CRDVersions {
+		for _, crd := range partialCRDSets[groupKind].CRDVersions {
 			if err := func() error {
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
 				if err != nil {
-- 
2.43.0


From 7bf4186c6d0f1e74c803cc1593134b9cdac294f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 10/31] fix: report errors from closing output files

---
 cmd/helpgen/main.go      | 9 +++++----
 pkg/deepcopy/gen.go      | 7 ++++++-
 pkg/genall/genall.go     | 9 +++++++--
 pkg/schemapatcher/gen.go | 9 +++++++--
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..bd22b1a 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -176,15 +176,16 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 			root.AddError(err)
 			continue
 		}
-		defer outputFile.Close()
 		n, err := outputFile.Write(outBytes)
 		if err != nil {
 			root.AddError(err)
-			continue
-		}
-		if n < len(outBytes) {
+		} else if n < len(outBytes) {
 			root.AddError(io.ErrShortWrite)
 		}
+		// errors may only show up on close
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
 	}
 	return nil
 }
diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index a85cc85..23f5d87 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -291,7 +291,12 @@ func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []by
 		root.AddError(err)
 		return
 	}
-	defer outputFile.Close()
+	defer func() {
+		// errors may only show up on close
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
+	}()
 	n, err := outputFile.Write(outBytes)
 	if err != nil {
 		root.AddError(err)
diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index b6f3740..25acf87 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -141,12 +141,17 @@ func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
 // WriteYAML writes the given objects out, serialized as YAML, using the
 // context's OutputRule.  Objects are written as separate documents, separated
 // from each other by `---` (as per the YAML spec).
-func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) error {
+func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) (err error) {
 	out, err := g.Open(nil, itemPath)
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	defer func() {
+		// errors may only show up on close
+		if closeErr := out.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	_, err = out.Write([]byte(headerText))
 	if err != nil {
diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 7ecdd5c..df274ea 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -213,12 +213,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
 		for _, crd := range partialCRDSets[groupKind].CRDVersions {
-			if err := func() error {
+			if err := func() (err error) {
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
 				if err != nil {
 					return err
 				}
-				defer outWriter.Close()
+				defer func() {
+					// errors may only show up on close
+					if closeErr := outWriter.Close(); err == nil {
+						err = closeErr
+					}
+				}()
 
 				enc := yaml.NewEncoder(outWriter)
 				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-- 
2.43.0


From da4cc11bdd101997fb286c5f0839906e85aca171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 11/31] fix: encode patched CRDs before truncating the file
 they go to

---
 pkg/schemapatcher/gen.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index df274ea..54d1808 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,6 +17,7 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -214,6 +215,17 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		// with them against older servers.
 		for _, crd := range partialCRDSets[groupKind].CRDVersions {
 			if err := func() (err error) {
+				// encode everything first: opening the file for output truncates
+				// it, and it may well be the one that we're patching.
+				var content bytes.Buffer
+				enc := yaml.NewEncoder(&content)
+				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
+				// so be compatible with everything else in k8s and choose 2.
+				enc.SetIndent(2)
+				if err := enc.Encode(crd.Yaml); err != nil {
+					return err
+				}
+
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
 				if err != nil {
 					return err
@@ -225,12 +237,8 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 					}
 				}()
 
-				enc := yaml.NewEncoder(outWriter)
-				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-				// so be compatible with everything else in k8s and choose 2.
-				enc.SetIndent(2)
-
-				return enc.Encode(crd.Yaml)
+				_, err = outWriter.Write(content.Bytes())
+				return err
 			}(); err != nil {
 				return err
 			}
-- 
2.43.0


From 01537f09b8768f991f97cda803d47c1cd0a2f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 12/31] fix: don't lose errors from files parsed in parallel

---
 pkg/loader/loader.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 8062b72..3491447 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -105,6 +105,7 @@ func (p *Package) NeedSyntax() {
 		return
 	}
 	out := make([]*ast.File, len(p.CompiledGoFiles))
+	errs := make([]error, len(p.CompiledGoFiles))
 	var wg sync.WaitGroup
 	wg.Add(len(p.CompiledGoFiles))
 	for i, filename := range p.CompiledGoFiles {
@@ -112,17 +113,19 @@ func (p *Package) NeedSyntax() {
 			defer wg.Done()
 			src, err := os.ReadFile(filename)
 			if err != nil {
-				p.AddError(err)
-				return
-			}
-			out[i], err = p.loader.parseFile(filename, src)
-			if err != nil {
-				p.AddError(err)
+				errs[i] = err
 				return
 			}
+			out[i], errs[i] = p.loader.parseFile(filename, src)
 		}(i, filename)
 	}
 	wg.Wait()
+	// AddError isn't threadsafe, and errors should be in a well-defined order
+	for _, err := range errs {
+		if err != nil {
+			p.AddError(err)
+		}
+	}
 	for _, file := range out {
 		if file == nil {
 			return
-- 
2.43.0


From 9a1a4938824c623040b55585ce1d214e3e9463eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 13/31] fix: don't panic when reading a package fails at first

---
 pkg/loader/refs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index f58a29f..dd7a4f6 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -164,7 +164,11 @@ func allReferencedPackages(pkg *Package, filterNodes NodeFilter) []*Package {
 	}
 
 	EachType(pkg, func(file *ast.File, _ *ast.GenDecl, spec *ast.TypeSpec) {
-		refs := refsByFile[file]
+		refs, known := refsByFile[file]
+		if !known {
+			// reading the package failed at first (which has been reported)
+			return
+		}
 		refs.collectReferences(spec.Type, filterNodes)
 	})
 
-- 
2.43.0


From 759373934763783334b1b1ea8440ae19bf1ed351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 14/31] fix: don't hang on import cycles between separately
 loaded packages

---
 pkg/loader/loader.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index 3491447..d05b2ff 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -393,8 +393,9 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 	// when multiple root paths are loaded and types from one path reference
 	// types from another root path.
 	defer func() {
+		visited := make(map[*Package]bool)
 		for i := range l.Roots {
-			visitImports(l.Roots, l.Roots[i], nil)
+			visitImports(l.Roots, l.Roots[i], visited)
 		}
 	}()
 
@@ -610,21 +611,33 @@ func LoadRootsWithConfig(cfg *packages.Config, roots ...string) ([]*Package, err
 // references with those from the rootPkgs list. This ensures the
 // kubebuilder marker generation is handled correctly. For more info,
 // please see issue 680.
-func visitImports(rootPkgs []*Package, pkg *Package, seen sets.Set[string]) {
-	if seen == nil {
-		seen = sets.Set[string]{}
+//
+// packages.Load breaks import cycles, but replacing references may close them
+// again if roots were loaded separately. Such imports are dropped, since
+// nothing that follows imports expects cycles.
+//
+// The visited map tells packages that are still being visited (false) from
+// ones that are done (true).
+func visitImports(rootPkgs []*Package, pkg *Package, visited map[*Package]bool) {
+	if _, seen := visited[pkg]; seen {
+		return
 	}
-	for importedPkgID, importedPkg := range pkg.Imports() {
+	visited[pkg] = false
+	// go through the imports in a well-defined order: it decides where cycles are broken
+	for _, importedPkgID := range sets.List(sets.KeySet(pkg.Imports())) {
 		for i := range rootPkgs {
 			if importedPkgID == rootPkgs[i].ID {
 				pkg.imports[importedPkgID] = rootPkgs[i]
 			}
 		}
-		if !seen.Has(importedPkgID) {
-			seen.Insert(importedPkgID)
-			visitImports(rootPkgs, importedPkg, seen)
+		importedPkg := pkg.imports[importedPkgID]
+		if done, seen := visited[importedPkg]; seen && !done {
+			delete(pkg.imports, importedPkgID)
+			continue
 		}
+		visitImports(rootPkgs, importedPkg, visited)
 	}
+	visited[pkg] = true
 }
 
 // importFunc is an implementation of the single-method
-- 
2.43.0


From 2e00fb55ee96dbfa62a671a6eb597d0c77340ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:57 +0000
Subject: [PATCH 15/31] fix: follow the remaining imports of packages with
 unresolvable ones

---
 pkg/loader/refs.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/loader/refs.go b/pkg/loader/refs.go
index dd7a4f6..5cc5d29 100644
--- a/pkg/loader/refs.go
+++ b/pkg/loader/refs.go
@@ -43,23 +43,29 @@ type importsMap struct {
 	dotImports map[string]*Package
 	// byName maps package aliases or names to the underlying package.
 	byName map[string]*Package
+	// incomplete is set if some of the imports could not be mapped.
+	incomplete bool
 }
 
 // mapImports maps imports from the names they use in the given file to the underlying package,
 // using a map of package import paths to packages (generally from Package.Imports()).
+// Imports that can't be mapped are left out of the result (which isn't nil) and reported in the error.
 func mapImports(file *ast.File, importedPkgs map[string]*Package) (*importsMap, error) {
 	m := &importsMap{
 		dotImports: make(map[string]*Package),
 		byName:     make(map[string]*Package),
 	}
+	var errs []error
 	for _, importSpec := range file.Imports {
 		path, err := strconv.Unquote(importSpec.Path.Value)
 		if err != nil {
-			return nil, ErrFromNode(err, importSpec.Path)
+			errs = append(errs, ErrFromNode(err, importSpec.Path))
+			continue
 		}
 		importedPkg := importedPkgs[path]
 		if importedPkg == nil {
-			return nil, ErrFromNode(fmt.Errorf("no such package located"), importSpec.Path)
+			errs = append(errs, ErrFromNode(fmt.Errorf("no such package located"), importSpec.Path))
+			continue
 		}
 		if importSpec.Name == nil {
 			m.byName[importedPkg.Name] = importedPkg
@@ -72,7 +78,8 @@ func mapImports(file *ast.File, importedPkgs map[string]*Package) (*importsMap,
 		m.byName[importSpec.Name.Name] = importedPkg
 	}
 
-	return m, nil
+	m.incomplete = len(errs) > 0
+	return m, MaybeErrList(errs)
 }
 
 // referenceSet finds references to external packages' types in the given file,
@@ -110,6 +117,10 @@ func (r *referenceSet) collectReferences(rawType ast.Expr, filterNode NodeFilter
 func (r *referenceSet) external(pkgName string) {
 	pkg := r.imports.byName[pkgName]
 	if pkg == nil {
+		if r.imports.incomplete {
+			// may well be one of the imports that couldn't be mapped (which has been reported)
+			return
+		}
 		r.pkg.AddError(fmt.Errorf("use of unimported package %q", pkgName))
 		return
 	}
@@ -152,8 +163,9 @@ func allReferencedPackages(pkg *Package, filterNodes NodeFilter) []*Package {
 	for _, file := range pkg.Syntax {
 		imports, err := mapImports(file, pkg.Imports())
 		if err != nil {
+			// still follow the other imports: otherwise, it'd depend on timing
+			// which of them are type-checked before this package
 			pkg.AddError(err)
-			return nil
 		}
 		refs := &referenceSet{
 			file:    file,
-- 
2.43.0


From b4e48420f19fdc4f2f16fae34108304b5593609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 16/31] fix: don't panic when a patched version has lost the
 kind

---
 pkg/crd/parser.go        | 4 ++++
 pkg/schemapatcher/gen.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/crd/parser.go b/pkg/crd/parser.go
index 4b96ee9..b78bc24 100644
--- a/pkg/crd/parser.go
+++ b/pkg/crd/parser.go
@@ -203,6 +203,10 @@ func (p *Parser) NeedFlattenedSchemaFor(typ TypeIdent) {
 
 	p.NeedSchemaFor(typ)
 	partialFlattened := p.flattener.FlattenType(typ)
+	if partialFlattened == nil {
+		// the error has been recorded already
+		return
+	}
 	fullyFlattened := FlattenEmbedded(partialFlattened, typ.Package)
 
 	p.FlattenedSchemata[typ] = *fullyFlattened
diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 54d1808..562c3a7 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -150,6 +150,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if parser.Types[typeIdent] == nil {
+				// didn't have this kind in this version
+				continue
+			}
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From b1ae2a855e5a48554683ec0672c3cb142cdc44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 17/31] fix: don't race for whether an imported package is
 ill-typed

---
 pkg/loader/loader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/loader/loader.go b/pkg/loader/loader.go
index d05b2ff..5a032f9 100644
--- a/pkg/loader/loader.go
+++ b/pkg/loader/loader.go
@@ -293,8 +293,11 @@ func (l *loader) typeCheck(pkg *Package) {
 	illTyped := len(errs) > 0
 	if !illTyped {
 		for _, importedPkg := range pkg.Imports() {
-			if importedPkg.IllTyped {
-				illTyped = true
+			// like above, it may be getting checked in parallel
+			importedPkg.Lock()
+			illTyped = importedPkg.IllTyped
+			importedPkg.Unlock()
+			if illTyped {
 				break
 			}
 		}
-- 
2.43.0


From eefe48a2f21765a74936b04ccb5052c27c19a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 18/31] fix: don't race to initialise the registry when listing
 its definitions

---
 pkg/markers/reg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/markers/reg.go b/pkg/markers/reg.go
index 0b1aa8c..072489f 100644
--- a/pkg/markers/reg.go
+++ b/pkg/markers/reg.go
@@ -126,6 +126,8 @@ func (r *Registry) HelpFor(def *Definition) *DefinitionHelp {
 // AllDefinitions returns all marker definitions known to this registry,
 // ordered by target (package, type, field), then by name.
 func (r *Registry) AllDefinitions() []*Definition {
+	r.init()
+
 	r.mu.RLock()
 	defer r.mu.RUnlock()
 
-- 
2.43.0


From 322a70c42ac27c0ca51d8d6385d1cf5bf1c01163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 19/31] fix: always complain about the same output rule of a
 generator that doesn't run

With several such rules, which one was reported depended on the
iteration order of a map.
---
 pkg/genall/options.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..b008cbc 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -18,6 +18,8 @@ package genall
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"golang.org/x/tools/go/packages"
@@ -162,7 +164,9 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	}
 
 	// actually associate the rules now that we know the generators
-	for genName, outputRule := range outputByGen {
+	// (in a well-defined order, so that the same one is always complained about)
+	for _, genName := range slices.Sorted(maps.Keys(outputByGen)) {
+		outputRule := outputByGen[genName]
 		gen, knownGen := gensByName[genName]
 		if !knownGen {
 			return protoRuntime{}, fmt.Errorf("non-invoked generator %q", genName)
-- 
2.43.0


From 5d994b69eaa5a963005a4905578daedb1ffc6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 20/31] fix: don't panic when naming a predeclared type in deep
 copies

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 6aa563f..c71deec 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -198,8 +198,8 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
-		// local import
+	if otherPkg == nil || otherPkg == basePkg.Types {
+		// predeclared (any, error) or local, no import needed
 		return typeName.Name()
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-- 
2.43.0


From e694b51d3ad7b18e9add3d3c6cc97b01dee0eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 21/31] fix: generate compilable deep copies of slices of
 pointers to types that copy themselves

---
 pkg/deepcopy/traverse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index c71deec..32ec212 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -405,14 +405,16 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 // underlying type is the given slice.
 func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *types.Slice) {
 	underlyingElem := eventualUnderlyingType(sliceType.Elem())
+	_, elemIsPtr := underlyingElem.(*types.Pointer)
 
 	// make the actual type (not the underlying)
 	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
 
 	// check if we need to do anything special, or just copy each element appropriately
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case !elemIsPtr && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
+		// (pointers may be nil, and need something allocated to copy into, so they're handled below)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
 		})
-- 
2.43.0


From 0691cf3bfad1fb7a89fcf651e0af97e9042b5205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 22/31] fix: generate deep copies of maps and slices that
 contain themselves

---
 pkg/deepcopy/traverse.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 32ec212..c1a2553 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -212,6 +212,10 @@ type copyMethodMaker struct {
 	pkg *loader.Package
 	*importsList
 	*codeWriter
+
+	// inProgress holds the types that we're in the middle of writing out the copying
+	// of, so that types that (like `type Tree map[string]Tree`) contain themselves end.
+	inProgress map[*types.Named]struct{}
 }
 
 // GenerateMethodsFor makes DeepCopy, DeepCopyInto, and DeepCopyObject methods
@@ -295,6 +299,19 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 		return
 	}
 
+	// just use the methods that we're generating if we run into the same type again.
+	if named, isNamed := typeInfo.(*types.Named); isNamed {
+		if _, busy := c.inProgress[named]; busy {
+			c.Line("*out = in.DeepCopy()")
+			return
+		}
+		if c.inProgress == nil {
+			c.inProgress = make(map[*types.Named]struct{})
+		}
+		c.inProgress[named] = struct{}{}
+		defer delete(c.inProgress, named)
+	}
+
 	switch last := last.(type) {
 	case *types.Basic:
 		switch last.Kind() {
@@ -552,7 +569,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 		c.Linef("*out = new(%s)", elemName.Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(elemName, underlyingElem)
+			c.genDeepCopyIntoBlock(elemName, pointerType.Elem())
 		})
 		return
 	}
-- 
2.43.0


From bf4e7670270ad3a9c89a922a70140d90a88bac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:21 +0000
Subject: [PATCH 23/31] fix: don't confuse RBAC rules for the core group with
 rules for no group

---
 pkg/rbac/parser.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index c7c4c0c..eb83f28 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -85,13 +85,22 @@ func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].Str
 func (r *Rule) key() ruleKey {
 	r.normalize()
 	return ruleKey{
-		Groups:        strings.Join(r.Groups, "&"),
-		Resources:     strings.Join(r.Resources, "&"),
-		ResourceNames: strings.Join(r.ResourceNames, "&"),
-		URLs:          strings.Join(r.URLs, "&"),
+		Groups:        joinForKey(r.Groups),
+		Resources:     joinForKey(r.Resources),
+		ResourceNames: joinForKey(r.ResourceNames),
+		URLs:          joinForKey(r.URLs),
 	}
 }
 
+// joinForKey joins the given strings for use in a key, keeping an empty string
+// (like the name of the core group) distinct from nothing at all.
+func joinForKey(strs []string) string {
+	if len(strs) == 1 && strs[0] == "" {
+		return `""`
+	}
+	return strings.Join(strs, "&")
+}
+
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
 	key := r.key()
 	verbs := strings.Join(r.Verbs, "&")
-- 
2.43.0


From 2bf54d9c32071979e3bca3f9b3ac4c1064f4879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:21 +0000
Subject: [PATCH 24/31] fix: keep all documents of a manifest file when
 patching it

---
 pkg/schemapatcher/gen.go | 128 +++++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 44 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 562c3a7..27f0b2d 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -18,7 +18,9 @@ package schemapatcher
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"sort"
@@ -212,12 +214,19 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
+	written := make(map[string]struct{})
 	for _, groupKind := range groupKinds {
 		// We assume all CRD versions came from different files, since this
 		// is how controller-gen works.  If they came from the same file,
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
 		for _, crd := range partialCRDSets[groupKind].CRDVersions {
+			if _, done := written[crd.FileName]; done {
+				// already written together with another CRD in the same file
+				continue
+			}
+			written[crd.FileName] = struct{}{}
+
 			if err := func() (err error) {
 				// encode everything first: opening the file for output truncates
 				// it, and it may well be the one that we're patching.
@@ -226,8 +235,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
 				// so be compatible with everything else in k8s and choose 2.
 				enc.SetIndent(2)
-				if err := enc.Encode(crd.Yaml); err != nil {
-					return err
+				for _, document := range crd.Documents {
+					if err := enc.Encode(document); err != nil {
+						return err
+					}
 				}
 
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
@@ -275,6 +286,9 @@ type partialCRDSet struct {
 type partialCRD struct {
 	// Yaml is the raw YAML structure of the CRD.
 	Yaml *yaml.Node
+	// Documents are all of the documents in the file that this was read from
+	// (including Yaml itself), so that we can write the whole file back out.
+	Documents []*yaml.Node
 	// FileName is the source name of the file that this was read from.
 	//
 	// This isn't on partialCRDSet because we could have different CRD versions
@@ -390,60 +404,86 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 			return nil, err
 		}
 
-		// NB(directxman12): we could use the universal deserializer for this, but it's
-		// really pretty clunky, and the alternative is actually kinda easier to understand
-
-		// ensure that this is a CRD
-		var typeMeta metav1.TypeMeta
-		if err := kyaml.Unmarshal(rawContent, &typeMeta); err != nil {
+		documents, err := yamlDocuments(rawContent)
+		if err != nil {
 			continue
 		}
 
-		if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
-			// If there's no API version this file probably isn't a CRD.
-			// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
-			continue
-		}
+		for _, document := range documents {
+			content, err := yaml.Marshal(document)
+			if err != nil {
+				continue
+			}
 
-		if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
-			return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
-		}
+			// NB(directxman12): we could use the universal deserializer for this, but it's
+			// really pretty clunky, and the alternative is actually kinda easier to understand
 
-		// collect the group-kind and versions from the actual structured form
-		var actualCRD crdIsh
-		if err := kyaml.Unmarshal(rawContent, &actualCRD); err != nil {
-			continue
-		}
-		groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
-		versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
-		for _, ver := range actualCRD.Spec.Versions {
-			versions[ver.Name] = struct{}{}
-		}
+			// ensure that this is a CRD
+			var typeMeta metav1.TypeMeta
+			if err := kyaml.Unmarshal(content, &typeMeta); err != nil {
+				continue
+			}
 
-		// then actually unmarshal in a manner that preserves ordering, etc
-		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
-			continue
+			if typeMeta.APIVersion == "" || typeMeta.Kind != "CustomResourceDefinition" {
+				// If there's no API version this file probably isn't a CRD.
+				// Likewise we don't need to care if the Kind isn't CustomResourceDefinition.
+				continue
+			}
+
+			if !isSupportedAPIExtGroupVer(typeMeta.APIVersion) {
+				return nil, fmt.Errorf("load %q: apiVersion %q not supported", filepath.Join(dir, fileInfo.Name()), typeMeta.APIVersion)
+			}
+
+			// collect the group-kind and versions from the actual structured form
+			var actualCRD crdIsh
+			if err := kyaml.Unmarshal(content, &actualCRD); err != nil {
+				continue
+			}
+			groupKind := schema.GroupKind{Group: actualCRD.Spec.Group, Kind: actualCRD.Spec.Names.Kind}
+			versions := make(map[string]struct{}, len(actualCRD.Spec.Versions))
+			for _, ver := range actualCRD.Spec.Versions {
+				versions[ver.Name] = struct{}{}
+			}
+
+			// then store this CRDVersion of the CRD in a set, populating the set if necessary
+			if res[groupKind] == nil {
+				res[groupKind] = &partialCRDSet{
+					GroupKind:   groupKind,
+					NewSchemata: make(map[string]apiext.JSONSchemaProps),
+					Versions:    make(map[string]struct{}),
+				}
+			}
+			for ver := range versions {
+				res[groupKind].Versions[ver] = struct{}{}
+			}
+			res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
+				Yaml:       document,
+				Documents:  documents,
+				FileName:   fileInfo.Name(),
+				CRDVersion: typeMeta.APIVersion,
+			})
 		}
+	}
+	return res, nil
+}
 
-		// then store this CRDVersion of the CRD in a set, populating the set if necessary
-		if res[groupKind] == nil {
-			res[groupKind] = &partialCRDSet{
-				GroupKind:   groupKind,
-				NewSchemata: make(map[string]apiext.JSONSchemaProps),
-				Versions:    make(map[string]struct{}),
+// yamlDocuments unmarshals all (non-empty) documents of a YAML file in a manner
+// that preserves ordering, comments, etc.
+func yamlDocuments(content []byte) ([]*yaml.Node, error) {
+	var documents []*yaml.Node
+	decoder := yaml.NewDecoder(bytes.NewReader(content))
+	for {
+		document := &yaml.Node{}
+		if err := decoder.Decode(document); err != nil {
+			if errors.Is(err, io.EOF) {
+				return documents, nil
 			}
+			return nil, err
 		}
-		for ver := range versions {
-			res[groupKind].Versions[ver] = struct{}{}
+		if len(document.Content) > 0 && document.Content[0].ShortTag() != "!!null" {
+			documents = append(documents, document)
 		}
-		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
-			Yaml:       &yamlNodeTree,
-			FileName:   fileInfo.Name(),
-			CRDVersion: typeMeta.APIVersion,
-		})
 	}
-	return res, nil
 }
 
 // isSupportedAPIExtGroupVer checks if the given string-form group-version
-- 
2.43.0


From 861ab85d0ac130ceb085a829068f728b23f3834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:09 +0000
Subject: [PATCH 25/31] fix: don't refer to packages by names that are taken in
 deep copies

Import aliases in generated deep copies could be keywords (package path
ending in /default), clash with variables of the generated code
(.../key, .../out) or with declarations of the package that they're
generated for, none of which compiles.
---
 pkg/deepcopy/traverse.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index c1a2553..887a616 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -19,9 +19,11 @@ package deepcopy
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"go/types"
 	"io"
 	"path"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -106,7 +108,7 @@ func (l *importsList) NeedImport(importPath string) string {
 	// otherwise, calculate an import alias by joining path parts till we get something unique
 	restPath, nextWord := path.Split(importPath)
 
-	for otherPath, exists := "", true; exists && otherPath != importPath; otherPath, exists = l.byAlias[alias] {
+	for taken := true; taken; taken = l.aliasTaken(alias, importPath) {
 		if restPath == "" {
 			// do something else to disambiguate if we're run out of parts and
 			// still have duplicates, somehow
@@ -137,6 +139,23 @@ func (l *importsList) NeedImport(importPath string) string {
 	return alias
 }
 
+// aliasTaken checks if we can't refer to the given import by the given alias, because
+// it's not an identifier, or means something else where we'd use it.
+func (l *importsList) aliasTaken(alias, importPath string) bool {
+	if otherPath, exists := l.byAlias[alias]; exists && otherPath != importPath {
+		return true
+	}
+	switch alias {
+	case "in", "out", "key", "val", "i", "x", "inVal", "outVal":
+		// variables in the generated code
+		return true
+	}
+	if !token.IsIdentifier(alias) || types.Universe.Lookup(alias) != nil {
+		return true
+	}
+	return l.pkg.Types.Scope().Lookup(alias) != nil
+}
+
 // ImportSpecs returns a string form of each import spec
 // (i.e. `alias "path/to/import").  Aliases are only present
 // when they don't match the package name.
@@ -152,6 +171,8 @@ func (l *importsList) ImportSpecs() []string {
 			res = append(res, fmt.Sprintf("%s %q", alias, importPath))
 		}
 	}
+	// (gofmt sorts these as well, but only if the result is well-formed)
+	sort.Strings(res)
 	return res
 }
 
-- 
2.43.0


From 975cbe72f4fd436ac293151194b6369b14cc55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 26/31] fix: generate deep copies of aliases like those of what
 they stand for

With type aliases represented explicitly (gotypesalias=1, the default), maps
to and from aliases of basic types were rejected, and pointers and structs
behind aliases were copied by methods that they don't have.
---
 pkg/deepcopy/traverse.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 887a616..5b2c56f 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -321,7 +321,7 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 	}
 
 	// just use the methods that we're generating if we run into the same type again.
-	if named, isNamed := typeInfo.(*types.Named); isNamed {
+	if named, isNamed := types.Unalias(typeInfo).(*types.Named); isNamed {
 		if _, busy := c.inProgress[named]; busy {
 			c.Line("*out = in.DeepCopy()")
 			return
@@ -385,7 +385,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 		switch {
 		case hasDeepCopyInto || hasDeepCopy:
 			// use the manually-written methods
-			_, fieldIsPtr := mapType.Elem().(*types.Pointer)                       // is "out" actually a pointer
+			_, fieldIsPtr := types.Unalias(mapType.Elem()).(*types.Pointer)        // is "out" actually a pointer
 			inIsPtr := resultWillBePointer(mapType.Elem(), hasDeepCopy, copyOnPtr) // does copying "in" produce a pointer
 			if hasDeepCopy {
 				// If we're calling DeepCopy, check if it's receiver needs a pointer
@@ -501,7 +501,7 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 			// never execute there, because they're pretty clearly invalid
 			// syntax).
 
-			_, fieldIsPtr := field.Type().(*types.Pointer)
+			_, fieldIsPtr := types.Unalias(field.Type()).(*types.Pointer)
 			inIsPtr := resultWillBePointer(field.Type(), hasDeepCopy, copyOnPtr)
 			if fieldIsPtr {
 				// we'll need a if block to check for nilness
@@ -609,7 +609,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 // usePtrReceiver checks if we need a pointer receiver on methods for the given type
 // Pass-by-reference types don't get pointer receivers.
 func usePtrReceiver(typeInfo types.Type) bool {
-	switch typeInfo.(type) {
+	switch types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		return false
 	case *types.Map:
@@ -630,7 +630,7 @@ func resultWillBePointer(typeInfo types.Type, hasDeepCopy, deepCopyOnPtr bool) b
 	}
 
 	// otherwise, we'll need to check its type
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Pointer:
 		// NB(directxman12): we don't have to worry about the elem having a deepcopy,
 		// since hasManualDeepCopy would've caught that.
@@ -796,7 +796,7 @@ func eventualUnderlyingType(typeInfo types.Type) types.Type {
 
 // fineToShallowCopy checks if a shallow-copying a type is equivalent to deepcopy-ing it.
 func fineToShallowCopy(typeInfo types.Type) bool {
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Basic:
 		// basic types (int, string, etc) are always fine to shallow-copy,
 		// except for Invalid and UnsafePointer, which can't be copied at all.
-- 
2.43.0


From 268029a9bc0df34479e420d085b25414183f11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:48 +0000
Subject: [PATCH 27/31] fix: generate DeepCopyObject for objects that have a
 deep copy already

Types marked as objects didn't get the object implementation that they asked
for if their DeepCopy was hand-written, and got a second one if their
DeepCopyObject was.
---
 pkg/deepcopy/traverse.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 5b2c56f..242d39a 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -290,16 +290,19 @@ func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers
 		} else {
 			c.Linef(bareDeepCopy, info.Name)
 		}
+	}
 
-		// maybe also generate DeepCopyObject, if asked.
-		if genObjectInterface(info) {
-			// we always need runtime.Object for DeepCopyObject
-			runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
-			if ptrReceiver {
-				c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
-			} else {
-				c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
-			}
+	// maybe also generate DeepCopyObject, if asked.
+	if genObjectInterface(info) && !hasDeepCopyObjectMethod(root, typeInfo) {
+		// we always need runtime.Object for DeepCopyObject
+		runtimeAlias := c.NeedImport("k8s.io/apimachinery/pkg/runtime")
+		switch {
+		case ptrReceiver && hasManualDeepCopy && !deepCopyOnPtr:
+			c.Linef(ptrDeepCopyObjOfBare, info.Name, runtimeAlias)
+		case ptrReceiver:
+			c.Linef(ptrDeepCopyObj, info.Name, runtimeAlias)
+		default:
+			c.Linef(bareDeepCopyObj, info.Name, runtimeAlias)
 		}
 	}
 }
@@ -774,6 +777,13 @@ func hasDeepCopyIntoMethod(pkg *loader.Package, typeInfo types.Type) bool {
 	return methodSig.Recv().Type() == paramPtr.Elem()
 }
 
+// hasDeepCopyObjectMethod checks if this type has a manual DeepCopyObject method.
+func hasDeepCopyObjectMethod(pkg *loader.Package, typeInfo types.Type) bool {
+	deepCopyMethod, ind, _ := types.LookupFieldOrMethod(typeInfo, true /* check pointers too */, pkg.Types, "DeepCopyObject")
+	// ignore embedded methods
+	return deepCopyMethod != nil && len(ind) == 1
+}
+
 // hasAnyDeepCopyMethod checks if the given method has DeepCopy or DeepCopyInto
 // (either of which implies the other will exist eventually).
 func hasAnyDeepCopyMethod(pkg *loader.Package, typeInfo types.Type) bool {
@@ -870,6 +880,16 @@ func (in *%[1]s) DeepCopyObject() %[2]s.Object {
 	}
 	return nil
 }
+`
+	// ptrDeepCopyObjOfBare is a DeepCopyObject for a type with a pointer receiver and an existing DeepCopy
+	// without one.
+	ptrDeepCopyObjOfBare = `
+// DeepCopyObject is an autogenerated deepcopy function, copying the receiver, creating a new runtime.Object.
+func (in *%[1]s) DeepCopyObject() %[2]s.Object {
+	if in == nil { return nil }
+	c := in.DeepCopy()
+	return &c
+}
 `
 	// ptrDeepCopy is a DeepCopyObject for a type with an existing DeepCopyInto and a non-pointer receiver.
 	bareDeepCopyObj = `
-- 
2.43.0


From 6838fa7f8905be964d1d9972a05685765796dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:18 +0000
Subject: [PATCH 28/31] fix: don't panic on fields of unnamed and predeclared
 types

Generating the schema of a field whose type is any, error, unsafe.Pointer, an
anonymous struct, or an alias of an unnamed type panicked.  Anonymous structs
and types without a schema are now reported like other unsupported types, and
aliases get the schema of what they stand for.
---
 pkg/crd/schema.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 4408c6b..f6486fb 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -274,7 +274,8 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// This reproduces the behavior we had pre gotypesalias=1 (needed if this
 	// project is compiled with default settings and Go >= 1.23).
-	if aliasInfo, isAlias := typeInfo.(*types.Alias); isAlias {
+	aliasInfo, isAlias := typeInfo.(*types.Alias)
+	if isAlias {
 		typeInfo = aliasInfo.Rhs()
 	}
 	if basicInfo, isBasic := typeInfo.(*types.Basic); isBasic {
@@ -303,7 +304,18 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// NB(directxman12): if there are dot imports, this might be an external reference,
 	// so use typechecking info to get the actual object
-	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
+	namedInfo, isNamed := typeInfo.(interface{ Obj() *types.TypeName })
+	if !isNamed && isAlias {
+		// an alias of a type without a name (e.g. `type Names = []string`), which
+		// has the schema itself
+		namedInfo, isNamed = aliasInfo, true
+	}
+	if !isNamed || namedInfo.Obj().Pkg() == nil {
+		// e.g. any, error
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %q", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
+	typeNameInfo := namedInfo.Obj()
 	pkg := typeNameInfo.Pkg()
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
@@ -323,7 +335,12 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	typeInfo, isNamed := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	if !isNamed {
+		// e.g. unsafe.Pointer
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %v.%s", named.X, named.Sel.Name), named))
+		return &apiext.JSONSchemaProps{}
+	}
 	typeNameInfo := typeInfo.Obj()
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
@@ -411,7 +428,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From 4933e1071c3e11bd46d153d66722e122807b3cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:08 +0000
Subject: [PATCH 29/31] fix: don't panic on dot-imported aliases of types that
 aren't imported

An alias that's dot-imported was replaced by what it stands for, whose package
need not be among the imports: then generating its schema panicked, or, for
aliases of basic types, looked for the alias in the wrong package.
---
 pkg/crd/schema.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index f6486fb..a6b1403 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -274,8 +274,11 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	}
 	// This reproduces the behavior we had pre gotypesalias=1 (needed if this
 	// project is compiled with default settings and Go >= 1.23).
+	//
+	// (Aliases from elsewhere are referenced by name, like those that are not
+	// dot-imported: our package need not import what they stand for.)
 	aliasInfo, isAlias := typeInfo.(*types.Alias)
-	if isAlias {
+	if isAlias && aliasInfo.Obj().Pkg() == ctx.pkg.Types {
 		typeInfo = aliasInfo.Rhs()
 	}
 	if basicInfo, isBasic := typeInfo.(*types.Basic); isBasic {
-- 
2.43.0


From 3146085b91b440f8c0d2985b992968524c17ac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:31 +0000
Subject: [PATCH 30/31] fix: don't panic on labels of CRDs without values

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From afc1de08d26eb07604922353fc2ed72beaea8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:46 +0000
Subject: [PATCH 31/31] fix: tell where types are that deep copies can't be
 generated for

---
 pkg/deepcopy/traverse.go | 55 +++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 242d39a..211f10c 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -187,7 +187,7 @@ type namingInfo struct {
 
 // Syntax calculates the code representation of the given type or name,
 // and marks that is used (potentially marking an import as used).
-func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) string {
+func (n *namingInfo) Syntax(c *copyMethodMaker) string {
 	if n.nameOverride != "" {
 		return n.nameOverride
 	}
@@ -203,27 +203,27 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	case *types.Basic:
 		return typeInfo.String()
 	case *types.Pointer:
-		return "*" + (&namingInfo{typeInfo: typeInfo.Elem()}).Syntax(basePkg, imports)
+		return "*" + (&namingInfo{typeInfo: typeInfo.Elem()}).Syntax(c)
 	case *types.Slice:
-		return "[]" + (&namingInfo{typeInfo: typeInfo.Elem()}).Syntax(basePkg, imports)
+		return "[]" + (&namingInfo{typeInfo: typeInfo.Elem()}).Syntax(c)
 	case *types.Map:
 		return fmt.Sprintf(
 			"map[%s]%s",
-			(&namingInfo{typeInfo: typeInfo.Key()}).Syntax(basePkg, imports),
-			(&namingInfo{typeInfo: typeInfo.Elem()}).Syntax(basePkg, imports))
+			(&namingInfo{typeInfo: typeInfo.Key()}).Syntax(c),
+			(&namingInfo{typeInfo: typeInfo.Elem()}).Syntax(c))
 	default:
-		basePkg.AddError(fmt.Errorf("name requested for invalid type: %s", typeInfo))
+		c.addError(fmt.Errorf("name requested for invalid type: %s", typeInfo))
 		return typeInfo.String()
 	}
 
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == nil || otherPkg == basePkg.Types {
+	if otherPkg == nil || otherPkg == c.pkg.Types {
 		// predeclared (any, error) or local, no import needed
 		return typeName.Name()
 	}
-	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
+	alias := c.NeedImport(loader.NonVendorPath(otherPkg.Path()))
 	return alias + "." + typeName.Name()
 }
 
@@ -237,11 +237,20 @@ type copyMethodMaker struct {
 	// inProgress holds the types that we're in the middle of writing out the copying
 	// of, so that types that (like `type Tree map[string]Tree`) contain themselves end.
 	inProgress map[*types.Named]struct{}
+
+	// at is the type or field that we're currently generating code for.
+	at loader.Node
+}
+
+// addError records an error about the type or field that we're currently generating code for.
+func (c *copyMethodMaker) addError(err error) {
+	c.pkg.AddError(loader.ErrFromNode(err, c.at))
 }
 
 // GenerateMethodsFor makes DeepCopy, DeepCopyInto, and DeepCopyObject methods
 // for the given type, when appropriate
 func (c *copyMethodMaker) GenerateMethodsFor(root *loader.Package, info *markers.TypeInfo) {
+	c.at = info.RawSpec
 	typeInfo := root.TypesInfo.TypeOf(info.RawSpec.Name)
 	if typeInfo == types.Typ[types.Invalid] {
 		root.AddError(loader.ErrFromNode(fmt.Errorf("unknown type: %s", info.Name), info.RawSpec))
@@ -340,7 +349,7 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 	case *types.Basic:
 		switch last.Kind() {
 		case types.Invalid, types.UnsafePointer:
-			c.pkg.AddError(fmt.Errorf("invalid type: %s", last))
+			c.addError(fmt.Errorf("invalid type: %s", last))
 		default:
 			// basic types themselves can be "shallow" copied, so all we need
 			// to do is check if our *actual* type (not the underlying one) has
@@ -360,9 +369,9 @@ func (c *copyMethodMaker) genDeepCopyIntoBlock(actualName *namingInfo, typeInfo
 		c.genPointerDeepCopy(actualName, last)
 	case *types.Named:
 		// handled via the above loop, should never happen
-		c.pkg.AddError(fmt.Errorf("interface type %s encountered directly, invalid condition", last))
+		c.addError(fmt.Errorf("interface type %s encountered directly, invalid condition", last))
 	default:
-		c.pkg.AddError(fmt.Errorf("invalid type: %s", last))
+		c.addError(fmt.Errorf("invalid type: %s", last))
 	}
 }
 
@@ -372,12 +381,12 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 	// maps *must* have shallow-copiable types, since we just iterate
 	// through the keys, only trying to deepcopy the values.
 	if !fineToShallowCopy(mapType.Key()) {
-		c.pkg.AddError(fmt.Errorf("invalid map key type: %s", mapType.Key()))
+		c.addError(fmt.Errorf("invalid map key type: %s", mapType.Key()))
 		return
 	}
 
 	// make our actual type (not the underlying one)...
-	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
+	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c))
 
 	// ...and copy each element appropriately
 	c.For("key, val := range *in", func() {
@@ -416,7 +425,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 
 			// if it passes by reference, let the main switch handle it
 			if passesByReference(underlyingElem) {
-				c.Linef("var outVal %[1]s", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+				c.Linef("var outVal %[1]s", (&namingInfo{typeInfo: underlyingElem}).Syntax(c))
 				c.IfElse("val == nil", func() {
 					c.Line("(*out)[key] = nil")
 				}, func() {
@@ -435,7 +444,7 @@ func (c *copyMethodMaker) genMapDeepCopy(actualName *namingInfo, mapType *types.
 				// structs will have deepcopy generated for them, so use that
 				c.Line("(*out)[key] = *val.DeepCopy()")
 			default:
-				c.pkg.AddError(fmt.Errorf("invalid map value type: %s", underlyingElem))
+				c.addError(fmt.Errorf("invalid map value type: %s", underlyingElem))
 				return
 			}
 		}
@@ -449,7 +458,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 	_, elemIsPtr := underlyingElem.(*types.Pointer)
 
 	// make the actual type (not the underlying)
-	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
+	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c))
 
 	// check if we need to do anything special, or just copy each element appropriately
 	switch {
@@ -479,7 +488,7 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 				// structs will always have deepcopy
 				c.Linef("(*in)[i].DeepCopyInto(&(*out)[i])")
 			default:
-				c.pkg.AddError(fmt.Errorf("invalid slice element type: %s", underlyingElem))
+				c.addError(fmt.Errorf("invalid slice element type: %s", underlyingElem))
 			}
 		})
 	}
@@ -490,8 +499,12 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Struct) {
 	c.Line("*out = *in")
 
+	defer func(at loader.Node) { c.at = at }(c.at)
 	for i := 0; i < structType.NumFields(); i++ {
 		field := structType.Field(i)
+		if field.Pkg() == c.pkg.Types {
+			c.at = field
+		}
 
 		// if we have a manual deepcopy, use that
 		hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, field.Type())
@@ -581,7 +594,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// shallow-copiable types are pretty easy
 	if fineToShallowCopy(underlyingElem) {
-		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c))
 		c.Line("**out = **in")
 		return
 	}
@@ -590,7 +603,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	if passesByReference(underlyingElem) {
 		// (use the declared type, not the underlying one: *map[K]V is not assignable to *NamedMap)
 		elemName := &namingInfo{typeInfo: pointerType.Elem()}
-		c.Linef("*out = new(%s)", elemName.Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", elemName.Syntax(c))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
 			c.genDeepCopyIntoBlock(elemName, pointerType.Elem())
@@ -601,10 +614,10 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	// otherwise...
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
-		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c))
 		c.Line("(*in).DeepCopyInto(*out)")
 	default:
-		c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
+		c.addError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
 		return
 	}
 }
-- 
2.43.0

