package rt

import (
	"fmt"
	"go/token"
	"go/types"
	"iter"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// MapRange iterates over m in an order decided by the plan. It keeps the
// language's rules: entries deleted before they are reached are not produced,
// entries inserted meanwhile may or may not be.
func MapRange[M ~map[K]V, K comparable, V any](site int32, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := Order(site, m)
		n := len(keys)
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
		if len(m) > 0 && S != nil && S.plan.Map.Mode == "shuffle" && grown(m, keys, n) && lateVisit(site) {
			seen := make(map[K]struct{}, n)
			for _, k := range keys {
				seen[k] = struct{}{}
			}
			for _, k := range Order(site, m) {
				if _, ok := seen[k]; ok {
					continue
				}
				v, ok := m[k]
				if !ok {
					continue
				}
				if !yield(k, v) {
					return
				}
			}
		}
	}
}

func grown[M ~map[K]V, K comparable, V any](m M, keys []K, n int) bool {
	live := 0
	for _, k := range keys {
		if _, ok := m[k]; ok {
			live++
		}
	}
	return len(m) > live
}

//go:norace
func lateVisit(site int32) bool { return Mix(S.plan.Map.Seed, uint64(site), 99)&1 == 0 }

// Order returns m's keys in the order the plan decides.
func Order[M ~map[K]V, K comparable, V any](site int32, m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sortKeys(keys)
	if S == nil {
		return keys
	}
	perm := permute(site, len(keys))
	if perm == nil {
		return keys
	}
	out := make([]K, len(keys))
	for i, p := range perm {
		out[i] = keys[p]
	}
	return out
}

// permute decides the order of the next iteration at site over n keys.
//
//go:norace
func permute(site int32, n int) []int32 {
	s := S
	if s.dead {
		return nil
	}
	s.mapRuns++
	var occ int32
	if int(site) < len(s.occ) && site >= 0 {
		occ = s.occ[site]
		s.occ[site]++
	}
	mode := s.plan.Map.Mode
	if mode == "" || mode == "canon" {
		return nil
	}
	if s.plan.Map.Only != nil && !s.selected(site, occ) {
		return nil
	}
	perm := make([]int32, n)
	for i := range perm {
		perm[i] = int32(i)
	}
	if mode == "reverse" {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			perm[i], perm[j] = perm[j], perm[i]
		}
	} else {
		x := Mix(s.plan.Map.Seed, uint64(site), uint64(occ))
		if RaceEnabled == false && s.plan.Map.Only != nil {
			// fallthrough: same permutation as in the full run
		}
		for i := n - 1; i > 0; i-- {
			j := int(next(&x) % uint64(i+1))
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	ident := true
	h := s.mapHash ^ uint64(site)*0x9e3779b97f4a7c15
	for i := range perm {
		if int(perm[i]) != i {
			ident = false
		}
		h = (h ^ uint64(perm[i]+1)) * 1099511628211
	}
	s.mapHash = h
	if !ident {
		s.mapPerm++
		s.noteSite(site, occ)
	}
	return perm
}

// MapUse is one iteration that deviated from canonical order.
type MapUse struct {
	Site int32
	Occ  int32
}

const maxUses = 1 << 15

var uses [maxUses]MapUse
var nuses int

//go:norace
func (s *Sim) noteSite(site, occ int32) {
	if nuses < maxUses {
		uses[nuses] = MapUse{site, occ}
		nuses++
	}
}

// TakeUses returns, and forgets, the iterations that deviated from canonical
// order since the last call, as "site#occurrence".
func TakeUses() []string {
	out := make([]string, 0, nuses)
	for _, u := range uses[:nuses] {
		out = append(out, SiteName(u.Site)+"#"+strconv.Itoa(int(u.Occ)))
	}
	nuses = 0
	return out
}

//go:norace
func (s *Sim) selected(site, occ int32) bool {
	n := SiteName(site)
	return s.mapOnly[n] || s.mapOnly[n+"#"+strconv.Itoa(int(occ))]
}

func sortKeys[K comparable](keys []K) {
	var zero K
	switch any(zero).(type) {
	case string:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(string) < any(keys[j]).(string) })
		return
	}
	rt := reflect.TypeOf(&zero).Elem()
	switch rt.Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool {
			return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
		})
		return
	}
	reprs := make([]string, len(keys))
	for i := range keys {
		reprs[i] = repr(reflect.ValueOf(&keys[i]).Elem(), 0)
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return reprs[idx[a]] < reprs[idx[b]] })
	for i := 1; i < len(idx); i++ {
		if reprs[idx[i]] == reprs[idx[i-1]] && S != nil {
			ambiguous(rt.String() + ": " + reprs[idx[i]])
			break
		}
	}
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

//go:norace
func ambiguous(k string) { S.mapAmbig++; AmbigKey = k }

// AmbigKey is the last key whose canonical position was ambiguous.
var AmbigKey string

type poser interface{ Pos() token.Pos }

var (
	typTypes = reflect.TypeOf((*types.Type)(nil)).Elem()
	typObj   = reflect.TypeOf((*types.Object)(nil)).Elem()
	typPos   = reflect.TypeOf((*poser)(nil)).Elem()
)

// repr is a canonical, address-free description of a map key.
func repr(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("u%020d", v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("f%g", v.Float())
	case reflect.String:
		return v.String()
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + repr(v.Elem(), depth)
	case reflect.Array, reflect.Slice:
		if depth > 4 {
			return "…"
		}
		var b strings.Builder
		for i := 0; i < v.Len(); i++ {
			b.WriteString(repr(v.Index(i), depth+1))
			b.WriteByte(0)
		}
		return b.String()
	case reflect.Struct:
		if depth > 4 {
			return "…"
		}
		var b strings.Builder
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(repr(v.Field(i), depth+1))
			b.WriteByte(0)
		}
		return b.String()
	case reflect.Map:
		return fmt.Sprintf("map%d", v.Len())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if v.CanInterface() {
			switch {
			case t.Implements(typTypes):
				return "T" + v.Interface().(types.Type).String()
			case t.Implements(typObj):
				o := v.Interface().(types.Object)
				return fmt.Sprintf("O%s@%d", o.String(), o.Pos())
			case t.Implements(typPos):
				return fmt.Sprintf("P%012d%s", v.Interface().(poser).Pos(), t)
			}
		}
		e := v.Elem()
		if e.Kind() == reflect.Struct {
			if depth <= 3 {
				if id := identity(e); id != "" {
					return "#" + id
				}
			}
		}
		if depth > 3 || RaceEnabled {
			return "ptr"
		}
		return "*" + repr(e, depth+1)
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return "opaque"
	}
	return "?"
}

// identity names a struct by its identifying string fields (ID, PkgPath, Name,
// Path), following embedded pointers. Those fields are never written after
// construction in the code under test.
func identity(e reflect.Value) string {
	t := e.Type()
	var out string
	for _, f := range [...]string{"ID", "PkgPath", "Path", "Name"} {
		sf, ok := t.FieldByName(f)
		if !ok || sf.Type.Kind() != reflect.String {
			continue
		}
		fv, err := e.FieldByIndexErr(sf.Index)
		if err != nil {
			continue
		}
		out += f + "=" + fv.String() + ";"
	}
	if out == "" {
		return ""
	}
	// other plain string/int fields disambiguate
	for i := 0; i < t.NumField(); i++ {
		switch t.Field(i).Type.Kind() {
		case reflect.String, reflect.Int, reflect.Bool:
			if !RaceEnabled {
				out += repr(e.Field(i), 3) + ";"
			}
		}
	}
	return out
}

var _ = unsafe.Pointer(nil)

// MapKeys orders the result of reflect.Value.MapKeys.
func MapKeys(site int32, v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	m := make(map[string]reflect.Value, len(ks))
	for i, k := range ks {
		m[repr(k, 0)+"\x00"+strconv.Itoa(i)] = k
	}
	if len(ks) < 2 {
		return ks
	}
	sort.SliceStable(ks, func(i, j int) bool { return repr(ks[i], 0) < repr(ks[j], 0) })
	if S == nil {
		return ks
	}
	perm := permute(site, len(ks))
	if perm == nil {
		return ks
	}
	out := make([]reflect.Value, len(ks))
	for i, p := range perm {
		out[i] = ks[p]
	}
	return out
}
