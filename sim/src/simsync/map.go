package simsync

import (
	"sync"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

// Map is a concurrent map with a preemption point before every operation and a
// plan-decided Range order.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool)           { rt.Y(site); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Y(site); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Y(site); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Y(site); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.Y(site); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Y(site); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.Y(site); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.Y(site); return m.real.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { rt.Y(site); m.real.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	snap := map[any]any{}
	m.real.Range(func(k, v any) bool { snap[k] = v; return true })
	for k, v := range rt.MapRange(site, snap) {
		rt.Y(site)
		if !f(k, v) {
			return
		}
	}
}
