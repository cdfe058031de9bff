package rt

import "sort"

type resetFn struct {
	pkg string
	fn  func()
}

var resets []resetFn

// OnReset registers the function that puts a package's state back to what it
// is when a process starts. Packages register in initialisation order.
func OnReset(pkg string, fn func()) { resets = append(resets, resetFn{pkg, fn}) }

// ResetAll re-initialises every registered package, in initialisation order.
// It is called at the start of a simulated process, inside the simulation.
func ResetAll() {
	for _, r := range resets {
		r.fn()
	}
}

// ResetPackages lists the packages ResetAll re-initialises.
func ResetPackages() []string {
	var out []string
	for _, r := range resets {
		out = append(out, r.pkg)
	}
	sort.Strings(out)
	return out
}
