package sim

import "sort"

// States of packages: every run begins with the package-level variables of a process which
// has just been started.
type pkgState struct {
	resets []reset
	sorted bool
}

type reset struct {
	order int
	f     func()
}

var (
	pkgOrder []*pkgState
	pkgs     = map[string]*pkgState{}
)

// AtRun registers a function which sets variables of a package to their initial values.
// Packages are registered in the order of their initialisation.
func AtRun(pkg string, order int, f func()) {
	p := pkgs[pkg]
	if p == nil {
		p = &pkgState{}
		pkgs[pkg] = p
		pkgOrder = append(pkgOrder, p)
	}
	p.resets = append(p.resets, reset{order, f})
	p.sorted = false
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var zero T
	*p = zero
}

func resetState() {
	for _, p := range pkgOrder {
		if !p.sorted {
			rs := p.resets
			sort.SliceStable(rs, func(i, j int) bool { return rs[i].order < rs[j].order })
			p.sorted = true
		}
		for _, r := range p.resets {
			r.f()
		}
	}
}
