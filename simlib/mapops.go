package sim

import (
	"runtime/debug"
	"unsafe"
)

// An operation on a map is not atomic: while one goroutine is in the middle of writing to a
// map, no other may touch it, or else the runtime ends the whole process. Writes are therefore
// made of two steps: the map is marked, others may run, and the mark is taken away by the next
// statement of the writer.

func mapID[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR stands for reading from a map.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if r := Current(); r != nil && r.mapTask != nil && m != nil {
		r.mapConflict(mapID(m), "read")
	}
	return m
}

// MW stands for writing to a map.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	r := Current()
	if r == nil || m == nil {
		return m
	}
	t := r.self()
	if t == nil {
		return m
	}
	if r.mapTask != nil {
		r.mapConflict(mapID(m), "write")
	}
	if r.mode == 0 || t.Whole {
		return m
	}
	if t.low = r.Draw("mapw", 32); t.low == 0 {
		return m
	}
	r.mapTask, r.mapPtr = t, mapID(m)
	t.park("writing to a map", nil, nil)
	if r.mapTask == t {
		r.mapTask = nil
	}
	return m
}

// MPut writes to a map.
func MPut[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) { MW(m)[k] = v }
}

func (r *Run) mapConflict(p unsafe.Pointer, what string) {
	t := r.self()
	if w := r.mapTask; t != nil && w != t && p == r.mapPtr && !w.done {
		r.Violate("crash", "concurrent map %s and map write: %s while %s is writing\n%s", what, t.Name, w.Name, trimStack(debug.Stack()))
	}
}
