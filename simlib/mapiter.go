package sim

import (
	"fmt"
	"sort"
)

// Iter walks a map in an order decided by the simulator.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) {
	it = &Iter[K, V]{m: MR(m)}
	if len(m) == 0 {
		return
	}
	names := make([]string, 0, len(m))
	byName := make(map[string]K, len(m))
	for key := range m {
		s := fmt.Sprintf("%v", key)
		if _, dup := byName[s]; dup {
			s += fmt.Sprintf("#%d", len(names))
		}
		names = append(names, s)
		byName[s] = key
	}
	sort.Strings(names)
	if t := Self(); t != nil && len(names) > 1 {
		if r := t.run; r.Draw("map", 2) == 1 {
			for i := len(names) - 1; i > 0; i-- {
				j := i - r.Draw("map", i+1)
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	for _, s := range names {
		it.keys = append(it.keys, byName[s])
	}
	return
}

// Next moves on to the next entry which is still there.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		val, ok := MR(it.m)[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
