package simrt

import (
	"fmt"
	"sort"
)

// MapIter iterates over a map in an order the simulator decides.
type MapIter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
	seen map[K]struct{}
	w    *World
	late bool
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	default:
		strs := make([]string, len(keys))
		for i, k := range keys {
			strs[i] = fmt.Sprint(k)
		}
		sort.Sort(&byStr[K]{keys, strs})
	}
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// permute shuffles keys as decision v says (0: canonical order).
func permute[K any](keys []K, v int) {
	if v == 0 {
		return
	}
	r := NewRng(uint64(v))
	for i := len(keys) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
}

// ShuffleKeys orders the keys of a map for code that collects them (maps.Keys, sync.Map.Range).
func ShuffleKeys[K comparable](keys []K) {
	sortKeys(keys)
	w := Cur()
	if w == nil || len(keys) < 2 {
		return
	}
	if v := w.Choose("map", 0); v != 0 {
		permute(keys, v)
		w.Fire("map-order")
	}
}

// Iter is what ranging over a map becomes: for it, k, v := Iter(m); it.Next(&k, &v); {...}.
func Iter[M ~map[K]V, K comparable, V any](m M) (*MapIter[M, K, V], K, V) {
	var k K
	var v V
	it := &MapIter[M, K, V]{m: m, w: Cur()}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		ShuffleKeys(it.keys)
	}
	return it, k, v
}

// Next advances. An entry removed during the iteration is not produced; one added
// during the iteration is produced or not, as the simulator decides.
func (it *MapIter[M, K, V]) Next(k *K, v *V) bool {
	for {
		for it.i < len(it.keys) {
			key := it.keys[it.i]
			it.i++
			val, ok := it.m[key]
			if !ok {
				continue
			}
			*k, *v = key, val
			return true
		}
		if it.late || len(it.m) <= len(it.keys) {
			return false
		}
		if it.w == nil || it.w.Choose("maplate", 2) == 0 {
			it.late = true
			return false
		}
		have := make(map[K]struct{}, len(it.keys))
		for _, x := range it.keys {
			have[x] = struct{}{}
		}
		var more []K
		for x := range it.m {
			if _, ok := have[x]; !ok {
				more = append(more, x)
			}
		}
		if len(more) == 0 {
			return false
		}
		ShuffleKeys(more)
		it.keys = append(it.keys, more...)
	}
}
