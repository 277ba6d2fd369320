// Package maporder gives map iterations of the instrumented code an order
// decided by the simulator's seed.
package maporder

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif.local/sim/prng"
)

// Seed decides the order of all iterations; Order says how: "random" (a
// shuffle per iteration), "sorted" or "reversed".
var (
	Seed  uint64
	Order = "random"
	calls uint64
)

// Pair is an entry of a map: entries removed before their turn are not visited.
type Pair[K comparable, V any] struct {
	K K
	m map[K]V
}

func (p Pair[K, V]) In() bool { _, ok := p.m[p.K]; return ok }
func (p Pair[K, V]) V() V     { return p.m[p.K] }

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return strings.Compare(a.String(), b.String()) < 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// Pairs returns the entries of m in the decided order.
//
//go:norace
func Pairs[M ~map[K]V, K comparable, V any](m M) []Pair[K, V] {
	ps := make([]Pair[K, V], 0, len(m))
	for k := range m {
		ps = append(ps, Pair[K, V]{k, m})
	}
	switch xs := any(ps).(type) {
	case []Pair[int32, uint64]:
		sort.Slice(xs, func(i, j int) bool { return xs[i].K < xs[j].K })
	default:
		vs := make([]reflect.Value, len(ps))
		for i := range ps {
			vs[i] = reflect.ValueOf(ps[i].K)
		}
		idx := make([]int, len(ps))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return less(vs[idx[i]], vs[idx[j]]) })
		o := make([]Pair[K, V], len(ps))
		for i, j := range idx {
			o[i] = ps[j]
		}
		ps = o
	}
	calls++
	switch Order {
	case "sorted":
	case "reversed":
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	default:
		prng.New(prng.Mix(Seed, calls)).Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	}
	return ps
}

// Reset starts a run.
func Reset(seed uint64) { Seed, calls = seed, 0 }
