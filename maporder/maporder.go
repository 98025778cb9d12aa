// Package maporder decides in which order loops over Go maps run. The
// build-time overlay made by cmd/instr turns every such loop of the library,
//
//	for k, v := range m {
//
// into
//
//	for it, k, v := maporder.Start2(m); it.Next2(&k, &v); {
//
// which visits the keys in an order given by Policy. Every order it produces is
// one the Go specification allows: each key present at the start is visited
// once unless it is removed before it is reached, and keys added meanwhile are
// visited or not.
package maporder

import (
	"fmt"
	"reflect"
	"sort"
)

// Policy selects the order: -1 leaves it to the runtime. Otherwise Policy%24
// selects one of the permutations of four (of as many keys as there are, if
// fewer; of four blocks of ascending keys, if more; 23 is the exact reverse),
// and Policy/24 whether keys added during the loop are visited.
var Policy = -1

//go:norace
func count() { Loops++ }

// Policies is the number of policies.
const Policies = 48

// Loops counts the loops that were under control.
var Loops int64

type It[K comparable, V any] struct {
	m     map[K]V
	keys  []K
	nan   []V // values of the keys that are not equal to themselves, last in keys
	next  int
	added bool
}

func start[K comparable, V any](m map[K]V) *It[K, V] {
	it := &It[K, V]{m: m, keys: make([]K, 0, len(m))}
	for k, v := range m {
		if k == k {
			it.keys = append(it.keys, k)
		} else {
			it.nan = append(it.nan, v)
		}
	}
	if Policy >= 0 {
		count()
		order(it.keys)
	}
	for k := range m {
		if k != k {
			it.keys = append(it.keys, k)
		}
	}
	return it
}

func Start2[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K, v V) {
	return start(map[K]V(m)), k, v
}
func Start1[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K) {
	return start(map[K]V(m)), k
}
func StartV[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], v V) {
	return start(map[K]V(m)), v
}
func Start0[M ~map[K]V, K comparable, V any](m M) *It[K, V] { return start(map[K]V(m)) }

func (it *It[K, V]) step() (k K, v V, ok bool) {
	for {
		for it.next < len(it.keys) {
			i := it.next
			it.next++
			k = it.keys[i]
			if n := len(it.keys) - len(it.nan); i >= n && !it.added {
				return k, it.nan[i-n], true
			}
			if v, ok = it.m[k]; ok {
				return
			}
		}
		if it.added || Policy < 24 || Policy >= Policies {
			return k, v, false
		}
		// visit what was added
		it.added = true
		old := make(map[K]bool, len(it.keys))
		for _, k := range it.keys {
			old[k] = true
		}
		var more []K
		for k := range it.m {
			if k == k && !old[k] {
				more = append(more, k)
			}
		}
		order(more)
		it.keys = append(it.keys, more...)
	}
}

func (it *It[K, V]) Next2(pk *K, pv *V) bool {
	k, v, ok := it.step()
	if ok {
		*pk, *pv = k, v
	}
	return ok
}
func (it *It[K, V]) Next1(pk *K) bool {
	k, _, ok := it.step()
	if ok {
		*pk = k
	}
	return ok
}
func (it *It[K, V]) NextV(pv *V) bool {
	_, v, ok := it.step()
	if ok {
		*pv = v
	}
	return ok
}
func (it *It[K, V]) Next0() bool {
	_, _, ok := it.step()
	return ok
}

// order brings the keys into the order the policy asks for.
func order[K comparable](keys []K) {
	n := len(keys)
	if n < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		sort.SliceStable(keys, func(i, j int) bool {
			return compare(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) < 0
		})
	}
	p := Policy % 24
	if p == 23 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
		return
	}
	parts := min(n, 4)
	from := append([]K(nil), keys...)
	to := keys[:0]
	for _, b := range permutation(parts, p) {
		to = append(to, from[b*n/parts:(b+1)*n/parts]...)
	}
}

// permutation is the p-th (modulo their number) permutation of 0..n-1.
func permutation(n, p int) []int {
	var left, r []int
	f := 1
	for i := 0; i < n; i++ {
		left = append(left, i)
		f *= i + 1
	}
	p %= f
	for n > 0 {
		f /= n
		i := p / f
		p %= f
		r = append(r, left[i])
		left = append(left[:i:i], left[i+1:]...)
		n--
	}
	return r
}

func compare(a, b reflect.Value) int {
	sign := func(less, more bool) int {
		if less {
			return -1
		}
		if more {
			return 1
		}
		return 0
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return sign(a.Int() < b.Int(), a.Int() > b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return sign(a.Uint() < b.Uint(), a.Uint() > b.Uint())
	case reflect.Float32, reflect.Float64:
		return sign(a.Float() < b.Float(), a.Float() > b.Float())
	case reflect.String:
		return sign(a.String() < b.String(), a.String() > b.String())
	case reflect.Bool:
		return sign(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		// not the same in every run, but the same throughout one
		return sign(a.Pointer() < b.Pointer(), a.Pointer() > b.Pointer())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := compare(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := compare(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return sign(a.IsNil() && !b.IsNil(), !a.IsNil() && b.IsNil())
		}
		x, y := a.Elem(), b.Elem()
		if x.Type() != y.Type() {
			s, t := fmt.Sprint(x.Type()), fmt.Sprint(y.Type())
			return sign(s < t, s > t)
		}
		return compare(x, y)
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return sign(real(x) < real(y) || real(x) == real(y) && imag(x) < imag(y), real(x) > real(y) || real(x) == real(y) && imag(x) > imag(y))
	}
	return 0
}
