package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Map iteration in an order that is a function of the seed instead of
// the Go runtime's private randomness.

func order[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	raceMapRead(m)
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return lessKey(ks[i], ks[j]) })
	if t := Cur(); t != nil && len(ks) > 1 && !t.Dead() {
		if v := t.w.Choose(t, "M", 1<<20, t.w.Prof.P["M"], ""); v != 0 {
			s := uint64(v)
			for i := len(ks) - 1; i > 0; i-- {
				s = mix(s)
				j := int(s % uint64(i+1))
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func lessKey(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return va.Uint() < vb.Uint()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// It iterates over a map.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIt[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	return &It[K, V]{m: m, keys: order(m)}
}

// Next advances to the next entry that is still present.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		if vv, ok := it.m[kk]; ok {
			if k != nil {
				*k = kk
			}
			if v != nil {
				*v = vv
			}
			return true
		}
	}
	return false
}

// Range2 starts an iteration with key and value.
func Range2[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K, v V) {
	return newIt(m), k, v
}

// Range1 starts an iteration with the key only.
func Range1[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K) {
	return newIt(m), k
}

// RangeV starts an iteration with the value only.
func RangeV[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], v V) {
	return newIt(m), v
}

// Range starts an iteration for the assignment forms.
func Range[M ~map[K]V, K comparable, V any](m M) *It[K, V] { return newIt(m) }

func raceMapRead[M ~map[K]V, K comparable, V any](m M) {}

// Zero resets a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
