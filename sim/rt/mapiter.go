package rt

import (
	"reflect"
	"sort"
)

// Iter iterates over a map in an order decided by the plan.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func newIter[K comparable, V any](m map[K]V) *Iter[K, V] {
	it := &Iter[K, V]{m: MR[K, V](m)}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.SliceStable(it.keys, func(a, b int) bool { return keyLess(it.keys[a], it.keys[b]) })
	if len(it.keys) > 1 && active {
		St.MapOrders++
		for i := len(it.keys) - 1; i > 0; i-- {
			j := int(SplitMix(&maprng) % uint64(i+1))
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

func keyLess(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return x.Uint() < y.Uint()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int() < y.Int()
	case reflect.String:
		return x.String() < y.String()
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan:
		return x.Pointer() < y.Pointer()
	case reflect.Struct:
		if x.NumField() > 0 {
			f, g := x.Field(0), y.Field(0)
			if f.Kind() == reflect.Uintptr {
				return f.Uint() < g.Uint()
			}
		}
	}
	return false
}

// MapIter starts an iteration; the extra results give the loop variables their types.
func MapIter[K comparable, V any, M ~map[K]V](m M) (*Iter[K, V], K, V) {
	var k K
	var v V
	return newIter[K, V](m), k, v
}

// MapIter0 starts an iteration without loop variables.
func MapIter0[K comparable, V any, M ~map[K]V](m M) *Iter[K, V] { return newIter[K, V](m) }

// MapIterK and MapIterV start iterations with one loop variable.
func MapIterK[K comparable, V any, M ~map[K]V](m M) (*Iter[K, V], K) {
	var k K
	return newIter[K, V](m), k
}

func MapIterV[K comparable, V any, M ~map[K]V](m M) (*Iter[K, V], V) {
	var v V
	return newIter[K, V](m), v
}

// Next steps to the next entry still present.
func (it *Iter[K, V]) Next(kp *K, vp *V) bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := MR[K, V](it.m)[k]
		if !ok {
			continue
		}
		if kp != nil {
			*kp = k
		}
		if vp != nil {
			*vp = v
		}
		return true
	}
	return false
}
