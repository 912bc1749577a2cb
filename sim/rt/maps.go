package rt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// mapState tracks operations in progress on a map (overlapping ones crash a
// Go program) and an insertion order for keys without a natural one.
type mapState struct {
	writing int // task id + 1
	reading map[int]int
	ids     map[interface{}]int
	next    int
}

func (w *World) mst(p unsafe.Pointer) *mapState {
	m := w.maps[p]
	if m == nil {
		m = &mapState{}
		w.maps[p] = m
	}
	return m
}

func mptr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR is a map about to be read.
func MR[M ~map[K]V, K comparable, V any](site int, m M) M {
	w := W
	if w == nil || w.inEvent {
		return m
	}
	p := mptr(m)
	if p == nil {
		return m
	}
	Y(site)
	if s := w.maps[p]; s != nil && s.writing != 0 && s.writing != w.cur.ID+1 {
		Fatal("concurrent map read and map write")
	}
	return m
}

// MW is a map about to be written with key k.
func MW[M ~map[K]V, K comparable, V any](site int, m M, k K) M {
	w := W
	if w == nil || w.inEvent {
		return m
	}
	p := mptr(m)
	if p == nil {
		return m
	}
	s := w.mst(p)
	me := w.cur.ID + 1
	if s.writing != 0 && s.writing != me {
		Fatal("concurrent map writes")
	}
	if identityKey[K]() {
		if s.ids == nil {
			s.ids = make(map[interface{}]int)
		}
		if _, ok := s.ids[k]; !ok {
			s.next++
			s.ids[k] = s.next
		}
	}
	s.writing = me
	Y(site)
	s.writing = 0
	return m
}

func MDelete[M ~map[K]V, K comparable, V any](site int, m M, k K) {
	delete(MW[M, K, V](site, m, k), k)
}

func identityKey[K comparable]() bool {
	var z *K
	switch reflect.TypeOf(z).Elem().Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Chan, reflect.UnsafePointer, reflect.Uintptr, reflect.Struct, reflect.Array:
		return true
	}
	return false
}

// MKeys are the keys of m in the order a range statement visits them.
func MKeys[M ~map[K]V, K comparable, V any](site int, m M) []K {
	w := W
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if w == nil {
		return keys
	}
	MR[M, K, V](site, m)
	if len(keys) < 2 {
		return keys
	}
	if identityKey[K]() {
		s := w.mst(mptr(m))
		id := func(k K) int {
			if s.ids != nil {
				if n, ok := s.ids[k]; ok {
					return n
				}
			}
			return 1 << 30
		}
		unknown := 0
		for _, k := range keys {
			if id(k) == 1<<30 {
				unknown++
			}
		}
		if unknown > 1 {
			sort.Slice(keys, func(i, j int) bool {
				a, b := id(keys[i]), id(keys[j])
				if a != b {
					return a < b
				}
				return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
			})
		} else {
			sort.Slice(keys, func(i, j int) bool { return id(keys[i]) < id(keys[j]) })
		}
	} else {
		sort.Slice(keys, func(i, j int) bool { return natLess(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	}
	if w.calm {
		return keys
	}
	// start offset and direction are decisions
	n := len(keys)
	off := w.sMap.N(n)
	if off > 0 {
		k := make([]K, 0, n)
		k = append(k, keys[off:]...)
		keys = append(k, keys[:off]...)
	}
	if n > 2 && w.sMap.Chance(1, 2) {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// MHas reports whether the key is still there during a range; it also is a
// read of the map.
func MHas[M ~map[K]V, K comparable, V any](site int, m M, k K) (V, bool) {
	v, ok := MR[M, K, V](site, m)[k]
	return v, ok
}

func natLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return false
}

// MW0 notes a write whose key is not known here.
func MW0[M ~map[K]V, K comparable, V any](site int, m M) M {
	w := W
	if w == nil || w.inEvent || mptr(m) == nil {
		return m
	}
	s := w.mst(mptr(m))
	me := w.cur.ID + 1
	if s.writing != 0 && s.writing != me {
		Fatal("concurrent map writes")
	}
	s.writing = me
	Y(site)
	s.writing = 0
	return m
}

// MapIt drives a range over a map.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site int
}

func MapIter[M ~map[K]V, K comparable, V any](site int, m M) (it *MapIt[K, V], k K, v V) {
	return &MapIt[K, V]{m: m, keys: MKeys[map[K]V](site, m), site: site}, k, v
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := MR(it.site, it.m)[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// ChanIt drives a range over a channel.
type ChanIt[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) (it ChanIt[T], v T) { return ChanIt[T]{ch}, v }

func (it ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}
