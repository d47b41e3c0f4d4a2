//go:build go1.22

// Package verifsched is the scheduling point of the instrumented library; without a hook it does nothing.
package verifsched

import (
	"fmt"
	"reflect"
	"sort"
	"sync/atomic"
)

var hook atomic.Pointer[func(int)]

// Set installs or (nil) removes the hook.
func Set(h func(int)) {
	if h == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&h)
}

// Point is called before every statement of the instrumented library.
func Point(k int) {
	if h := hook.Load(); h != nil {
		(*h)(k)
	}
}

// order, where set, gives the order in which the n entries of a map (in key order) are visited.
var order atomic.Pointer[func(n int) []int]

// SetOrder installs or (nil) removes the choice of map orders. Without one the order is Go's.
func SetOrder(h func(n int) []int) {
	if h == nil {
		order.Store(nil)
		return
	}
	order.Store(&h)
}

// Iter walks a map.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	next int
}

// Iterate starts to walk m.
func Iterate[K comparable, V any](m map[K]V) (*Iter[K, V], K, V) {
	it := &Iter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if h := order.Load(); h != nil {
		sort.Slice(it.keys, func(i, j int) bool { return less(reflect.ValueOf(it.keys[i]), reflect.ValueOf(it.keys[j])) })
		keys := make([]K, 0, len(it.keys))
		for _, i := range (*h)(len(it.keys)) {
			keys = append(keys, it.keys[i])
		}
		it.keys = keys
	}
	var k K
	var v V
	return it, k, v
}

func less(a, b reflect.Value) bool {
	switch {
	case a.CanInt():
		return a.Int() < b.Int()
	case a.CanUint():
		return a.Uint() < b.Uint()
	case a.Kind() == reflect.String:
		return a.String() < b.String()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}

// Next moves to the next entry that is still there.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.next < len(it.keys) {
		key := it.keys[it.next]
		it.next++
		if val, ok := it.m[key]; ok {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
	}
	return false
}
