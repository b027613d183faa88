// Package hook is what instrumented copies of the code under verification call: before every statement (P), and to
// iterate over maps (Range). Without an exploration under way the calls do nothing.
package hook

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// Point, when set, is called before every statement, with the number of the statement
var Point func(id int)

// Block, when set, is called by a thread which cannot go on until ready
var Block func(ready func() bool)

// Order, when set, chooses the order in which the n entries of a map are visited
var Order func(n int) []int

// MapRanges counts the map iterations
var MapRanges int64

func P(id int) {
	if Point != nil {
		Point(id)
	}
}

// Wait blocks the calling thread until ready
func Wait(ready func() bool) {
	for !ready() {
		if Block == nil {
			panic("deadlock: blocked with no other thread running")
		}
		Block(ready)
	}
}

func order(n int) []int {
	MapRanges++
	if Order != nil && n > 1 {
		return Order(n)
	}
	result := make([]int, n)
	for i := range result {
		result[i] = i
	}
	return result
}

func sortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	names := make(map[K]string, len(m))
	for k := range m {
		keys = append(keys, k)
		names[k] = fmt.Sprintf("%T:%v", k, k)
	}
	sort.Slice(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
	return keys
}

// Range iterates over the map in an order chosen by the explorer
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := sortedKeys(m)
		for _, i := range order(len(keys)) {
			k := keys[i]
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Keys is maps.Keys
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Range(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// Values is maps.Values
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Range(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// MapKeys is reflect.Value.MapKeys
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	result := make([]reflect.Value, 0, len(keys))
	for _, i := range order(len(keys)) {
		result = append(result, keys[i])
	}
	return result
}
