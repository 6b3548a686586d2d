// Package verifrt is the seam between instrumented code and the simulator. It only exists in builds
// made with the simulator's overlay. Without a simulator attached, everything behaves as usual.
package verifrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// Hooks installed by the simulator.
var (
	// OnYield is called before every statement of the instrumented code.
	OnYield func(site int)
	// OnPerm shuffles the entries of a map about to be ranged over.
	OnPerm func(n int, swap func(i, j int))
	// OnBlock is called when the running task can't continue; it returns false when there is no
	// simulated schedule, in which case the caller must block for real.
	OnBlock func() bool
	// OnGo starts f as a new task; nil or false means an ordinary goroutine is to be used.
	OnGo func(f func()) bool
)

// Yield marks a scheduling point.
func Yield(site int) {
	if OnYield != nil {
		OnYield(site)
	}
}

// Block gives way to other tasks because the caller can't proceed.
func Block() bool { return OnBlock != nil && OnBlock() }

// Go runs f concurrently.
func Go(f func()) {
	if OnGo != nil && OnGo(f) {
		return
	}
	go f()
}

// Entry is one map entry as visited by a range loop.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live tells if the entry is still in the map: entries removed before they are reached are not
// visited.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the current value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Entries lists the entries of m, in the order the simulator wants them visited.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	r := make([]Entry[K, V], 0, len(m))
	for k := range m {
		r = append(r, Entry[K, V]{m: m, K: k})
	}
	if OnPerm == nil {
		return r
	}
	// Start from an order that does not depend on the runtime's own randomness. Writing keys may call
	// instrumented code: that is nothing the code under test does.
	y, p := OnYield, OnPerm
	OnYield, OnPerm = nil, nil
	sortEntries(r)
	OnYield, OnPerm = y, p
	OnPerm(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func sortEntries[K comparable, V any](r []Entry[K, V]) {
	switch r := any(r).(type) {
	case []Entry[string, V]:
		slices.SortFunc(r, func(a, b Entry[string, V]) int { return cmp.Compare(a.K, b.K) })
		return
	case []Entry[int, V]:
		slices.SortFunc(r, func(a, b Entry[int, V]) int { return cmp.Compare(a.K, b.K) })
		return
	}
	type named struct {
		s string
		e Entry[K, V]
	}
	l := make([]named, len(r))
	for i := range r {
		l[i] = named{render(r[i].K), r[i]}
	}
	slices.SortFunc(l, func(a, b named) int { return cmp.Compare(a.s, b.s) })
	for i := range r {
		r[i] = l[i].e
	}
}

func render(k any) string {
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		return fmt.Sprintf("%+v", v.Elem().Interface())
	}
	return fmt.Sprintf("%+v", k)
}

// MapsKeys replaces maps.Keys.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.K) {
				return
			}
		}
	}
}

// MapsValues replaces maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.V()) {
				return
			}
		}
	}
}

// MapsAll replaces maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range Entries(m) {
			if e.Live() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}
