// Package simmaps replaces package maps in instrumented code: iteration order belongs to the simulation.
package simmaps

import (
	"iter"
	"maps"

	"verifsim/rt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range rt.Iter(m) {
			if e.Live() && !yield(e.Key()) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range rt.Iter(m) {
			if e.Live() && !yield(e.Val()) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range rt.Iter(m) {
			if e.Live() && !yield(e.Key(), e.Val()) {
				return
			}
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool { return maps.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(dst, src)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, e := range rt.Iter(m) {
		if e.Live() && del(e.Key(), e.Val()) {
			delete(m, e.Key())
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V         { return maps.Collect(seq) }

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
