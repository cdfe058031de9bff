// Package simmaps replaces maps in simulated code: iteration order is the
// plan's.
package simmaps

import (
	"iter"
	"maps"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return rt.MapRange(1, m) }

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range rt.MapRange(1, m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range rt.MapRange(1, m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return maps.Clone(m) }
func Copy[A ~map[K]V, B ~map[K]V, K comparable, V any](dst A, src B) { maps.Copy(dst, src) }
func Equal[A, B ~map[K]V, K, V comparable](a A, b B) bool            { return maps.Equal(a, b) }
func EqualFunc[A ~map[K]V, B ~map[K]W, K comparable, V, W any](a A, b B, eq func(V, W) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.MapRange(1, m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V         { return maps.Collect(seq) }
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }
