//go:build go1.23

// Package simmaps is the maps package with iteration orders the simulator decides.
package simmaps

import (
	"iter"
	"maps"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it, k, v := simrt.Iter(m); it.Next(&k, &v); {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it, k, v := simrt.Iter(m); it.Next(&k, &v); {
			if !yield(v) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it, k, v := simrt.Iter(m); it.Next(&k, &v); {
			if !yield(k, v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M                       { return maps.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2)     { maps.Copy(d, s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool            { return maps.Equal(a, b) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) { maps.DeleteFunc(m, f) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V])     { maps.Insert(m, s) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V             { return maps.Collect(s) }
