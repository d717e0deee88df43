// Package vmaps stands in for package maps: the order of iteration is the
// model checker's.
package vmaps

import (
	"iter"
	std "maps"

	"verif/mc/gomc"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := gomc.RangeMap("maps.All", m); it.Next(); {
			if !yield(it.Key(), it.Value()) {
				return
			}
		}
	}
}

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := gomc.RangeMap("maps.Keys", m); it.Next(); {
			if !yield(it.Key()) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := gomc.RangeMap("maps.Values", m); it.Next(); {
			if !yield(it.Value()) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		gomc.MW("maps.Insert", m)[gomc.K(k)] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	Insert(m, seq)
	return m
}

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	return std.Clone(gomc.MR("maps.Clone", m))
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	std.Copy(gomc.MW("maps.Copy", dst), gomc.MR("maps.Copy", src))
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for it := gomc.RangeMap("maps.DeleteFunc", m); it.Next(); {
		if del(it.Key(), it.Value()) {
			delete(gomc.MW("maps.DeleteFunc", m), it.Key())
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool {
	return std.Equal(gomc.MR("maps.Equal", m1), gomc.MR("maps.Equal", m2))
}

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return std.EqualFunc(gomc.MR("maps.EqualFunc", m1), gomc.MR("maps.EqualFunc", m2), eq)
}
