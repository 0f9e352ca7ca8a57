//go:build go1.23

package maps

import (
	"iter"
	rm "maps"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range simrt.MapEntries(m) {
			if _, ok := e.M[e.K]; ok && !yield(e.K) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range simrt.MapEntries(m) {
			if v, ok := e.M[e.K]; ok && !yield(v) {
				return
			}
		}
	}
}

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range simrt.MapEntries(m) {
			if v, ok := e.M[e.K]; ok && !yield(e.K, v) {
				return
			}
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool { return rm.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return rm.EqualFunc(a, b, eq)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return rm.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) {
	rm.Copy(d, s)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) { rm.DeleteFunc(m, del) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V               { return rm.Collect(s) }
func Insert[Map ~map[K]V, K comparable, V any](m Map, s iter.Seq2[K, V])   { rm.Insert(m, s) }
