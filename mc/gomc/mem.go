package gomc

import (
	"bufio"
	"bytes"
	"cmp"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"unsafe"
)

type access struct {
	tid   int
	clock uint32
	mask  uint8
	write bool
	site  string
}

type shadow struct {
	keep unsafe.Pointer
	acc  []access
	obj  Obj
}

// R notes a read of *p.
func R[T any](site string, p *T) *T {
	if e := x; e != nil && e.ctl.trackMem && p != nil {
		e.touch(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return p
}

// W notes a write of *p.
func W[T any](site string, p *T) *T {
	if e := x; e != nil && e.ctl.trackMem && p != nil {
		e.touch(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

// Set writes v to *p, as a step of its own.
func Set[T any](site string, p *T) func(v T) {
	return func(v T) { *W(site, p) = v }
}

// WA notes a write of *p that has just been made.
func WA[T any](site string, p *T) { W(site, p) }

// RS notes a read of the elements of s.
func RS[S ~[]T, T any](site string, s S) S {
	if e := x; e != nil && e.ctl.trackMem && len(s) > 0 {
		e.touch(unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), false, site)
	}
	return s
}

// WS notes a write of the elements of s.
func WS[S ~[]T, T any](site string, s S) S {
	if e := x; e != nil && e.ctl.trackMem && len(s) > 0 {
		e.touch(unsafe.Pointer(&s[0]), unsafe.Sizeof(s[0])*uintptr(len(s)), true, site)
	}
	return s
}

// AP notes that n elements are about to be appended to s.
func AP[S ~[]E, E any](site string, s S, n int) S {
	if e := x; e != nil && e.ctl.trackMem && n > 0 && len(s)+n <= cap(s) {
		WS(site, s[len(s):len(s)+n])
	}
	return s
}

// APS is append(s, t...).
func APS[S ~[]E, E any](site string, s S, t []E) S {
	return append(AP(site, s, len(t)), RS(site, t)...)
}

// IO notes the use of v, when it is a buffer or reader of the standard library.
func IO[T any](site string, v T) T {
	if e := x; e != nil && e.ctl.trackMem {
		switch p := any(v).(type) {
		case *bytes.Buffer:
			W(site, p)
		case *bytes.Reader:
			W(site, p)
		case *strings.Builder:
			W(site, p)
		case *strings.Reader:
			W(site, p)
		case *bufio.Reader:
			W(site, p)
		case *bufio.Writer:
			W(site, p)
		}
	}
	return v
}

// MR notes a read of map m, MW a write.
func MR[M ~map[K]V, K comparable, V any](site string, m M) M {
	if e := x; e != nil && e.ctl.trackMem && m != nil {
		e.touch(chanPtr(m), 8, false, site)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](site string, m M) M {
	if e := x; e != nil && e.ctl.trackMem && m != nil {
		e.touch(chanPtr(m), 8, true, site)
	}
	return m
}

func (e *Exec) touch(p unsafe.Pointer, size uintptr, write bool, site string) {
	if size == 0 || e.abort {
		return
	}
	if e.ctl.racy[site] {
		// this access is known to race: make it a scheduling point
		s := e.shadowOf(uintptr(p)&^7, p)
		if write {
			PointNoHB(&s.obj, site)
		} else {
			PointReadNoHB(&s.obj, site)
		}
	}
	t := e.cur
	a := uintptr(p)
	end := a + size
	if size > 256 {
		end = a + 256
	}
	for w := a &^ 7; w < end; w += 8 {
		mask := uint8(0xff)
		if w < a {
			mask &= 0xff << (a - w)
		}
		if w+8 > end {
			mask &= 0xff >> (w + 8 - end)
		}
		s := e.shadowOf(w, p)
		n := 0
		for _, o := range s.acc {
			if o.mask&mask != 0 && o.tid != t.id && (o.write || write) {
				if o.tid >= len(t.vc) || o.clock > t.vc[o.tid] {
					e.race(o, site, write)
				}
			}
			// drop what the new access subsumes
			if o.tid == t.id && o.mask&^mask == 0 && (write || !o.write) {
				continue
			}
			s.acc[n] = o
			n++
		}
		s.acc = append(s.acc[:n], access{t.id, t.vc[t.id], mask, write, site})
	}
}

func (e *Exec) shadowOf(w uintptr, p unsafe.Pointer) *shadow {
	s := e.mem[w]
	if s == nil {
		s = &shadow{keep: p}
		e.mem[w] = s
	}
	return s
}

func (e *Exec) race(o access, site string, write bool) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	a, b := k(o.write)+" "+o.site, k(write)+" "+site
	if a > b {
		a, b = b, a
	}
	if e.races == nil {
		e.races = map[string]bool{}
	}
	e.races[a+" / "+b] = true
	e.raceSites(o.site, site)
}

func (e *Exec) raceSites(a, b string) {
	if e.racySites == nil {
		e.racySites = map[string]bool{}
	}
	e.racySites[a] = true
	e.racySites[b] = true
}

// MapKeys returns the keys of m in a fixed order, so that executions replay.
func MapKeys[M ~map[K]V, K comparable, V any](site string, m M) []K {
	if len(m) == 0 {
		return nil
	}
	MR(site, m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if e := x; e != nil && !e.abort && e.ctl.mapOrder && len(keys) > 1 {
		// every order is possible: choose one
		for i := 0; i < len(keys)-1; i++ {
			j := i + Choose(len(keys)-i, "map order "+site)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// sortKeys puts keys in their fixed order.
func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	if ks, ok := any(keys).([]uint32); ok {
		slices.Sort(ks)
		return
	}
	switch reflect.TypeFor[K]().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int())
		})
		return
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint())
		})
		return
	case reflect.String:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
		return
	}
	order := Local(keySeq{}, newKeySeq).(map[any]int)
	type ranked struct {
		k K
		r string
	}
	rs := make([]ranked, len(keys))
	for i, k := range keys {
		rs[i] = ranked{k, keyRank(k)}
	}
	slices.SortStableFunc(rs, func(a, b ranked) int {
		if a.r != b.r {
			return cmp.Compare(a.r, b.r)
		}
		return cmp.Compare(order[any(a.k)], order[any(b.k)])
	})
	for i := range rs {
		keys[i] = rs[i].k
	}
}

type keySeq struct{}

func newKeySeq() any { return map[any]int{} }

// K notes that k is used as a key of a map.
func K[T comparable](k T) T {
	order := Local(keySeq{}, newKeySeq).(map[any]int)
	if _, ok := order[k]; !ok {
		order[k] = len(order) + 1
	}
	return k
}

// keyRank gives keys a stable rank: numbers and strings by value, pointers and
// interfaces by the contents they lead to.
func keyRank(k any) string {
	v := reflect.ValueOf(k)
	return rank(v, 0)
}

func rank(v reflect.Value, depth int) string {
	if depth > 6 {
		return ""
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int()+1<<62)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + rank(v.Elem(), depth+1)
	case reflect.Struct:
		s := ""
		for i := 0; i < v.NumField(); i++ {
			s += rank(v.Field(i), depth+1) + ","
		}
		return s
	case reflect.Slice, reflect.Array:
		s := ""
		for i := 0; i < v.Len() && i < 8; i++ {
			s += rank(v.Index(i), depth+1) + ","
		}
		return s
	}
	return ""
}

// MapIter iterates over a map in a fixed (or chosen) order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap is `range m`.
func RangeMap[M ~map[K]V, K comparable, V any](site string, m M) *MapIter[K, V] {
	return &MapIter[K, V]{m: m, keys: MapKeys(site, m), i: -1}
}

func (it *MapIter[K, V]) Next() bool {
	for it.i++; it.i < len(it.keys); it.i++ {
		if _, ok := it.m[it.keys[it.i]]; ok {
			return true
		}
	}
	return false
}

func (it *MapIter[K, V]) Key() K   { return it.keys[it.i] }
func (it *MapIter[K, V]) Value() V { return it.m[it.keys[it.i]] }
