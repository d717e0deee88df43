package hlib

import "fmt"

// RegOp is an operation on a number: 'w' sets it to V, 'a' adds V, 'r' read V.
type RegOp struct {
	K byte
	V int
}

// Serial tells whether some interleaving of the threads' operations, each
// taking effect at once, explains what they read and the final value.
func Serial(threads [][]RegOp, init, final int) bool {
	pos := make([]int, len(threads))
	var rec func(v int) bool
	rec = func(v int) bool {
		done := true
		for i, t := range threads {
			if pos[i] >= len(t) {
				continue
			}
			done = false
			o := t[pos[i]]
			nv := v
			switch o.K {
			case 'w':
				nv = o.V
			case 'a':
				nv = v + o.V
			case 'r':
				if v != o.V {
					continue
				}
			}
			pos[i]++
			if rec(nv) {
				pos[i]--
				return true
			}
			pos[i]--
		}
		return done && v == final
	}
	return rec(init)
}

// Perms calls f with every permutation of 0..n-1.
func Perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// Merge tells whether got is an interleaving of the given sequences.
func Merge(got []string, seqs ...[]string) string {
	pos := make([]int, len(seqs))
	// the elements are distinct in our uses: greedy is exact
	for i, g := range got {
		ok := false
		for k, s := range seqs {
			if pos[k] < len(s) && s[pos[k]] == g {
				pos[k]++
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("item %d (%s) is out of place: lost, repeated, reordered or made up (all: %v)", i+1, g, got)
		}
	}
	for k, s := range seqs {
		if pos[k] < len(s) {
			return fmt.Sprintf("%s is missing (got %v)", s[pos[k]], got)
		}
	}
	return ""
}
