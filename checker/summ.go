package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Summ is a symbol-free description of a set of values: used for container
// contents, field invariants and partition keys. nil means: no value at all.
type Summ struct {
	kind   byte // 'i' int, 'b' bool, 's' string, 'p' pointer, 'l' slice, 'f' iface, 'c' func, 't' struct, 'm' misc, 'o' anything of the type
	lo, hi int64
	set    []int64 // possible ints, if non-nil
	bools  byte    // 1 false 2 true
	strs   []string
	strTop bool
	deps   []string
	excl   string
	null   tri
	objs   []ObjID // pointer targets / slice backing objects
	inObj  bool    // or some input object
	llo    int64   // slice length bounds
	lhi    int64
	clo    int64
	alts   []SAlt
	other  bool
	fns    []FnVal
	f      []*Summ
	label  string
	T      types.Type // 'o'
}

type SAlt struct {
	T types.Type
	S *Summ
}

const maxSet = 40

func summAny(T types.Type, label string, deps []string) *Summ {
	return &Summ{kind: 'o', T: T, label: label, deps: deps}
}

func unionInts(a, b []int64) []int64 {
	if a == nil || b == nil {
		return nil
	}
	m := map[int64]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	if len(m) > maxSet {
		return nil
	}
	out := make([]int64, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func unionStrs(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func unionObjs(a, b []ObjID) []ObjID {
	out := append([]ObjID{}, a...)
	for _, x := range b {
		dup := false
		for _, y := range a {
			if x == y {
				dup = true
			}
		}
		if !dup {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// joinSumm is the least upper bound; widen makes growing bounds jump.
func joinSumm(a, b *Summ, widen bool) *Summ {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	if a.kind == 'o' || b.kind == 'o' || a.kind != b.kind {
		T := a.T
		if T == nil {
			T = b.T
		}
		if a.kind != 'o' && b.kind != 'o' {
			return &Summ{kind: 'm', deps: unionDeps(a.allDeps(), b.allDeps())}
		}
		if T == nil {
			return &Summ{kind: 'm', deps: unionDeps(a.allDeps(), b.allDeps())}
		}
		return &Summ{kind: 'o', T: T, label: a.label, deps: unionDeps(a.allDeps(), b.allDeps())}
	}
	r := &Summ{kind: a.kind, deps: unionDeps(a.deps, b.deps), label: a.label}
	switch a.kind {
	case 'i':
		r.lo, r.hi = a.lo, a.hi
		r.set = unionInts(a.set, b.set)
		if b.lo < r.lo {
			r.lo = b.lo
			if widen && r.set == nil {
				if r.lo >= 0 {
					r.lo = 0
				} else {
					r.lo = noLo
				}
			}
		}
		if b.hi > r.hi {
			r.hi = b.hi
			if widen && r.set == nil {
				r.hi = noHi
				for _, t := range []int64{255, 8 << 20} {
					if b.hi <= t && !noLadder {
						r.hi = t
						break
					}
				}
			}
		}
	case 'b':
		r.bools = a.bools | b.bools
	case 's':
		r.strTop = a.strTop || b.strTop
		if !r.strTop {
			r.strs = unionStrs(a.strs, b.strs)
			if len(r.strs) > 40 {
				r.strTop = true
				r.strs = nil
			}
		}
		r.excl = exclOf(a, b)
	case 'p':
		r.null = joinTri(a.null, b.null)
		r.objs = unionObjs(a.objs, b.objs)
		r.inObj = a.inObj || b.inObj
	case 'l':
		r.null = joinTri(a.null, b.null)
		r.objs = unionObjs(a.objs, b.objs)
		r.inObj = a.inObj || b.inObj
		r.llo, r.lhi, r.clo = a.llo, a.lhi, a.clo
		if b.llo < r.llo {
			r.llo = b.llo
			if widen {
				r.llo = 0
			}
		}
		if b.lhi > r.lhi {
			r.lhi = b.lhi
			if widen {
				r.lhi = maxLen
			}
		}
		if b.clo < r.clo {
			r.clo = b.clo
			if widen {
				r.clo = 0
			}
		}
	case 'f':
		r.null = joinTri(a.null, b.null)
		r.other = a.other || b.other
		for _, x := range a.alts {
			r.alts = append(r.alts, x)
		}
		for _, y := range b.alts {
			hit := false
			for i := range r.alts {
				if types.Identical(r.alts[i].T, y.T) {
					r.alts[i].S = joinSumm(r.alts[i].S, y.S, widen)
					hit = true
				}
			}
			if !hit {
				r.alts = append(r.alts, y)
			}
		}
		sort.Slice(r.alts, func(i, j int) bool { return r.alts[i].T.String() < r.alts[j].T.String() })
	case 'c':
		r.null = joinTri(a.null, b.null)
		r.other = a.other || b.other
		r.fns = append(r.fns, a.fns...)
		for _, y := range b.fns {
			hit := false
			for _, x := range r.fns {
				if x.Fn == y.Fn {
					hit = true
				}
			}
			if !hit {
				r.fns = append(r.fns, y)
			}
		}
	case 't':
		if len(a.f) != len(b.f) {
			return &Summ{kind: 'm', deps: unionDeps(a.allDeps(), b.allDeps())}
		}
		for i := range a.f {
			r.f = append(r.f, joinSumm(a.f[i], b.f[i], widen))
		}
	}
	return r
}

func exclOf(a, b *Summ) string {
	cand := a.excl + b.excl
	if len(a.strs) > 0 || len(b.strs) > 0 {
		cand += "\r\n :;=/"
	}
	ex := func(s *Summ, c rune) bool {
		if s.strTop {
			return containsRune(s.excl, c)
		}
		for _, x := range s.strs {
			if containsRune(x, c) {
				return false
			}
		}
		return true
	}
	out := ""
	for _, c := range cand {
		if !containsRune(out, c) && ex(a, c) && ex(b, c) {
			out += string(c)
		}
	}
	return out
}

func containsRune(s string, c rune) bool {
	for _, r := range s {
		if r == c {
			return true
		}
	}
	return false
}

func (s *Summ) allDeps() []string {
	if s == nil {
		return nil
	}
	d := s.deps
	for _, x := range s.f {
		d = unionDeps(d, x.allDeps())
	}
	for _, x := range s.alts {
		d = unionDeps(d, x.S.allDeps())
	}
	return d
}

func (s *Summ) key() string {
	if s == nil {
		return "-"
	}
	k := fmt.Sprintf("%c%d,%d,%v,%d,%q,%v,%v,%q,%d,%v,%v,%d,%d,%d,%v,%s", s.kind, s.lo, s.hi, s.set, s.bools, s.strs, s.strTop, s.deps, s.excl, s.null, s.objs, s.inObj, s.llo, s.lhi, s.clo, s.other, "")
	for _, x := range s.alts {
		k += "{" + x.T.String() + x.S.key() + "}"
	}
	for _, x := range s.fns {
		k += "<" + x.Fn.String() + ">"
	}
	for _, x := range s.f {
		k += "(" + x.key() + ")"
	}
	return k
}
