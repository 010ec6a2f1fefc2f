package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S10: on every path of an Equal method the answer is true only if all parts
// were found equal and false only if some part was found different; on every
// path of a Blank method likewise, compared with the blank value.

type eqModel struct {
	in *Interp
	n  int
}

// build makes an arbitrary value of type T; lists of structures have n
// elements.
func (m *eqModel) build(st *State, T types.Type, label string, n int) Val {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if hiddenStruct(T) {
			return st.expand(Opaque{T: T, Label: label})
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = m.build(st, u.Field(i).Type(), label+"."+u.Field(i).Name(), n)
		}
		return Struct{f}
	case *types.Slice:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			a := &Arr{elem: u.Elem(), n: K(int64(n)), label: label}
			for i := 0; i < n; i++ {
				a.ents = append(a.ents, Ent{K(int64(i)), m.build(st, u.Elem(), fmt.Sprintf("%s[%d]", label, i), n)})
			}
			id := ObjID(label)
			st.setObj(&Obj{id: id, T: u.Elem(), kind: 'a', arr: a, site: label})
			return Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: K(int64(n)), Cap: K(int64(n))}
		}
	}
	return st.expandAll(Opaque{T: T, Label: label})
}

// same: 1 the values are known equal, 0 known different, -1 not known.
func (m *eqModel) same(st *State, T types.Type, a, b Val, where string) (int, string) {
	a, b = st.expandAll(a), st.expandAll(b)
	switch u := T.Underlying().(type) {
	case *types.Struct:
		x, ok := a.(Struct)
		y, ok2 := b.(Struct)
		if !ok || !ok2 {
			return -1, where
		}
		all, why := 1, ""
		for i := range x.F {
			r, w := m.same(st, u.Field(i).Type(), x.F[i], y.F[i], where+"."+u.Field(i).Name())
			if r == 0 {
				return 0, w
			}
			if r < 0 && all == 1 {
				all, why = -1, w
			}
		}
		return all, why
	case *types.Slice:
		x, ok := a.(Slice)
		y, ok2 := b.(Slice)
		if !ok || !ok2 {
			return -1, where
		}
		if isByteType(u.Elem()) {
			ta, tb := m.in.text(st, x), m.in.text(st, y)
			r := st.eval(st.strCond(ta, tb))
			if r == 1 {
				return 1, ""
			}
			if st.poly.entails(ta.n.neg()) && st.poly.entails(tb.n.neg()) {
				return 1, ""
			}
			i, j := ta, tb
			if i.id > j.id {
				i, j = j, i
			}
			if v, ok := st.facts[fmt.Sprintf("ipeq:t%d:t%d", i.id, j.id)]; ok && strings.HasSuffix(T.String(), "net.IP") {
				if v {
					return 1, ""
				}
				return 0, where
			}
			if st.poly.refutes(ta.n.sub(tb.n)) || st.poly.refutes(tb.n.sub(ta.n)) || st.eval(cEQ(ta.n.sub(tb.n))) == 0 {
				return 0, where
			}
			return r, where
		}
		if r := st.eval(cEQ(x.Len.sub(y.Len))); r != 1 {
			return r, where
		}
		if !x.Len.isK() || !y.Len.isK() || len(x.Objs) != 1 || len(y.Objs) != 1 {
			return -1, where
		}
		all, why := 1, ""
		ox, oy := st.objOf(x.Objs[0]), st.objOf(y.Objs[0])
		for i := int64(0); i < x.Len.c; i++ {
			r, w := m.same(st, u.Elem(), st.readElem(ox, x.Off.addK(i)), st.readElem(oy, y.Off.addK(i)), fmt.Sprintf("%s[%d]", where, i))
			if r == 0 {
				return 0, w
			}
			if r < 0 && all == 1 {
				all, why = -1, w
			}
		}
		return all, why
	}
	return st.eval(m.in.eqCond(st, a, b)), where
}

func init() {
	checks["S10"] = func(p *Prog, r *Result) {
		r.explanation = "Every path of every exported Equal and Blank method of the package is followed on arbitrary values, keeping which comparisons of parts held on it. A path answering true must have found every part equal (equal to the blank value for Blank), a path answering false must have found one part different. Lists are compared with zero to three elements on either side. Addresses count as equal when net.IP.Equal says so."
		var fs []*ssa.Function
		for _, f := range p.apiRoots() {
			if pkgOf(f) != sdpPath || f.Signature.Recv() == nil {
				continue
			}
			res := f.Signature.Results()
			if res.Len() != 1 || !types.Identical(res.At(0).Type().Underlying(), types.Typ[types.Bool]) {
				continue
			}
			pr := f.Signature.Params()
			switch {
			case f.Name() == "Equal" && pr.Len() == 1 && types.Identical(deref(pr.At(0).Type()), deref(f.Signature.Recv().Type())):
				fs = append(fs, f)
			case f.Name() == "Blank" && pr.Len() == 0:
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
		r.require("Equal and Blank methods", len(fs), 2)
		paths := 0
		for _, f := range fs {
			T := deref(f.Signature.Recv().Type())
			max := 0
			if listInside(T) {
				max = 3
			}
			for na := 0; na <= max; na++ {
				for nb := 0; nb <= max; nb++ {
					if f.Name() == "Blank" && nb > 0 {
						continue
					}
					paths += eqRun(p, r, f, T, na, nb)
				}
			}
			r.sample("%s", fname(f))
		}
		r.coverage["paths"] = paths
		r.require("answers", paths, 4)
	}
}

func listInside(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if listInside(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Struct)
		return ok
	}
	return false
}

func eqRun(p *Prog, r *Result, f *ssa.Function, T types.Type, na, nb int) (paths int) {
	in := newInterp(p, &Hooks{})
	in.ff = p.fieldFacts()
	in.maxStep = 100000
	in.modular = true
	in.exact = 12
	in.exactCap = 300
	m := &eqModel{in: in}
	defer func() {
		if e := recover(); e != nil {
			why := fmt.Sprint(e)
			if g, ok := e.(giveUp); ok {
				why = g.why
			}
			r.report("undecided", fname(f), "-", "%s", why)
		}
	}()
	st := newState(in)
	pass := func(v Val, PT types.Type, id ObjID) Val {
		if _, ok := PT.Underlying().(*types.Pointer); ok {
			st.setObj(&Obj{id: id, T: T, kind: 'v', v: v, site: string(id)})
			return Ptr{N: nonNil, Locs: []Loc{{obj: id}}}
		}
		return v
	}
	a := m.build(st, T, "a", na)
	var b Val
	args := []Val{pass(a, f.Params[0].Type(), "recv")}
	if f.Name() == "Blank" {
		b = st.zero(T)
	} else {
		b = m.build(st, T, "b", nb)
		args = append(args, pass(b, f.Params[1].Type(), "arg"))
	}
	parts := map[Sym]bool{}
	m.partSyms(st, a, parts)
	m.partSyms(st, b, parts)
	in.push(st, f, args, nil, "root:"+fname(f))
	for _, o := range in.runFn(st) {
		if o.panicked || len(o.vals) != 1 {
			continue
		}
		bv, ok := o.vals[0].(Bool)
		if !ok {
			continue
		}
		for _, ans := range []bool{true, false} {
			s := o.st.clone()
			c := bv.C
			if !ans {
				c = c.not()
			}
			if !s.assume(c) || s.poly.unsat() {
				continue
			}
			paths++
			r.obligations++
			v, w := m.same(s, T, a, b, "")
			if v == -1 && !ans && !m.numbersMayAgree(s, a, b) {
				continue
			}
			switch {
			case s.inexact || v == 1 && ans || v == 0 && !ans:
			case v == -1 && strangeFacts(s, ans, parts):
				r.report("undecided", fname(f), p.pos(f.Pos()), "a comparison is not understood")
			case ans && v == 0:
				r.report("equal-despite-difference", fname(f), p.pos(f.Pos()), "there is a path on which %s differs and the answer is true", part(w))
			case ans:
				r.report("part-not-compared", fname(f), p.pos(f.Pos()), "there is a path on which %s was not found equal and the answer is true", part(w))
			default:
				r.report("different-despite-equality", fname(f), p.pos(f.Pos()), "there is a path on which no part was found different and the answer is false")
			}
		}
	}
	return
}

func part(w string) string {
	if w == "" {
		return "the value"
	}
	return "the part " + strings.TrimPrefix(w, ".")
}

// numbersMayAgree: the path allows all numbers of the two values to be equal
// at the same time.
func (m *eqModel) numbersMayAgree(s *State, a, b Val) bool {
	t := s.clone()
	ok := true
	var walk func(a, b Val)
	walk = func(a, b Val) {
		switch x := s.expandAll(a).(type) {
		case Struct:
			if y, is := s.expandAll(b).(Struct); is && len(y.F) == len(x.F) {
				for i := range x.F {
					walk(x.F[i], y.F[i])
				}
			}
		case Int:
			if y, is := b.(Int); is && ok {
				ok = t.assume(cEQ(x.L.sub(y.L)))
			}
		}
	}
	walk(a, b)
	if !ok || t.poly.unsat() {
		return false
	}
	for _, d := range t.diseq {
		if t.eval(cEQ(d)) == 1 {
			return false
		}
	}
	return true
}

// partSyms collects the numbers and lengths that are parts of the value.
func (m *eqModel) partSyms(st *State, v Val, to map[Sym]bool) {
	lin := func(l Lin) {
		for _, t := range l.t {
			to[t.s] = true
		}
	}
	switch v := st.expandAll(v).(type) {
	case Struct:
		for _, f := range v.F {
			m.partSyms(st, f, to)
		}
	case Int:
		lin(v.L)
	case Str:
		lin(v.T.n)
	case Slice:
		lin(v.Off)
		lin(v.Len)
		lin(v.Cap)
		if len(v.Objs) == 1 {
			if o := st.objOf(v.Objs[0]); o != nil && o.arr != nil && !isByteType(o.T) {
				for _, e := range o.arr.ents {
					m.partSyms(st, e.v, to)
				}
			}
		}
	}
}

// strangeFacts: a condition of the path is about something else than the
// equality of parts.
func strangeFacts(st *State, ans bool, parts map[Sym]bool) bool {
	for k := range st.facts {
		if !strings.HasPrefix(k, "eq:") && !strings.HasPrefix(k, "ipeq:") && (!ans || !strings.HasPrefix(k, "nil:")) {
			return true
		}
	}
	for s := range st.sets {
		if !parts[s] {
			return true
		}
	}
	for _, c := range append(append([]Lin{}, st.diseq...), st.poly.cs...) {
		for _, t := range c.t {
			if !parts[t.s] {
				return true
			}
		}
	}
	return false
}
