package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- walking

type walker struct {
	sym  func(Lin)
	term func(*Term)
	obj  func(ObjID)
	ns   func(int)
	atom func(string)
	opq  func(string)
	seen map[*Term]bool
}

func (w *walker) lin(l Lin) {
	if w.sym != nil {
		w.sym(l)
	}
}

func (w *walker) tm(t *Term) {
	if t == nil || w.seen[t] {
		return
	}
	w.seen[t] = true
	if w.term != nil {
		w.term(t)
	}
	w.lin(t.n)
	for _, l := range t.lins {
		w.lin(l)
	}
	for _, a := range t.args {
		w.tm(a)
	}
}

func (w *walker) null(n Null) {
	if n.t == triMaybe && w.ns != nil {
		w.ns(n.ns)
	}
}

func (w *walker) arr(a *Arr) {
	w.lin(a.n)
	for _, e := range a.ents {
		w.lin(e.idx)
		w.val(e.v)
	}
	for _, s := range a.segs {
		w.lin(s.lo)
		w.lin(s.hi)
		w.lin(s.slo)
		w.tm(s.src)
	}
	w.summ(a.def)
}

func (w *walker) summ(s *Summ) {
	if s == nil {
		return
	}
	for _, o := range s.objs {
		if w.obj != nil {
			w.obj(o)
		}
	}
	for _, x := range s.f {
		w.summ(x)
	}
	for _, x := range s.alts {
		w.summ(x.S)
	}
	for _, x := range s.fns {
		for _, b := range x.Binds {
			w.val(b)
		}
	}
}

func (w *walker) val(v Val) {
	switch x := v.(type) {
	case Int:
		w.lin(x.L)
	case Bool:
		w.cond(x.C)
	case Str:
		w.tm(x.T)
	case Ptr:
		w.null(x.N)
		for _, l := range x.Locs {
			if w.obj != nil {
				w.obj(l.obj)
			}
			for _, s := range l.path {
				if s.isIdx {
					w.lin(s.idx)
				}
			}
		}
	case Slice:
		w.null(x.N)
		for _, o := range x.Objs {
			if w.obj != nil {
				w.obj(o)
			}
		}
		w.lin(x.Off)
		w.lin(x.Len)
		w.lin(x.Cap)
	case Iface:
		w.null(x.N)
		for _, a := range x.Alts {
			w.val(a.V)
		}
	case Struct:
		for _, f := range x.F {
			w.val(f)
		}
	case Tuple:
		for _, f := range x.V {
			w.val(f)
		}
	case Func:
		w.null(x.N)
		for _, f := range x.Fns {
			for _, b := range f.Binds {
				w.val(b)
			}
		}
	case ArrV:
		w.arr(x.A)
	case SummV:
		w.summ(x.S)
	case Opaque:
		if w.opq != nil && x.Label != "" {
			w.opq(x.Label)
		}
		w.summ(x.Sum)
	case RangeIter:
		w.val(x.X)
		w.lin(x.Pos)
	}
}

func (w *walker) cond(c Cond) {
	if c.op == 'g' || c.op == 'e' {
		w.lin(c.L)
	}
	if c.op == 'a' {
		if w.atom != nil {
			w.atom(c.at)
		}
		if c.ns != 0 && w.ns != nil {
			w.ns(c.ns)
		}
		for _, l := range c.zl {
			w.lin(l)
		}
		w.tm(c.str)
	}
}

func (w *walker) object(o *Obj) {
	if o.arr != nil {
		w.arr(o.arr)
	}
	if o.mp != nil {
		for _, e := range o.mp.ents {
			w.val(e.k)
			w.val(e.v)
		}
		w.lin(o.mp.n)
		w.summ(o.mp.kdef)
		w.summ(o.mp.vdef)
	}
	w.val(o.v)
}

// walk visits everything the state holds.
func (st *State) walk(w *walker) {
	if w.seen == nil {
		w.seen = map[*Term]bool{}
	}
	for f := st.fr; f != nil; f = f.parent {
		for _, r := range f.regs {
			if r != nil {
				w.val(r)
			}
		}
		for _, d := range f.defers {
			w.val(d.fn)
			for _, a := range d.args {
				w.val(a)
			}
		}
	}
	for _, id := range sortedObjs(st.heap) {
		w.object(st.heap[id])
	}
	for _, k := range sortedGhost(st.ghost) {
		w.val(st.ghost[k])
	}
}

func sortedGhost(g map[string]Val) []string {
	out := make([]string, 0, len(g))
	for k := range g {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// gc drops unreachable fresh objects and projects dead symbols out of the
// constraints.
// reachable are the objects references exist to.
func (st *State) reachable() map[ObjID]bool {
	reach := map[ObjID]bool{}
	var q []ObjID
	w := &walker{seen: map[*Term]bool{}}
	w.obj = func(o ObjID) {
		if !reach[o] {
			reach[o] = true
			q = append(q, o)
		}
	}
	for f := st.fr; f != nil; f = f.parent {
		for _, r := range f.regs {
			if r != nil {
				w.val(r)
			}
		}
		for _, d := range f.defers {
			w.val(d.fn)
			for _, a := range d.args {
				w.val(a)
			}
		}
	}
	for _, k := range sortedGhost(st.ghost) {
		w.val(st.ghost[k])
	}
	for id, o := range st.heap {
		if (o.input && !counted(string(id))) || st.in.isGlobal(id) {
			w.obj(id)
		}
	}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if o, ok := st.heap[id]; ok {
			w.object(o)
		}
	}
	return reach
}

func (st *State) gc() {
	reach := st.reachable()
	for _, id := range sortedObjs(st.heap) {
		if !reach[id] {
			st.delObj(id)
		}
	}
	st.project()
}

func (st *State) liveSyms() (map[Sym]bool, map[int]bool, map[int]bool, map[string]bool) {
	live := map[Sym]bool{}
	ns := map[int]bool{}
	tm := map[int]bool{}
	at := map[string]bool{}
	w := &walker{seen: map[*Term]bool{}}
	w.sym = func(l Lin) {
		for _, t := range l.t {
			live[t.s] = true
		}
	}
	w.ns = func(n int) { ns[n] = true }
	w.term = func(t *Term) { tm[t.id] = true }
	w.atom = func(s string) { at[s] = true }
	labels := map[string]bool{}
	w.opq = func(l string) { labels[l] = true }
	st.walk(w)
	// parts of values that were not taken apart in the heap
	if len(labels) > 0 {
		check := func(l Lin) {
			for _, t := range l.t {
				if !live[t.s] && ofLabel(t.s.info().name, labels) {
					live[t.s] = true
				}
			}
		}
		for _, c := range st.poly.cs {
			check(c)
		}
		for _, d := range st.diseq {
			check(d)
		}
	}
	return live, ns, tm, at
}

// keepMultiples: a live value known to be a multiple stays one.
func keepMultiples(cs []Lin, live map[Sym]bool) {
	eqs := map[string]bool{}
	for _, c := range cs {
		if len(c.t) != 2 {
			continue
		}
		for i, t := range c.t {
			o := c.t[1-i]
			if (t.k > 1 || t.k < -1) && (o.k == 1 || o.k == -1) && live[o.s] && !live[t.s] && strings.HasPrefix(t.s.info().name, "quo(") {
				if eqs[c.neg().key()] {
					live[t.s] = true
				}
				eqs[c.key()] = true
			}
		}
	}
}

func ofLabel(n string, labels map[string]bool) bool {
	if strings.HasPrefix(n, "len(") && strings.HasSuffix(n, ")") {
		n = n[4 : len(n)-1]
		if k := strings.IndexByte(n, ':'); k > 0 && n[0] == 't' && strings.Trim(n[1:k], "0123456789") == "" {
			n = n[k+1:]
		}
	}
	for {
		if labels[n] {
			return true
		}
		i := strings.LastIndexByte(n, '.')
		if i < 0 {
			return false
		}
		n = n[:i]
	}
}

func (st *State) project() {
	live, _, tm, _ := st.liveSyms()
	// bytes of live terms
	for s := range syms.byTerm {
		if tm[syms.byTerm[s]] {
			live[s] = true
		}
	}
	keepMultiples(st.poly.cs, live)
	dead := false
	for _, c := range st.poly.cs {
		for _, t := range c.t {
			if !live[t.s] {
				dead = true
			}
		}
	}
	if dead {
		var cs []Lin
		extra := map[Sym]bool{}
		for _, c := range st.poly.cs {
			cs = append(cs, c)
			for _, t := range c.t {
				if !live[t.s] {
					extra[t.s] = true
				}
			}
		}
		for s := range extra {
			in := s.info()
			if in.lo != noLo {
				cs = append(cs, Lin{c: -in.lo, t: []lterm{{s, 1}}})
			}
			if in.hi != noHi {
				cs = append(cs, Lin{c: in.hi, t: []lterm{{s, -1}}})
			}
		}
		out, bot := eliminate(cs, func(s Sym) bool { return live[s] })
		p := st.wPoly()
		if bot {
			p.bot = true
		} else {
			p.cs = pruneRedundant(out)
		}
	}
	if len(st.diseq) > 0 {
		var keep []Lin
		for _, d := range st.diseq {
			ok := true
			for _, t := range d.t {
				if !live[t.s] {
					ok = false
				}
			}
			if ok {
				keep = append(keep, d)
			}
		}
		st.diseq = keep
	}
	for s := range st.sets {
		if !live[s] {
			st.setSet(s, nil)
		}
	}
}

// pruneRedundant drops constraints that follow from intrinsic bounds, and
// caps the system.
func pruneRedundant(cs []Lin) []Lin {
	var out []Lin
	for _, c := range cs {
		v := c.c
		ok := true
		for _, t := range c.t {
			in := t.s.info()
			if t.k > 0 {
				if in.lo == noLo || in.lo < -(1<<50) {
					ok = false
					break
				}
				v += t.k * in.lo
			} else {
				if in.hi == noHi || in.hi > 1<<50 {
					ok = false
					break
				}
				v += t.k * in.hi
			}
		}
		if ok && v >= 0 {
			continue
		}
		out = append(out, c)
	}
	if len(out) > 60 {
		sort.SliceStable(out, func(i, j int) bool { return len(out[i].t) < len(out[j].t) })
	}
	if len(out) > 120 {
		out = out[:120]
	}
	return out
}

// ---------------------------------------------------------------- join

type joiner struct {
	expr    map[Sym]Lin // what the symbol stands for, if multiplied
	a, b, c *State
	ints    map[string]Lin
	sa, sb  map[Sym]Lin
	order   []Sym
	strs    map[string]*Term
	nulls   map[string]Null
	bools   map[string]Cond
	fresh   bool // new candidate constraints may be looked for
	label   string
}

var joinCounter int

func (j *joiner) newInt(la, lb Lin) Lin {
	k := la.key() + "/" + lb.key()
	if x, ok := j.ints[k]; ok {
		return x
	}
	// a constant offset from a pair already joined
	for _, s := range j.order {
		da, db := la.sub(j.sa[s]), lb.sub(j.sb[s])
		if da.isK() && db.isK() && da.c == db.c {
			x := LS(s).addK(da.c)
			j.ints[k] = x
			return x
		}
	}
	if g := stride(la, lb); g > 1 {
		// both are a constant modulo g
		c0 := la.c % g
		if c0 < 0 {
			c0 += g
		}
		x := j.newInt(divLin(la.addK(-c0), g), divLin(lb.addK(-c0), g)).scale(g).addK(c0)
		j.ints[k] = x
		if len(x.t) == 1 {
			if _, ok := j.expr[x.t[0].s]; !ok {
				j.expr[x.t[0].s] = x
			}
		}
		return x
	}
	joinCounter++
	lo, hi := int64(noLo), int64(noHi)
	if l, ok := linIntrinsicLo(la); ok {
		if m, ok := linIntrinsicLo(lb); ok {
			lo = l
			if m < lo {
				lo = m
			}
		}
	}
	if l, ok := linIntrinsicLo(la.neg()); ok {
		if m, ok := linIntrinsicLo(lb.neg()); ok {
			hi = -l
			if -m > hi {
				hi = -m
			}
		}
	}
	// intrinsic bounds must not grow step by step
	if lo != noLo && lo < 0 {
		lo = roundDown(lo)
	} else if lo > 0 {
		lo = 0
	}
	if hi != noHi {
		hi = roundUp(hi)
	}
	s := newSym("j", lo, hi)
	in := s.info()
	in.deps = unionDeps(linDeps(la), linDeps(lb))
	in.wide = linWide(la) || linWide(lb)
	j.sa[s], j.sb[s] = la, lb
	j.order = append(j.order, s)
	j.ints[k] = LS(s)
	return LS(s)
}

// stride is the common factor of all that differs between la and lb.
func stride(la, lb Lin) int64 {
	g := la.c - lb.c
	if g < 0 {
		g = -g
	}
	for _, l := range []Lin{la, lb} {
		for _, t := range l.t {
			g = gcd64(g, t.k)
			if g == 1 || g == -1 {
				return 1
			}
		}
	}
	if g < 0 {
		g = -g
	}
	if g > 1<<20 {
		return 1
	}
	return g
}

func divLin(l Lin, g int64) Lin {
	r := Lin{c: l.c / g}
	for _, t := range l.t {
		r.t = append(r.t, lterm{t.s, t.k / g})
	}
	return r
}

func linWide(l Lin) bool {
	for _, t := range l.t {
		if t.s.info().wide {
			return true
		}
	}
	return false
}

func roundDown(x int64) int64 {
	for _, t := range []int64{-1, -128, -32768, -1 << 31} {
		if x >= t {
			return t
		}
	}
	return noLo
}
func roundUp(x int64) int64 {
	for _, t := range []int64{0, 1, 255, 65535, 1 << 24, 1<<32 - 1, maxLen, maxLen * 4} {
		if noLadder && t > 0 && t < maxLen {
			continue
		}
		if x <= t {
			return t
		}
	}
	return noHi
}

func linIntrinsicLo(l Lin) (v int64, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(linOverflow); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	v = l.c
	for _, t := range l.t {
		in := t.s.info()
		if t.k > 0 {
			if in.lo == noLo {
				return 0, false
			}
			v = addO(v, mulO(t.k, in.lo))
		} else {
			if in.hi == noHi {
				return 0, false
			}
			v = addO(v, mulO(t.k, in.hi))
		}
	}
	return v, true
}

func (j *joiner) lin(la, lb Lin) Lin {
	if la.eq(lb) {
		return la
	}
	return j.newInt(la, lb)
}

func (j *joiner) null(na, nb Null) Null {
	ta, tb := j.a.isNil(na), j.b.isNil(nb)
	if na == nb && ta == tb {
		return na
	}
	if ta == tb && ta != triMaybe {
		return Null{t: ta}
	}
	if na.t == triMaybe && nb.t == triMaybe && na.ns == nb.ns {
		return na
	}
	k := fmt.Sprint(na, ta, nb, tb)
	if n, ok := j.nulls[k]; ok {
		return n
	}
	n := freshNull()
	j.nulls[k] = n
	return n
}

func (j *joiner) term(ta, tb *Term) *Term {
	if ta == tb {
		return ta
	}
	if v, ok := j.a.streq[ta.id]; ok && ta.op != "const" {
		if w, ok := j.b.streq[tb.id]; (ok && w == v) || (tb.op == "const" && tb.s == v) {
			return tConst(v)
		}
	}
	if w, ok := j.b.streq[tb.id]; ok && ta.op == "const" && ta.s == w {
		return ta
	}
	k := fmt.Sprint(ta.id, "/", tb.id)
	if t, ok := j.strs[k]; ok {
		return t
	}
	joinCounter++
	t := mkTerm(Term{op: "sym", s: fmt.Sprintf("join'%d", joinCounter), deps: unionDeps(ta.deps, tb.deps), n: K(-1)})
	for _, c := range "\r\n :;=/\"," {
		if ta.excludes(c) && tb.excludes(c) {
			t.excl += string(c)
		}
	}
	t.alts = altTerms(ta, tb)
	if ta.n.eq(tb.n) {
		t.n = ta.n
	} else {
		t.n = j.lin(ta.n, tb.n)
	}
	j.strs[k] = t
	return t
}

// altTerms remembers the possible constants of a joined string.
func altTerms(ts ...*Term) []string {
	m := map[string]bool{}
	for _, t := range ts {
		if t.op == "const" {
			m[t.s] = true
		} else if t.alts != nil {
			for _, s := range t.alts {
				m[s] = true
			}
		} else {
			return nil
		}
	}
	if len(m) > 12 {
		return nil
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func (j *joiner) cond(ca, cb Cond) Cond {
	if ca.key() == cb.key() {
		return ca
	}
	ea, eb := j.a.eval(ca), j.b.eval(cb)
	if ea >= 0 && ea == eb {
		return cK(ea == 1)
	}
	k := ca.key() + "/" + cb.key()
	if c, ok := j.bools[k]; ok {
		return c
	}
	c := cFresh("joinb")
	j.bools[k] = c
	return c
}

func (j *joiner) val(va, vb Val) Val {
	if va == nil || vb == nil {
		return nil
	}
	if _, ok := va.(SummV); ok {
		return SummV{joinSumm(j.a.summarize(va), j.b.summarize(vb), true)}
	}
	if _, ok := vb.(SummV); ok {
		return SummV{joinSumm(j.a.summarize(va), j.b.summarize(vb), true)}
	}
	if oa, ok := va.(Opaque); ok {
		if ob, ok := vb.(Opaque); ok && oa.Label == ob.Label && oa.Inv == ob.Inv {
			return va
		}
		va = j.a.expand(oa)
	}
	if ob, ok := vb.(Opaque); ok {
		vb = j.b.expand(ob)
	}
	switch x := va.(type) {
	case Int:
		if y, ok := vb.(Int); ok {
			return Int{j.lin(x.L, y.L)}
		}
	case Bool:
		if y, ok := vb.(Bool); ok {
			return Bool{j.cond(x.C, y.C)}
		}
	case Str:
		if y, ok := vb.(Str); ok {
			return Str{j.term(x.T, y.T)}
		}
	case Ptr:
		if y, ok := vb.(Ptr); ok {
			r := Ptr{N: j.null(x.N, y.N)}
			r.Locs = j.locs(x.Locs, y.Locs)
			return r
		}
	case Slice:
		if y, ok := vb.(Slice); ok {
			r := Slice{N: j.null(x.N, y.N), Objs: unionObjs(x.Objs, y.Objs)}
			r.Off, r.Len, r.Cap = j.lin(x.Off, y.Off), j.lin(x.Len, y.Len), j.lin(x.Cap, y.Cap)
			if len(x.Objs) == 0 {
				r.Off = y.Off
			} else if len(y.Objs) == 0 {
				r.Off = x.Off
			}
			return r
		}
	case Iface:
		if y, ok := vb.(Iface); ok {
			r := Iface{N: j.null(x.N, y.N), Other: x.Other || y.Other, Label: x.Label, Deps: unionDeps(x.Deps, y.Deps)}
			if r.Label == "" {
				r.Label = y.Label
			}
			r.Alts = append(r.Alts, x.Alts...)
			for _, ay := range y.Alts {
				hit := false
				for i := range r.Alts {
					if types.Identical(r.Alts[i].T, ay.T) {
						r.Alts[i].V = j.val(r.Alts[i].V, ay.V)
						hit = true
					}
				}
				if !hit {
					r.Alts = append(r.Alts, ay)
				}
			}
			return r
		}
	case Func:
		if y, ok := vb.(Func); ok {
			r := Func{N: j.null(x.N, y.N), Unknown: x.Unknown || y.Unknown, Label: x.Label}
			if r.Label == "" {
				r.Label = y.Label
			}
			r.Fns = append(r.Fns, x.Fns...)
			for _, fy := range y.Fns {
				hit := false
				for i := range r.Fns {
					if r.Fns[i].Fn == fy.Fn && len(r.Fns[i].Binds) == len(fy.Binds) {
						var bs []Val
						for k := range fy.Binds {
							bs = append(bs, j.val(r.Fns[i].Binds[k], fy.Binds[k]))
						}
						r.Fns[i].Binds = bs
						hit = true
					}
				}
				if !hit {
					r.Fns = append(r.Fns, fy)
				}
			}
			return r
		}
	case Struct:
		if y, ok := vb.(Struct); ok && len(x.F) == len(y.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = j.val(x.F[i], y.F[i])
			}
			return Struct{f}
		}
	case Tuple:
		if y, ok := vb.(Tuple); ok && len(x.V) == len(y.V) {
			f := make([]Val, len(x.V))
			for i := range f {
				f[i] = j.val(x.V[i], y.V[i])
			}
			return Tuple{f}
		}
	case Tag:
		if y, ok := vb.(Tag); ok {
			if x == y {
				return x
			}
			return Tag{strings.Join(unionStrs(strings.Split(x.S, "|"), strings.Split(y.S, "|")), "|")}
		}
	case Misc:
		if y, ok := vb.(Misc); ok {
			if x.Label == y.Label {
				return x
			}
			return Misc{unionDeps(x.Deps, y.Deps), ""}
		}
	case ArrV:
		if y, ok := vb.(ArrV); ok {
			return ArrV{j.arr(x.A, y.A)}
		}
	case RangeIter:
		if y, ok := vb.(RangeIter); ok {
			return RangeIter{j.val(x.X, y.X), j.lin(x.Pos, y.Pos), x.ID}
		}
	}
	return Misc{Deps: unionDeps(valDeps(va), valDeps(vb))}
}

func (j *joiner) locs(a, b []Loc) []Loc {
	out := append([]Loc(nil), a...)
	for _, l := range b {
		hit := false
		for i, m := range out {
			if m.obj == l.obj && len(m.path) == len(l.path) {
				same := true
				for k := range m.path {
					if m.path[k].isIdx != l.path[k].isIdx || m.path[k].field != l.path[k].field {
						same = false
					}
				}
				if same {
					p := make([]Step, len(m.path))
					copy(p, m.path)
					for k := range p {
						if p[k].isIdx {
							p[k].idx = j.lin(m.path[k].idx, l.path[k].idx)
						}
					}
					out[i] = Loc{m.obj, p}
					hit = true
					break
				}
			}
		}
		if !hit {
			out = append(out, l)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

func (j *joiner) arr(x, y *Arr) *Arr {
	if x == y {
		return x
	}
	r := &Arr{elem: x.elem, label: x.label, bytes: x.bytes, deps: unionDeps(x.deps, y.deps)}
	r.n = j.lin(x.n, y.n)
	dx, dy := x.def, y.def
	usedY := map[int]bool{}
	for _, e := range x.ents {
		hit := false
		for k, f := range y.ents {
			if !usedY[k] && e.idx.eq(f.idx) {
				usedY[k] = true
				hit = true
				r.ents = append(r.ents, Ent{e.idx, j.val(e.v, f.v)})
				break
			}
		}
		if !hit {
			// last entries of two growing arrays may correspond
			dx = joinSumm(dx, j.a.summarize(e.v), false)
		}
	}
	for k, f := range y.ents {
		if !usedY[k] {
			dy = joinSumm(dy, j.b.summarize(f.v), false)
		}
	}
	r.def = joinSumm(dx, dy, true)
	if x.bytes {
		usedS := map[int]bool{}
		lost := false
		for _, s := range x.segs {
			best := -1
			for k, t := range y.segs {
				if usedS[k] {
					continue
				}
				if s.src == t.src && (best < 0 || s.lo.eq(t.lo)) {
					best = k
				}
			}
			if best < 0 {
				for k, t := range y.segs {
					if !usedS[k] && len(x.segs) == len(y.segs) && s.lo.eq(t.lo) {
						best = k
						break
					}
				}
			}
			if best >= 0 {
				t := y.segs[best]
				usedS[best] = true
				if s.src == t.src {
					r.segs = append(r.segs, Seg{j.lin(s.lo, t.lo), j.lin(s.hi, t.hi), s.src, j.lin(s.slo, t.slo)})
				} else {
					// different sources: cut both to what the segment shows
					ca := tSub(s.src, s.slo, s.slo.add(s.hi.sub(s.lo)))
					cb := tSub(t.src, t.slo, t.slo.add(t.hi.sub(t.lo)))
					tt := j.term(ca, cb)
					r.segs = append(r.segs, Seg{j.lin(s.lo, t.lo), j.lin(s.hi, t.hi), tt, K(0)})
				}
				continue
			}
			lost = true
		}
		for k := range y.segs {
			if !usedS[k] {
				lost = true
			}
		}
		if lost {
			r.def = topByte
		}
	}
	return r
}

func (j *joiner) object(x, y *Obj) *Obj {
	if x == y {
		return x
	}
	r := *x
	r.summ = x.summ || y.summ
	if len(y.flags) > 0 || len(x.flags) > 0 {
		r.flags = map[string]bool{}
		for k := range x.flags {
			r.flags[k] = true
		}
		for k := range y.flags {
			r.flags[k] = true
		}
	}
	if x.kind != y.kind {
		r.v = Misc{}
		return &r
	}
	switch x.kind {
	case 'a':
		r.arr = j.arr(x.arr, y.arr)
	case 'm':
		r.mp = j.mapc(x.mp, y.mp)
	case 'v':
		if r.summ {
			r.v = SummV{joinSumm(j.a.summarize(x.v), j.b.summarize(y.v), true)}
		} else {
			r.v = j.val(x.v, y.v)
		}
	}
	return &r
}

func (j *joiner) mapc(x, y *MapC) *MapC {
	if x == y {
		return x
	}
	r := &MapC{kt: x.kt, vt: x.vt}
	r.n = j.lin(x.n, y.n)
	kx, ky, vx, vy := x.kdef, y.kdef, x.vdef, y.vdef
	used := map[int]bool{}
	for _, e := range x.ents {
		hit := false
		for k, f := range y.ents {
			if !used[k] && sameKey(e.k, f.k) {
				used[k] = true
				hit = true
				r.ents = append(r.ents, MEnt{e.k, j.val(e.v, f.v)})
				break
			}
		}
		if !hit {
			kx = joinSumm(kx, j.a.summarize(e.k), false)
			vx = joinSumm(vx, j.a.summarize(e.v), false)
		}
	}
	for k, f := range y.ents {
		if !used[k] {
			ky = joinSumm(ky, j.b.summarize(f.k), false)
			vy = joinSumm(vy, j.b.summarize(f.v), false)
		}
	}
	r.kdef, r.vdef = joinSumm(kx, ky, true), joinSumm(vx, vy, true)
	return r
}

func sameKey(a, b Val) bool {
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		return ok && x.L.eq(y.L)
	case Str:
		y, ok := b.(Str)
		return ok && x.T == y.T
	}
	return false
}

// joinStates returns a state that describes both a and b. They are in the
// same frame. fresh: candidate invariants may be invented, otherwise only
// constraints of a survive (widening).
func joinStates(a, b *State, fresh bool) *State {
	a.gc()
	b.gc()
	if a.poly.bot {
		return b
	}
	if b.poly.bot {
		return a
	}
	c := a.clone()
	j := &joiner{a: a, b: b, c: c, ints: map[string]Lin{}, sa: map[Sym]Lin{}, sb: map[Sym]Lin{}, strs: map[string]*Term{}, nulls: map[string]Null{}, bools: map[string]Cond{}, fresh: fresh, expr: map[Sym]Lin{}}
	// registers of the current frame
	fc := c.wFrame()
	fb := b.fr
	for i := range fc.regs {
		if fc.regs[i] != nil {
			fc.regs[i] = j.val(fc.regs[i], fb.regs[i])
		}
	}
	// deferred calls must agree (same frame, same defer statements)
	if len(fc.defers) != len(fb.defers) {
		if len(fb.defers) > len(fc.defers) {
			fc.defers = fb.defers
		}
	} else {
		nd := make([]Deferred, len(fc.defers))
		for i := range nd {
			nd[i] = fc.defers[i]
			if fb.defers[i].call == nd[i].call {
				nd[i].fn = j.val(nd[i].fn, fb.defers[i].fn)
				as := make([]Val, len(nd[i].args))
				for k := range as {
					as[k] = j.val(nd[i].args[k], fb.defers[i].args[k])
				}
				nd[i].args = as
			}
		}
		fc.defers = nd
	}
	// heap
	for _, id := range sortedObjs(b.heap) {
		ob := b.heap[id]
		oa := a.objOf(id)
		if oa == nil {
			c.setObj(ob)
			continue
		}
		if oa != ob {
			c.setObj(j.object(oa, ob))
		}
	}
	for _, id := range sortedObjs(a.heap) {
		if _, ok := b.heap[id]; ok {
			continue
		}
		oa := a.heap[id]
		if ob := b.objOf(id); ob != nil {
			c.setObj(j.object(oa, ob))
		} else {
			c.setObj(oa)
		}
	}
	// ghost
	for _, k := range sortedGhost(a.ghost) {
		if vb, ok := b.ghost[k]; ok {
			c.setGhost(k, j.val(a.ghost[k], vb))
		} else if t, ok := a.ghost[k].(Tag); ok {
			c.setGhost(k, j.val(t, Tag{""}))
		} else {
			c.setGhost(k, nil)
		}
	}
	for _, k := range sortedGhost(b.ghost) {
		if _, ok := a.ghost[k]; !ok {
			if t, is := b.ghost[k].(Tag); is {
				c.setGhost(k, j.val(Tag{""}, t))
			}
		}
	}
	// facts
	nf := map[string]bool{}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && w == v {
			nf[k] = v
		}
	}
	c.facts, c.factsSh = nf, false
	ns := map[int]string{}
	for k, v := range a.streq {
		if w, ok := b.streq[k]; ok && w == v {
			ns[k] = v
		}
	}
	c.streq, c.strSh = ns, false
	sets := map[Sym][]int64{}
	for s, v := range a.sets {
		if w, ok := b.sets[s]; ok {
			if u := unionInts(v, w); u != nil {
				sets[s] = u
			}
		}
	}
	for _, s := range j.order {
		va, vb := a.valSet(j.sa[s]), b.valSet(j.sb[s])
		if u := unionInts(va, vb); u != nil && (fresh || len(u) == len(va)) {
			sets[s] = u
		}
	}
	c.sets, c.setsSh = sets, false
	c.diseq = nil
	for _, d := range a.diseq {
		if b.knowsNE(d) {
			c.diseq = append(c.diseq, d)
		}
	}
	for _, d := range b.diseq {
		if a.knowsNE(d) && !c.knowsNE(d) {
			c.diseq = append(c.diseq, d)
		}
	}
	if len(b.trace) > len(c.trace) {
		c.trace = b.trace
	}
	j.constraints()
	c.gc()
	return c
}

func (st *State) knowsNE(d Lin) bool {
	for _, e := range st.diseq {
		if e.eq(d) || e.eq(d.neg()) {
			return true
		}
	}
	return st.poly.entails(d.addK(-1)) || st.poly.entails(d.neg().addK(-1))
}

// valSet is the finite set of values of e, if known.
func (st *State) valSet(e Lin) []int64 {
	if e.isK() {
		return []int64{e.c}
	}
	if len(e.t) == 1 {
		set, ok := st.sets[e.t[0].s]
		if !ok {
			return nil
		}
		out := make([]int64, len(set))
		for i, x := range set {
			out[i] = x*e.t[0].k + e.c
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		return out
	}
	return nil
}

func (j *joiner) inA(e Lin) (r Lin, ok bool) { return safeSubst(e, j.sa) }
func (j *joiner) inB(e Lin) (r Lin, ok bool) { return safeSubst(e, j.sb) }

func safeSubst(e Lin, m map[Sym]Lin) (r Lin, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(linOverflow); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return e.subst(m), true
}

func (j *joiner) holds(e Lin) bool {
	x, ok := j.inA(e)
	if !ok || !j.a.poly.entails(x) {
		return false
	}
	y, ok := j.inB(e)
	return ok && j.b.poly.entails(y)
}

// rewrite expresses constraint e of one side with the new symbols.
func (j *joiner) rewrite(e Lin, m map[Sym]Lin) []Lin {
	out := []Lin{e}
	all := e
	changed := 0
	for _, z := range j.order {
		l := m[z]
		for _, t := range l.t {
			if (t.k == 1 || t.k == -1) && e.coef(t.s) != 0 {
				// s = (z - rest)*k
				rest := l.sub(Lin{t: []lterm{t}})
				rep := LS(z).sub(rest).scale(t.k)
				if r, ok := safeSubst(e, map[Sym]Lin{t.s: rep}); ok {
					out = append(out, r)
				}
				if all.coef(t.s) != 0 {
					if r, ok := safeSubst(all, map[Sym]Lin{t.s: rep}); ok {
						all = r
						changed++
					}
				}
				break
			}
		}
	}
	if changed > 1 {
		out = append(out, all)
	}
	return out
}

func (j *joiner) constraints() {
	var out []Lin
	have := map[string]int64{}
	put := func(e Lin) {
		e = e.norm()
		k := e.partKey()
		if v, ok := have[k]; ok && v <= e.c {
			return
		}
		have[k] = e.c
		out = append(out, e)
	}
	try := func(e Lin) bool {
		if e.isK() {
			return true
		}
		if v, ok := have[e.norm().partKey()]; ok && v <= e.norm().c {
			return true
		}
		if j.holds(e) {
			put(e)
			return true
		}
		return false
	}
	ladder := func(e Lin) {
		if noLadder {
			return
		}
		// weaker forms of a constraint that does not hold
		if len(e.t) == 1 && (e.t[0].k == 1 || e.t[0].k == -1) {
			ts := []int64{-4, -1, 0, 1, 4, 255, 65535, 8 << 20, 8<<20 + 65536}
			if widenIter > 5 {
				ts = ts[7:]
			}
			if widenIter > 7 {
				ts = nil
			}
			for _, t := range ts {
				if t > e.c && try(Lin{c: t, t: e.t}) {
					return
				}
			}
			return
		}
		for _, t := range []int64{-1, 0, 1} {
			if t > e.c && try(Lin{c: t, t: e.t}) {
				return
			}
		}
	}
	// equalities first: as they are and modulo the equalities of either state
	ea, eb := j.a.poly.echelon(), j.b.poly.echelon()
	na, nb := map[Sym]Lin{}, map[Sym]Lin{}
	for _, x := range j.order {
		na[x], nb[x] = ea.reduce(j.sa[x]), eb.reduce(j.sb[x])
	}
	for i, x := range j.order {
		dx := j.sa[x].sub(j.sb[x])
		mx := na[x].sub(nb[x])
		for _, y := range j.order[:i] {
			va := j.sa
			p, q, ok := proportional(dx, j.sa[y].sub(j.sb[y]))
			if !ok {
				va = na
				p, q, ok = proportional(mx, na[y].sub(nb[y]))
			}
			if !ok {
				continue
			}
			// q*dx == p*dy
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(linOverflow); !is {
							panic(r)
						}
					}
				}()
				e := LS(x).scale(q).sub(LS(y).scale(p)).sub(va[x].scale(q).sub(va[y].scale(p)))
				put(e)
				put(e.neg())
				// without what only one state knows
				if f := ea.reduce(e); !f.eq(e) {
					if try(f) {
						try(f.neg())
					}
				}
			}()
		}
		// equality with an existing expression modulo the constraints
		if dx.isK() && dx.c == 0 {
			put(LS(x).sub(j.sa[x]))
			put(j.sa[x].sub(LS(x)))
		}
	}
	for _, e := range j.a.poly.cs {
		for _, r := range j.rewrite(e, j.sa) {
			if !try(r) {
				ladder(r)
			}
		}
	}
	if j.fresh {
		for _, e := range j.b.poly.cs {
			for _, r := range j.rewrite(e, j.sb) {
				if !try(r) {
					ladder(r)
				}
			}
		}
		// equalities between a new symbol and old expressions: the value in one
		// state, if the other state agrees
		for _, x := range j.order {
			for _, l := range []Lin{j.sa[x], j.sb[x]} {
				d := LS(x).sub(l)
				try(d)
				try(d.neg())
			}
		}
	}
	if j.fresh {
		for _, x := range j.order {
			la, lb := j.sa[x], j.sb[x]
			if l, ok := j.a.poly.min(la); ok {
				if m, ok := j.b.poly.min(lb); ok {
					if m < l {
						l = m
					}
					put(LS(x).addK(-l))
				}
			}
			if l, ok := j.a.poly.max(la); ok {
				if m, ok := j.b.poly.max(lb); ok {
					if m > l {
						l = m
					}
					put(LS(x).neg().addK(l))
				}
			}
		}
		j.pairwise(try)
	} else {
		// bounds by threshold
		for _, x := range j.order {
			for _, t := range []int64{0, -1} {
				if try(LS(x).addK(-t)) {
					break
				}
			}
		}
	}
	var live map[Sym]bool
	if !j.fresh {
		// nothing is derived from the values of the pass before: their bounds
		// would come back, one step further, after each pass
		live, _, _, _ = j.c.liveSyms()
		keepMultiples(out, live)
	}
	p := &Poly{}
	for _, e := range out {
		if live != nil {
			dead := false
			for _, t := range e.t {
				if !live[t.s] {
					dead = true
				}
			}
			if dead {
				continue
			}
		}
		p.add(e)
	}
	p.cs = pruneRedundant(p.cs)
	j.c.poly, j.c.polySh = p, false
}

// pairwise looks for x <= y + k between new symbols and other relevant ones.
func (j *joiner) pairwise(try func(Lin) bool) {
	if noLadder {
		// only counters below the length of what is counted
		for _, e := range j.a.poly.cs {
			if len(e.t) != 1 || e.t[0].k != 1 || !strings.HasPrefix(e.t[0].s.info().name, "len(") {
				continue
			}
			for _, x := range j.order {
				if j.sa[x].isK() {
					try(LS(e.t[0].s).sub(LS(x)).addK(e.c + j.sa[x].c))
				}
			}
		}
		return
	}
	if len(j.order) > 14 {
		return
	}
	cand := map[Sym]bool{}
	for _, e := range j.a.poly.cs {
		for _, t := range e.t {
			cand[t.s] = true
		}
	}
	for _, e := range j.b.poly.cs {
		for _, t := range e.t {
			cand[t.s] = true
		}
	}
	for _, x := range j.order {
		for _, t := range j.sa[x].t {
			cand[t.s] = true
		}
		for _, t := range j.sb[x].t {
			cand[t.s] = true
		}
	}
	// lengths of slices and strings held in registers
	w := &walker{seen: map[*Term]bool{}}
	w.sym = func(l Lin) {
		if len(l.t) <= 2 {
			for _, t := range l.t {
				cand[t.s] = true
			}
		}
	}
	for _, r := range j.c.fr.regs {
		switch v := r.(type) {
		case Slice:
			w.lin(v.Len)
			w.lin(v.Cap)
		case Str:
			w.lin(v.T.n)
		case Int:
			w.lin(v.L)
		}
	}
	isNew := map[Sym]bool{}
	for _, x := range j.order {
		isNew[x] = true
	}
	var cs []Sym
	for s := range cand {
		if !isNew[s] {
			cs = append(cs, s)
		}
	}
	sort.Slice(cs, func(i, k int) bool { return cs[i] < cs[k] })
	if len(cs) > 16 {
		cs = cs[len(cs)-16:]
	}
	cs = append(cs, j.order...)
	for _, x := range j.order {
		for _, y := range cs {
			if x == y {
				continue
			}
			ex, ey := LS(x), LS(y)
			if e, ok := j.expr[x]; ok {
				ex = e
			}
			if e, ok := j.expr[y]; ok {
				ey = e
			}
			d := ey.sub(ex)
			if !try(d.addK(-1)) {
				try(d)
			}
			if !isNew[y] {
				if !try(d.neg().addK(-1)) {
					try(d.neg())
				}
			}
		}
	}
}

// proportional reports q*a == p*b.
func proportional(a, b Lin) (p, q int64, ok bool) {
	if len(a.t) != len(b.t) {
		return
	}
	var ca, cb int64
	if len(a.t) > 0 {
		ca, cb = a.t[0].k, b.t[0].k
	} else {
		ca, cb = a.c, b.c
	}
	if ca == 0 || cb == 0 {
		return
	}
	g := gcd64(ca, cb)
	p, q = ca/g, cb/g
	if q < 0 {
		p, q = -p, -q
	}
	if p > 1000 || p < -1000 || q > 1000 {
		return
	}
	for i := range a.t {
		if a.t[i].s != b.t[i].s || a.t[i].k*q != b.t[i].k*p {
			return 0, 0, false
		}
	}
	if a.c*q != b.c*p {
		return 0, 0, false
	}
	return p, q, true
}

// ---------------------------------------------------------------- inclusion

type matcher struct {
	h, b  *State
	ints  map[Sym]Lin
	pend  []pendLin
	terms map[int]*Term
	ns    map[int]Null
	atoms map[string]Cond
	why   string
}

type pendLin struct{ lh, lb Lin }

func (m *matcher) fail(format string, a ...any) bool {
	if m.why == "" {
		m.why = fmt.Sprintf(format, a...)
	}
	return false
}

func (m *matcher) lin(lh, lb Lin) bool {
	if lh.isK() {
		if lb.isK() {
			return lh.c == lb.c || m.fail("%v vs %v", lh, lb)
		}
		return m.b.poly.entailsEq(lh, lb) || m.fail("%v vs %v", lh, lb)
	}
	if len(lh.t) == 1 && lh.t[0].k == 1 {
		s := lh.t[0].s
		want := lb.addK(-lh.c)
		if x, ok := m.ints[s]; ok {
			return x.eq(want) || m.b.poly.entailsEq(x, want) || m.fail("%v bound to %v, now %v", LS(s), x, want)
		}
		m.ints[s] = want
		return true
	}
	if len(lh.t) == 1 {
		s, k := lh.t[0].s, lh.t[0].k
		want, ok := lb.addK(-lh.c), true
		for _, t := range want.t {
			ok = ok && t.k%k == 0
		}
		if ok && want.c%k == 0 {
			want = divLin(want, k)
			if x, has := m.ints[s]; has {
				return x.eq(want) || m.b.poly.entailsEq(x, want) || m.fail("%v bound to %v, now %v", LS(s), x, want)
			}
			m.ints[s] = want
			return true
		}
	}
	m.pend = append(m.pend, pendLin{lh, lb})
	return true
}

func (m *matcher) term(th, tb *Term) bool {
	if th == tb {
		// its symbols stay
		ok := true
		w := &walker{seen: map[*Term]bool{}}
		w.sym = func(l Lin) {
			for _, t := range l.t {
				if x, has := m.ints[t.s]; has {
					if !x.eq(LS(t.s)) && !m.b.poly.entailsEq(x, LS(t.s)) {
						ok = false
					}
				} else {
					m.ints[t.s] = LS(t.s)
				}
			}
		}
		w.tm(th)
		return ok || m.fail("term %v moved", th)
	}
	if th.op == "sym" && strings.HasPrefix(th.s, "join'") {
		if x, ok := m.terms[th.id]; ok {
			return x == tb || m.fail("term %v", th)
		}
		if !subsetDeps(tb.deps, th.deps) {
			return m.fail("deps of %v", tb)
		}
		if th.alts != nil {
			if tb.op == "const" {
				hit := false
				for _, s := range th.alts {
					if s == tb.s {
						hit = true
					}
				}
				if !hit {
					return m.fail("alternatives of %v", th)
				}
			} else if tb.alts == nil || len(unionStrs(th.alts, tb.alts)) > len(th.alts) {
				return m.fail("alternatives of %v", th)
			}
		}
		for _, c := range th.excl {
			if !tb.excludes(c) {
				return m.fail("characters of %v", tb)
			}
		}
		m.terms[th.id] = tb
		return m.lin(th.n, tb.n)
	}
	if th.op == "const" {
		if v, ok := m.b.streq[tb.id]; ok && v == th.s {
			return true
		}
	}
	if th.op == tb.op && th.s == tb.s && len(th.args) == len(tb.args) && len(th.lins) == len(tb.lins) && th.op != "sym" && th.op != "const" {
		for i := range th.args {
			if !m.term(th.args[i], tb.args[i]) {
				return false
			}
		}
		for i := range th.lins {
			if !m.lin(th.lins[i], tb.lins[i]) {
				return false
			}
		}
		return m.lin(th.n, tb.n)
	}
	return m.fail("term %v vs %v", th, tb)
}

func (m *matcher) null(nh, nb Null) bool {
	if nh.t != triMaybe {
		return m.b.isNil(nb) == nh.t || m.fail("null")
	}
	if x, ok := m.ns[nh.ns]; ok {
		if x == nb {
			return true
		}
		tx, tb := m.b.isNil(x), m.b.isNil(nb)
		return (tx == tb && tx != triMaybe) || m.fail("null pair")
	}
	m.ns[nh.ns] = nb
	return true
}

func (m *matcher) cond(ch, cb Cond) bool {
	if ch.op == 'c' {
		e := m.b.eval(cb)
		return (e == 1 && ch.val) || (e == 0 && !ch.val) || m.fail("bool")
	}
	if ch.op == 'a' {
		want := cb
		if ch.neg {
			want = cb.not()
		}
		if x, ok := m.atoms[ch.at]; ok {
			if x.key() == want.key() {
				return true
			}
			ex, ew := m.b.eval(x), m.b.eval(want)
			return (ex >= 0 && ex == ew) || m.fail("atom")
		}
		m.atoms[ch.at] = want
		if ch.at != want.at && (ch.str != nil || ch.ns != 0) {
			return m.fail("atom kind")
		}
		return true
	}
	if cb.op == ch.op && cb.neg == ch.neg {
		return m.lin(ch.L, cb.L)
	}
	return m.fail("cond")
}

func (m *matcher) val(vh, vb Val) bool {
	if vh == nil {
		return true
	}
	if vb == nil {
		return m.fail("missing value")
	}
	if x, ok := vh.(SummV); ok {
		return m.summ(x.S, m.b.summarize(vb))
	}
	if _, ok := vb.(SummV); ok {
		return m.fail("summary value")
	}
	if oh, ok := vh.(Opaque); ok {
		if ob, ok := vb.(Opaque); ok && oh.Label == ob.Label {
			return true
		}
		vh = m.h.expand(oh)
	}
	if ob, ok := vb.(Opaque); ok {
		vb = m.b.expand(ob)
	}
	switch x := vh.(type) {
	case Int:
		y, ok := vb.(Int)
		return ok && m.lin(x.L, y.L)
	case Bool:
		y, ok := vb.(Bool)
		return ok && m.cond(x.C, y.C)
	case Str:
		y, ok := vb.(Str)
		return ok && m.term(x.T, y.T)
	case Ptr:
		y, ok := vb.(Ptr)
		if !ok || !m.null(x.N, y.N) {
			return m.fail("ptr")
		}
		if m.b.isNil(y.N) == triNil {
			return true
		}
		for _, l := range y.Locs {
			hit := false
			for _, k := range x.Locs {
				if k.obj != l.obj || len(k.path) != len(l.path) {
					continue
				}
				same := true
				for i := range k.path {
					if k.path[i].isIdx != l.path[i].isIdx || k.path[i].field != l.path[i].field {
						same = false
					}
				}
				if !same {
					continue
				}
				for i := range k.path {
					if k.path[i].isIdx && !m.lin(k.path[i].idx, l.path[i].idx) {
						return false
					}
				}
				hit = true
				break
			}
			if !hit {
				return m.fail("new target %s", l.key())
			}
		}
		return true
	case Slice:
		y, ok := vb.(Slice)
		if !ok || !m.null(x.N, y.N) {
			return m.fail("slice")
		}
		if len(unionObjs(x.Objs, y.Objs)) != len(x.Objs) {
			return m.fail("new backing array %v vs %v", x.Objs, y.Objs)
		}
		if len(y.Objs) > 0 && !m.lin(x.Off, y.Off) {
			return false
		}
		return m.lin(x.Len, y.Len) && m.lin(x.Cap, y.Cap)
	case Iface:
		y, ok := vb.(Iface)
		if !ok || !m.null(x.N, y.N) {
			return m.fail("iface")
		}
		if m.b.isNil(y.N) == triNil {
			return true
		}
		if y.Other && !x.Other {
			return m.fail("iface other")
		}
		for _, a := range y.Alts {
			hit := false
			for _, c := range x.Alts {
				if types.Identical(a.T, c.T) {
					if !m.val(c.V, a.V) {
						return false
					}
					hit = true
				}
			}
			if !hit {
				return m.fail("new dynamic type %v", a.T)
			}
		}
		return true
	case Func:
		y, ok := vb.(Func)
		if !ok || !m.null(x.N, y.N) || (y.Unknown && !x.Unknown) {
			return m.fail("func")
		}
		for _, a := range y.Fns {
			hit := false
			for _, c := range x.Fns {
				if c.Fn == a.Fn && len(c.Binds) == len(a.Binds) {
					for i := range a.Binds {
						if !m.val(c.Binds[i], a.Binds[i]) {
							return false
						}
					}
					hit = true
				}
			}
			if !hit {
				return m.fail("new func")
			}
		}
		return true
	case Struct:
		y, ok := vb.(Struct)
		if !ok || len(x.F) != len(y.F) {
			return m.fail("struct")
		}
		for i := range x.F {
			if !m.val(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := vb.(Tuple)
		if !ok || len(x.V) != len(y.V) {
			return m.fail("tuple")
		}
		for i := range x.V {
			if !m.val(x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	case Tag:
		y, ok := vb.(Tag)
		if !ok {
			y = Tag{""}
		}
		return len(unionStrs(strings.Split(x.S, "|"), strings.Split(y.S, "|"))) == len(strings.Split(x.S, "|")) || m.fail("tag")
	case Misc:
		return subsetDeps(valDeps(vb), x.Deps) || m.fail("misc deps")
	case ArrV:
		y, ok := vb.(ArrV)
		return ok && m.arr(x.A, y.A)
	case RangeIter:
		y, ok := vb.(RangeIter)
		return ok && m.val(x.X, y.X) && m.lin(x.Pos, y.Pos)
	}
	return m.fail("value kind")
}

func (m *matcher) summ(sh, sb *Summ) bool {
	if sb == nil {
		return true
	}
	if sh == nil {
		return m.fail("summary")
	}
	return joinSumm(sh, sb, false).key() == sh.key() || m.fail("summary grows: %s to %s", sh.key(), sb.key())
}

func (m *matcher) arr(x, y *Arr) bool {
	if x == y {
		return true
	}
	if !m.lin(x.n, y.n) {
		return false
	}
	if !subsetDeps(y.deps, x.deps) {
		return m.fail("array deps")
	}
	used := map[int]bool{}
	for _, e := range x.ents {
		hit := false
		for k, f := range y.ents {
			if !used[k] && (e.idx.eq(f.idx)) {
				used[k] = true
				hit = true
				if !m.val(e.v, f.v) {
					return false
				}
				break
			}
		}
		if !hit {
			return m.fail("array entry")
		}
	}
	for k, f := range y.ents {
		if !used[k] && !m.summ(x.def, m.b.summarize(f.v)) {
			return false
		}
	}
	if !m.summ(x.def, y.def) {
		return false
	}
	for _, s := range x.segs {
		hit := false
		for _, t := range y.segs {
			if s.src == t.src && m.lin(s.lo, t.lo) && m.lin(s.hi, t.hi) && m.lin(s.slo, t.slo) {
				hit = true
				break
			}
		}
		if !hit {
			for _, t := range y.segs {
				if s.src != t.src && s.src.op == "sym" && strings.HasPrefix(s.src.s, "join'") && len(x.segs) == len(y.segs) {
					cb := tSub(t.src, t.slo, t.slo.add(t.hi.sub(t.lo)))
					if m.term(s.src, cb) && m.lin(s.lo, t.lo) && m.lin(s.hi, t.hi) {
						hit = true
						m.why = ""
						break
					}
				}
			}
		}
		if !hit {
			return m.fail("segment")
		}
	}
	if x.bytes && len(y.segs) > len(x.segs) && !m.summ(x.def, topByte) {
		return false
	}
	return true
}

func (m *matcher) object(x, y *Obj) bool {
	if x == y {
		return true
	}
	if y.summ && !x.summ {
		return m.fail("becomes summary %s", x.id)
	}
	for f := range y.flags {
		if !x.flags[f] {
			return m.fail("flag %s", f)
		}
	}
	switch x.kind {
	case 'a':
		return y.kind == 'a' && m.arr(x.arr, y.arr)
	case 'm':
		if y.kind != 'm' {
			return m.fail("kind")
		}
		used := map[int]bool{}
		for _, e := range x.mp.ents {
			hit := false
			for k, f := range y.mp.ents {
				if !used[k] && sameKey(e.k, f.k) {
					used[k], hit = true, true
					if !m.val(e.v, f.v) {
						return false
					}
					break
				}
			}
			if !hit {
				return m.fail("map entry")
			}
		}
		for k, f := range y.mp.ents {
			if !used[k] && (!m.summ(x.mp.kdef, m.b.summarize(f.k)) || !m.summ(x.mp.vdef, m.b.summarize(f.v))) {
				return false
			}
		}
		return m.summ(x.mp.kdef, y.mp.kdef) && m.summ(x.mp.vdef, y.mp.vdef) && m.lin(x.mp.n, y.mp.n)
	case 'v':
		return y.kind == 'v' && m.val(x.v, y.v)
	}
	return true
}

// includes reports whether every concrete state of b is one of h.
func includes(h, b *State) (bool, string) {
	b.gc()
	if b.poly.bot {
		return true, ""
	}
	m := &matcher{h: h, b: b, ints: map[Sym]Lin{}, terms: map[int]*Term{}, ns: map[int]Null{}, atoms: map[string]Cond{}}
	// registers of outer frames are the same values in both
	w := &walker{seen: map[*Term]bool{}}
	w.sym = func(l Lin) {
		for _, t := range l.t {
			m.ints[t.s] = LS(t.s)
		}
	}
	w.ns = func(n int) { m.ns[n] = Null{triMaybe, n} }
	if h.fr != nil {
		for f := h.fr.parent; f != nil; f = f.parent {
			for _, r := range f.regs {
				if r != nil {
					w.val(r)
				}
			}
			for _, d := range f.defers {
				for _, a := range d.args {
					w.val(a)
				}
			}
		}
		if len(h.fr.defers) != len(b.fr.defers) {
			return false, "defers"
		}
		for i := range h.fr.regs {
			if h.fr.regs[i] != nil && !m.val(h.fr.regs[i], b.fr.regs[i]) {
				return false, fmt.Sprintf("register %s: %s", regName(h.fr.info, i), m.why)
			}
		}
	}
	for _, k := range sortedGhost(h.ghost) {
		vb, ok := b.ghost[k]
		if !ok {
			if _, is := h.ghost[k].(Tag); !is {
				return false, "ghost " + k
			}
			vb = Tag{""}
		}
		if !m.val(h.ghost[k], vb) {
			return false, "ghost " + k + " " + m.why
		}
	}
	for _, k := range sortedGhost(b.ghost) {
		if _, ok := h.ghost[k]; !ok {
			if t, is := b.ghost[k].(Tag); is && t.S != "" {
				return false, "ghost " + k
			}
		}
	}
	var reach map[ObjID]bool
	for _, id := range sortedObjs(b.heap) {
		ob := b.heap[id]
		oh := h.heap[id]
		if oh == nil {
			if !ob.input && !h.in.isGlobal(id) {
				// nothing h says is about it: every reference was compared
				continue
			}
			if ob.input && strings.Contains(string(id), "'~") {
				if reach == nil {
					reach = h.reachable()
				}
				if !reach[id] {
					continue
				}
			}
			oh = h.objOf(id)
		}
		if !m.object(oh, ob) {
			return false, fmt.Sprintf("object %s: %s", id, m.why)
		}
	}
	for _, id := range sortedObjs(h.heap) {
		if _, ok := b.heap[id]; ok {
			continue
		}
		if ob := b.objOf(id); ob != nil {
			if !m.object(h.heap[id], ob) {
				return false, fmt.Sprintf("object %s: %s", id, m.why)
			}
		}
	}
	for _, p := range m.pend {
		l, ok := safeSubst(p.lh, m.ints)
		if !ok || !(l.eq(p.lb) || b.poly.entailsEq(l, p.lb)) {
			return false, fmt.Sprintf("%v vs %v", p.lh, p.lb)
		}
	}
	for _, c := range h.poly.cs {
		e, ok := safeSubst(c, m.ints)
		if !ok || !b.poly.entails(e) {
			return false, fmt.Sprintf("constraint %v >= 0 (now %v)", c, e)
		}
	}
	// intrinsic bounds of bound symbols
	for s, l := range m.ints {
		in := s.info()
		if l.eq(LS(s)) {
			continue
		}
		if in.lo != noLo && !b.poly.entails(l.addK(-in.lo)) {
			return false, fmt.Sprintf("bound of %v", LS(s))
		}
		if in.hi != noHi && !b.poly.entails(l.neg().addK(in.hi)) {
			return false, fmt.Sprintf("bound of %v", LS(s))
		}
	}
	for s, set := range h.sets {
		l := LS(s)
		if x, ok := m.ints[s]; ok {
			l = x
		}
		vs := b.valSet(l)
		if vs == nil || len(unionInts(vs, set)) > len(set) {
			return false, fmt.Sprintf("set of %v", l)
		}
	}
	for _, d := range h.diseq {
		e, ok := safeSubst(d, m.ints)
		if !ok || !b.knowsNE(e) {
			return false, "disequality"
		}
	}
	for k, v := range h.facts {
		if strings.HasPrefix(k, "nil:") {
			var n int
			fmt.Sscanf(k, "nil:%d", &n)
			if x, ok := m.ns[n]; ok {
				t := b.isNil(x)
				if (v && t == triNil) || (!v && t == triNon) {
					continue
				}
				return false, "fact " + k
			}
		}
		if c, ok := m.atoms[k]; ok {
			e := b.eval(c)
			if (v && e == 1) || (!v && e == 0) {
				continue
			}
			return false, "fact " + k
		}
		if w, ok := b.facts[k]; !ok || w != v {
			return false, "fact " + k
		}
	}
	for k, v := range h.streq {
		id := k
		if x, ok := m.terms[k]; ok {
			id = x.id
			if x.op == "const" && x.s == v {
				continue
			}
		}
		if w, ok := b.streq[id]; !ok || w != v {
			return false, "string fact"
		}
	}
	return true, ""
}

func regName(info *FnInfo, i int) string {
	for v, n := range info.num {
		if n == i {
			return v.Name()
		}
	}
	return "?"
}

// ---------------------------------------------------------------- loops: naming of fresh objects

// renameObjs replaces object ids everywhere in the state.
func (st *State) renameObjs(m map[ObjID]ObjID) {
	if len(m) == 0 {
		return
	}
	rn := func(o ObjID) ObjID {
		if n, ok := m[o]; ok {
			return n
		}
		return o
	}
	var rv func(v Val) Val
	var rs func(s *Summ) *Summ
	rs = func(s *Summ) *Summ {
		if s == nil {
			return nil
		}
		n := *s
		n.objs = nil
		for _, o := range s.objs {
			n.objs = unionObjs(n.objs, []ObjID{rn(o)})
		}
		n.f = nil
		for _, x := range s.f {
			n.f = append(n.f, rs(x))
		}
		n.alts = nil
		for _, x := range s.alts {
			n.alts = append(n.alts, SAlt{x.T, rs(x.S)})
		}
		return &n
	}
	ra := func(a *Arr) *Arr {
		n := a.clone()
		for i := range n.ents {
			n.ents[i].v = rv(n.ents[i].v)
		}
		n.def = rs(n.def)
		return n
	}
	rv = func(v Val) Val {
		switch x := v.(type) {
		case Ptr:
			hit := false
			for _, l := range x.Locs {
				if _, ok := m[l.obj]; ok {
					hit = true
				}
			}
			if !hit {
				return x
			}
			var ls []Loc
			for _, l := range x.Locs {
				nl := Loc{rn(l.obj), l.path}
				dup := false
				for _, k := range ls {
					if k.key() == nl.key() {
						dup = true
					}
				}
				if !dup {
					ls = append(ls, nl)
				}
			}
			x.Locs = ls
			return x
		case Slice:
			var os []ObjID
			for _, o := range x.Objs {
				os = unionObjs(os, []ObjID{rn(o)})
			}
			x.Objs = os
			return x
		case Iface:
			al := make([]IAlt, len(x.Alts))
			for i, a := range x.Alts {
				al[i] = IAlt{a.T, rv(a.V)}
			}
			x.Alts = al
			return x
		case Struct:
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = rv(x.F[i])
			}
			return Struct{f}
		case Tuple:
			f := make([]Val, len(x.V))
			for i := range f {
				f[i] = rv(x.V[i])
			}
			return Tuple{f}
		case Func:
			fs := make([]FnVal, len(x.Fns))
			for i, f := range x.Fns {
				bs := make([]Val, len(f.Binds))
				for k := range bs {
					bs[k] = rv(f.Binds[k])
				}
				fs[i] = FnVal{f.Fn, bs}
			}
			x.Fns = fs
			return x
		case ArrV:
			return ArrV{ra(x.A)}
		case SummV:
			return SummV{rs(x.S)}
		case Opaque:
			x.Sum = rs(x.Sum)
			return x
		case RangeIter:
			x.X = rv(x.X)
			return x
		}
		return v
	}
	f := st.wFrame()
	for i := range f.regs {
		if f.regs[i] != nil {
			f.regs[i] = rv(f.regs[i])
		}
	}
	nd := make([]Deferred, len(f.defers))
	for i, d := range f.defers {
		nd[i] = d
		nd[i].fn = rv(d.fn)
		as := make([]Val, len(d.args))
		for k := range as {
			as[k] = rv(d.args[k])
		}
		nd[i].args = as
	}
	f.defers = nd
	for _, k := range sortedGhost(st.ghost) {
		st.setGhost(k, rv(st.ghost[k]))
	}
	for _, id := range sortedObjs(st.heap) {
		o := *st.heap[id]
		if o.arr != nil {
			o.arr = ra(o.arr)
		}
		if o.mp != nil {
			n := *o.mp
			n.ents = append([]MEnt(nil), n.ents...)
			for i := range n.ents {
				n.ents[i].k, n.ents[i].v = rv(n.ents[i].k), rv(n.ents[i].v)
			}
			n.kdef, n.vdef = rs(n.kdef), rs(n.vdef)
			o.mp = &n
		}
		if o.v != nil {
			o.v = rv(o.v)
		}
		st.setObj(&o)
	}
	for old, nw := range m {
		o := st.heap[old]
		if o == nil {
			continue
		}
		no := *o
		no.id = nw
		if prev := st.heap[nw]; prev != nil && nw != old {
			no = *st.mergeObjs(prev, &no)
		} else if counted(string(nw)) && !no.summ {
			no = *st.mergeObjs(&no, &no)
		}
		st.delObj(old)
		st.setObj(&no)
	}
}

// mergeObjs makes one summary object out of two of the same state.
func (st *State) mergeObjs(x, y *Obj) *Obj {
	r := *x
	r.summ = true
	r.flags = map[string]bool{}
	for k := range x.flags {
		r.flags[k] = true
	}
	for k := range y.flags {
		r.flags[k] = true
	}
	switch x.kind {
	case 'a':
		if y.kind == 'a' {
			a := &Arr{elem: x.arr.elem, label: x.arr.label, bytes: x.arr.bytes, deps: unionDeps(x.arr.deps, y.arr.deps)}
			a.def = joinSumm(st.summArr(x.arr), st.summArr(y.arr), true)
			termCounter++
			s := newSym("n", 0, maxLen*2)
			a.n = LS(s)
			r.arr = a
		}
	case 'm':
		if y.kind == 'm' {
			n := &MapC{kt: x.mp.kt, vt: x.mp.vt, n: LS(newSym("n", 0, maxLen))}
			for _, q := range []*MapC{x.mp, y.mp} {
				n.kdef = joinSumm(n.kdef, q.kdef, false)
				n.vdef = joinSumm(n.vdef, q.vdef, false)
				for _, e := range q.ents {
					n.kdef = joinSumm(n.kdef, st.summarize(e.k), false)
					n.vdef = joinSumm(n.vdef, st.summarize(e.v), false)
				}
			}
			r.mp = n
		}
	case 'v':
		r.v = SummV{joinSumm(st.summarize(x.v), st.summarize(y.v), true)}
	}
	return &r
}

// counted: the label names something of one evaluation of a call site.
func counted(s string) bool { return strings.ContainsRune(s, '\'') }

// uncount removes the evaluation counters from a label.
func uncount(s string, by string) string {
	if !counted(s) {
		return s
	}
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			k := i + 1
			for k < len(s) && (s[k] >= '0' && s[k] <= '9' || s[k] == '~') {
				k++
			}
			sb.WriteString(by)
			i = k - 1
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// expandCounted expands unknown values named after one evaluation of a call
// site, so that the objects they refer to show.
func (st *State) expandCounted() {
	var ex func(v Val) Val
	ex = func(v Val) Val {
		switch x := v.(type) {
		case Opaque:
			if counted(x.Label) {
				return ex(st.expand(x))
			}
		case Struct:
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = ex(x.F[i])
			}
			return Struct{f}
		case Tuple:
			f := make([]Val, len(x.V))
			for i := range f {
				f[i] = ex(x.V[i])
			}
			return Tuple{f}
		case Iface:
			al := make([]IAlt, len(x.Alts))
			for i, a := range x.Alts {
				al[i] = IAlt{a.T, ex(a.V)}
			}
			x.Alts = al
			return x
		}
		return v
	}
	if st.fr != nil {
		f := st.wFrame()
		for i, r := range f.regs {
			if r != nil {
				f.regs[i] = ex(r)
			}
		}
	}
	for _, id := range sortedObjs(st.heap) {
		o := st.heap[id]
		if o.kind == 'v' && !o.summ && o.v != nil {
			n := *o
			n.v = ex(o.v)
			st.setObj(&n)
		}
	}
}

// canonical renames objects made since base to one name per allocation site.
// reachCounted collects the objects a state refers to without having looked at
// them yet.
func (st *State) reachCounted(base map[ObjID]bool) {
	for round := 0; round < 2; round++ {
		st.expandCounted()
		w := &walker{seen: map[*Term]bool{}}
		var ids []ObjID
		w.obj = func(id ObjID) {
			if !base[id] {
				base[id] = true
				ids = append(ids, id)
			}
		}
		st.walk(w)
		for _, id := range ids {
			if _, ok := st.heap[id]; ok || !counted(string(id)) {
				continue
			}
			if i, ok := st.in.inputs[id]; ok && !i.summ && i.kind == 'v' {
				st.objOf(id)
			}
		}
	}
}

func (st *State) canonical(base map[ObjID]bool) {
	st.gc()
	st.expandCounted()
	m := map[ObjID]ObjID{}
	w := &walker{seen: map[*Term]bool{}}
	var q []ObjID
	seen := map[ObjID]bool{}
	w.obj = func(id ObjID) {
		if !seen[id] {
			seen[id] = true
			q = append(q, id)
		}
	}
	st.walk(w)
	for _, id := range sortedObjs(st.heap) {
		w.obj(id)
	}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if base[id] || st.in.isGlobal(id) {
			continue
		}
		s := string(id)
		if counted(s) && strings.HasPrefix(s, "in:") {
			if !st.in.known(st, id) {
				continue
			}
			n := ObjID(uncount(s, "'~"))
			m[id] = n
			if _, ok := st.in.inputs[n]; !ok {
				i := st.in.inputs[id]
				i.summ = true
				i.label = uncount(i.label, "'~")
				st.in.inputs[n] = i
			}
			continue
		}
		if o := st.heap[id]; o == nil || o.input {
			continue
		}
		if i := strings.LastIndex(s, "#"); i >= 0 {
			m[id] = ObjID(s[:i] + "~")
		}
	}
	for a, b := range m {
		if a == b {
			delete(m, a)
		}
	}
	st.renameObjs(m)
}

var _ = ssa.Value(nil)

// widenIter is how often the loop head being widened has grown.
var widenIter int

// noLadder: bounds that grow are dropped, without trying weaker ones.
var noLadder bool
