package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// safeLin evaluates f, which may overflow 64 bits.
func safeLin(f func() Lin) (l Lin, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(linOverflow); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

// wrap brings the exact value l into the range of type T.
func (in *Interp) wrap(st *State, l Lin, T types.Type) Lin {
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return l
	}
	lo, hi, full := intRange(b)
	if l.isK() {
		if full || (l.c >= lo && l.c <= hi) {
			if full && lo == 0 && l.c < 0 {
				return in.opaqueInt(st, "wrap", T, l)
			}
			return l
		}
		switch {
		case lo == 0:
			return K(l.c & hi)
		default:
			span := hi - lo + 1
			v := (l.c - lo) % span
			if v < 0 {
				v += span
			}
			return K(v + lo)
		}
	}
	if full {
		if lo == 0 && !st.poly.entails(l) {
			return in.opaqueInt(st, "wrap", T, l)
		}
		if linWide(l) {
			// sums of unbounded numbers may overflow
			if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 {
				return l
			}
			_, q1 := st.poly.quickLo(l)
			_, q2 := st.poly.quickLo(l.neg())
			if q1 && q2 {
				return l // both bounds fit
			}
			a, ok1 := st.poly.min(l)
			z, ok2 := st.poly.max(l)
			if ok1 && ok2 && a > -(1<<61) && z < 1<<61 {
				return l
			}
			return in.opaqueInt(st, "wrap", T, l)
		}
		return l
	}
	if st.poly.entails(l.addK(-lo)) && st.poly.entails(l.neg().addK(hi)) {
		return l
	}
	if lo == 0 {
		// terms that are multiples of 2^n vanish
		m := hi + 1
		var r Lin
		r.c = l.c & hi
		for _, t := range l.t {
			if t.k%m != 0 {
				r.t = append(r.t, lterm{t.s, t.k})
			}
		}
		if len(r.t) < len(l.t) || r.c != l.c {
			if st.poly.entails(r) && st.poly.entails(r.neg().addK(hi)) {
				return r
			}
		}
		// a sum of bits: reduce each coefficient
		if bs, ok := bitsOf(st, l); ok {
			var keep Lin
			for i, x := range bs {
				if i < bits.Len64(uint64(hi)) {
					keep = keep.add(x.scale(1 << i))
				}
			}
			return keep
		}
	}
	return in.opaqueInt(st, "wrap", T, l)
}

// opaqueInt is an unknown number determined by l.
func (in *Interp) opaqueInt(st *State, what string, T types.Type, ls ...Lin) Lin {
	key := what + "(" + T.String()
	var d [][]string
	for _, l := range ls {
		key += "," + l.key()
		d = append(d, linDeps(l))
	}
	key += ")"
	lo, hi := int64(noLo), int64(noHi)
	wide := true
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		lo, hi, wide = intRange(b)
	}
	s := keyedSym(key, lo, hi)
	i := s.info()
	i.wide = wide
	if i.deps == nil {
		i.deps = unionDeps(d...)
	}
	return LS(s)
}

// bitsOf decomposes a non-negative number into bits (each 0/1 Lin), lowest
// first: constants, sums of distinct weighted bits, and single bounded
// symbols.
func bitsOf(st *State, l Lin) ([]Lin, bool) {
	if l.isK() {
		if l.c < 0 {
			return nil, false
		}
		var out []Lin
		for c := l.c; c > 0; c >>= 1 {
			out = append(out, K(c&1))
		}
		return out, true
	}
	if l.c < 0 {
		return nil, false
	}
	out := make([]Lin, 0, 16)
	put := func(i int, x Lin) bool {
		if i > 40 {
			return false
		}
		for len(out) <= i {
			out = append(out, K(0))
		}
		if !(out[i].isK() && out[i].c == 0) {
			return false
		}
		out[i] = x
		return true
	}
	for i, c := 0, l.c; c > 0; i, c = i+1, c>>1 {
		if c&1 == 1 && !put(i, K(1)) {
			return nil, false
		}
	}
	for _, t := range l.t {
		if t.k <= 0 || t.k&(t.k-1) != 0 {
			return nil, false
		}
		sh := bits.TrailingZeros64(uint64(t.k))
		lo, hi := st.poly.quickBounds(t.s)
		if in := t.s.info(); in.lo > lo {
			lo = in.lo
		}
		if lo < 0 || hi > 1<<17 {
			return nil, false
		}
		in := t.s.info()
		if in.lo == 0 && in.hi == 1 {
			if !put(sh, LS(t.s)) {
				return nil, false
			}
			continue
		}
		if in.hi > 1<<17 {
			return nil, false
		}
		n := bits.Len64(uint64(in.hi))
		for i := 0; i < n; i++ {
			b := keyedSym(fmt.Sprintf("bit(%d,%d)", t.s, i), 0, 1)
			bi := b.info()
			if bi.deps == nil {
				bi.deps = in.deps
				bi.name = fmt.Sprintf("%s.bit%d", in.name, i)
			}
			if !put(sh+i, LS(b)) {
				return nil, false
			}
		}
	}
	return out, true
}

func fromBits(bs []Lin) Lin {
	r := K(0)
	for i, b := range bs {
		r = r.add(b.scale(1 << i))
	}
	return r
}

func bitAt(b []Lin, i int) Lin {
	if i < len(b) {
		return b[i]
	}
	return K(0)
}

func (in *Interp) bitop(st *State, op token.Token, a, b Lin, T types.Type) Lin {
	if a.isK() && b.isK() {
		switch op {
		case token.AND:
			return K(a.c & b.c)
		case token.OR:
			return K(a.c | b.c)
		case token.XOR:
			return K(a.c ^ b.c)
		case token.AND_NOT:
			return K(a.c &^ b.c)
		}
	}
	// disjoint by alignment
	if op == token.OR || op == token.XOR {
		for k := 0; k < 2; k++ {
			x, y := a, b
			if k == 1 {
				x, y = b, a
			}
			g := x.c
			for _, t := range x.t {
				g = gcd64(g, t.k)
			}
			if g < 0 {
				g = -g
			}
			al := int64(1) << bits.TrailingZeros64(uint64(g))
			if g != 0 && al > 1 && st.poly.entails(y) && st.poly.entails(y.neg().addK(al-1)) && st.poly.entails(x) {
				return x.add(y)
			}
		}
	}
	if op == token.AND {
		// the whole range is kept
		for k := 0; k < 2; k++ {
			x, m := a, b
			if k == 1 {
				x, m = b, a
			}
			if m.isK() && m.c > 0 && (m.c&(m.c+1)) == 0 && st.poly.entails(x) && st.poly.entails(x.neg().addK(m.c)) {
				return x
			}
		}
	}
	ba, ok1 := bitsOf(st, a)
	bb, ok2 := bitsOf(st, b)
	if !ok1 && op == token.AND && b.isK() && b.c >= 0 || !ok2 && op == token.AND && a.isK() && a.c >= 0 {
		r := in.opaqueInt(st, "and", T, a, b)
		m := b.c
		if a.isK() {
			m = a.c
		}
		st.addGE(r)
		st.addGE(r.neg().addK(m))
		return r
	}
	if !ok1 || !ok2 {
		r := in.opaqueInt(st, op.String(), T, a, b)
		if op == token.AND {
			for _, x := range []Lin{a, b} {
				if st.poly.entails(x) {
					st.addGE(r)
					st.addGE(x.sub(r))
				}
			}
		}
		return r
	}
	n := len(ba)
	if len(bb) > n {
		n = len(bb)
	}
	out := make([]Lin, n)
	for i := range out {
		x, y := bitAt(ba, i), bitAt(bb, i)
		var r Lin
		switch {
		case x.isK() && y.isK():
			switch op {
			case token.AND:
				r = K(x.c & y.c)
			case token.OR:
				r = K(x.c | y.c)
			case token.XOR:
				r = K(x.c ^ y.c)
			case token.AND_NOT:
				r = K(x.c &^ y.c)
			}
		case op == token.AND && (x.isK() || y.isK()):
			k, v := x, y
			if y.isK() {
				k, v = y, x
			}
			if k.c == 1 {
				r = v
			}
		case op == token.AND_NOT && y.isK():
			if y.c == 0 {
				r = x
			}
		case op == token.OR && (x.isK() || y.isK()):
			k, v := x, y
			if y.isK() {
				k, v = y, x
			}
			if k.c == 1 {
				r = K(1)
			} else {
				r = v
			}
		case op == token.XOR && (x.isK() || y.isK()):
			k, v := x, y
			if y.isK() {
				k, v = y, x
			}
			if k.c == 1 {
				r = K(1).sub(v)
			} else {
				r = v
			}
		case x.eq(y):
			switch op {
			case token.AND, token.OR:
				r = x
			}
		default:
			s := keyedSym(fmt.Sprintf("bit%s(%s,%s)", op, x.key(), y.key()), 0, 1)
			if i := s.info(); i.deps == nil {
				i.deps = unionDeps(linDeps(x), linDeps(y))
			}
			r = LS(s)
		}
		out[i] = r
	}
	return fromBits(out)
}

func (in *Interp) binop(st *State, x *ssa.BinOp) {
	a, b := in.get(st, x.X), in.get(st, x.Y)
	switch x.Op {
	case token.EQL:
		st.setReg(x, Bool{in.eqCond(st, a, b)})
		return
	case token.NEQ:
		st.setReg(x, Bool{in.eqCond(st, a, b).not()})
		return
	}
	if isInt(x.X.Type()) {
		la, lb := in.asInt(st, a, x.X.Type()), in.asInt(st, b, x.Y.Type())
		switch x.Op {
		case token.LSS:
			st.setReg(x, Bool{cGE(lb.sub(la).addK(-1))})
		case token.LEQ:
			st.setReg(x, Bool{cGE(lb.sub(la))})
		case token.GTR:
			st.setReg(x, Bool{cGE(la.sub(lb).addK(-1))})
		case token.GEQ:
			st.setReg(x, Bool{cGE(la.sub(lb))})
		default:
			l, ok := safeLin(func() Lin { return in.arith(st, x.Op, la, lb, x.Type(), x) })
			if !ok {
				l = in.opaqueInt(st, "big", x.Type(), la, lb)
			}
			st.setReg(x, Int{l})
		}
		return
	}
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		ta, tb := in.strOf(st, a), in.strOf(st, b)
		if x.Op == token.ADD {
			st.setReg(x, Str{tCat(ta, tb)})
			return
		}
		if ka, ok := constText(st, ta); ok {
			if kb, ok := constText(st, tb); ok {
				switch x.Op {
				case token.LSS:
					st.setReg(x, Bool{cK(ka < kb)})
				case token.LEQ:
					st.setReg(x, Bool{cK(ka <= kb)})
				case token.GTR:
					st.setReg(x, Bool{cK(ka > kb)})
				default:
					st.setReg(x, Bool{cK(ka >= kb)})
				}
				return
			}
		}
		st.setReg(x, Bool{cAtom(fmt.Sprintf("str%s:t%d:t%d", x.Op, ta.id, tb.id))})
		return
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		st.setReg(x, Bool{cFresh("cmp")})
		return
	}
	st.setReg(x, Misc{unionDeps(valDeps(a), valDeps(b)), "arith"})
}

func (in *Interp) arith(st *State, op token.Token, a, b Lin, T types.Type, at ssa.Instruction) Lin {
	switch op {
	case token.ADD:
		return in.wrap(st, a.add(b), T)
	case token.SUB:
		return in.wrap(st, a.sub(b), T)
	case token.MUL:
		if a.isK() {
			return in.wrap(st, b.scale(a.c), T)
		}
		if b.isK() {
			return in.wrap(st, a.scale(b.c), T)
		}
		r := in.opaqueInt(st, "mul", T, a, b)
		if st.poly.entails(a) && st.poly.entails(b) && !linWide(a) && !linWide(b) {
			st.addGE(r)
		}
		return r
	case token.QUO, token.REM:
		if !b.isK() {
			in.oblige(st, "division by zero", at, cEQ(b).not())
			r := in.opaqueInt(st, op.String(), T, a, b)
			if op == token.REM {
				if st.poly.entails(b.addK(-1)) {
					st.addGE(b.addK(-1).sub(r))
					st.addGE(b.addK(-1).add(r))
					if st.poly.entails(a) {
						st.addGE(r)
					}
				}
			} else if st.poly.entails(a) && st.poly.entails(b.addK(-1)) {
				st.addGE(r)
				st.addGE(a.sub(r))
			}
			return r
		}
		if b.c == 0 {
			in.oblige(st, "division by zero", at, cK(false))
			return K(0)
		}
		if a.isK() {
			if op == token.QUO {
				return K(a.c / b.c)
			}
			return K(a.c % b.c)
		}
		if op == token.QUO {
			// exact division
			ok := a.c%b.c == 0
			for _, t := range a.t {
				if t.k%b.c != 0 {
					ok = false
				}
			}
			if ok && b.c > 0 {
				r := Lin{c: a.c / b.c}
				for _, t := range a.t {
					r.t = append(r.t, lterm{t.s, t.k / b.c})
				}
				return r
			}
		}
		q := in.opaqueInt(st, "quo", T, a, b)
		if b.c > 0 && st.poly.entails(a) {
			r := a.sub(q.scale(b.c))
			st.addGE(q)
			st.addGE(r)
			st.addGE(r.neg().addK(b.c - 1))
			if op == token.REM {
				return r
			}
			return q
		}
		if op == token.REM && b.c != 0 {
			m := b.c
			if m < 0 {
				m = -m
			}
			r := in.opaqueInt(st, "rem", T, a, b)
			st.addGE(r.addK(m - 1))
			st.addGE(r.neg().addK(m - 1))
			return r
		}
		return q
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return in.wrap(st, in.bitop(st, op, a, b, T), T)
	case token.SHL:
		if b.isK() && b.c >= 0 && b.c < 62 {
			return in.wrap(st, a.scale(1<<uint(b.c)), T)
		}
		if !b.isK() {
			in.oblige(st, "shift count", at, cGE(b))
		}
		return in.opaqueInt(st, "shl", T, a, b)
	case token.SHR:
		if !b.isK() {
			in.oblige(st, "shift count", at, cGE(b))
			r := in.opaqueInt(st, "shr", T, a, b)
			if st.poly.entails(a) {
				st.addGE(r)
				st.addGE(a.sub(r))
			}
			return r
		}
		if bs, ok := bitsOf(st, a); ok && b.c >= 0 {
			// exact multiples stay sums, others are split into bits
			if int(b.c) >= len(bs) {
				return K(0)
			}
			m := int64(1) << uint(b.c)
			ex := a.c%m == 0
			for _, t := range a.t {
				if t.k%m != 0 {
					ex = false
				}
			}
			if ex {
				r := Lin{c: a.c / m}
				for _, t := range a.t {
					r.t = append(r.t, lterm{t.s, t.k / m})
				}
				return r
			}
			return fromBits(bs[b.c:])
		}
		if b.c >= 0 && b.c < 62 && st.poly.entails(a) {
			m := int64(1) << uint(b.c)
			q := in.opaqueInt(st, "quo", T, a, K(m))
			st.addGE(q)
			st.addGE(a.sub(q.scale(m)))
			st.addGE(q.scale(m).sub(a).addK(m - 1))
			return q
		}
		return in.opaqueInt(st, "shr", T, a, b)
	}
	return in.opaqueInt(st, op.String(), T, a, b)
}

// eqCond is the condition a == b.
func (in *Interp) eqCond(st *State, a, b Val) Cond {
	a, b = st.expandAll(a), st.expandAll(b)
	switch x := a.(type) {
	case Int:
		if y, ok := b.(Int); ok {
			if l, ok := safeLin(func() Lin { return x.L.sub(y.L) }); ok {
				return cEQ(l)
			}
		}
	case Str:
		if y, ok := b.(Str); ok {
			return st.strCond(x.T, y.T)
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			if x.C.op == 'c' {
				if x.C.val {
					return y.C
				}
				return y.C.not()
			}
			if y.C.op == 'c' {
				if y.C.val {
					return x.C
				}
				return x.C.not()
			}
			vx, vy := st.eval(x.C), st.eval(y.C)
			if vx >= 0 && vy >= 0 {
				return cK(vx == vy)
			}
			if x.C.key() == y.C.key() {
				return cK(true)
			}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if st.isNil(x.N) == triNil {
				return nilCond(y.N)
			}
			if st.isNil(y.N) == triNil {
				return nilCond(x.N)
			}
			if st.isNil(x.N) == triNon && st.isNil(y.N) == triNon {
				if len(x.Locs) == 1 && len(y.Locs) == 1 {
					ox, oy := st.objOf(x.Locs[0].obj), st.objOf(y.Locs[0].obj)
					if ox != nil && oy != nil && !ox.summ && !oy.summ {
						if ox.id == oy.id {
							if x.Locs[0].key() == y.Locs[0].key() {
								return cK(true)
							}
						} else if !ox.input || !oy.input {
							return cK(false)
						}
					}
				}
			}
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if st.isNil(x.N) == triNil {
				return in.sliceNil(y)
			}
			if st.isNil(y.N) == triNil {
				return in.sliceNil(x)
			}
		}
	case Func:
		if y, ok := b.(Func); ok {
			if st.isNil(x.N) == triNil {
				return nilCond(y.N)
			}
			if st.isNil(y.N) == triNil {
				return nilCond(x.N)
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if st.isNil(x.N) == triNil {
				return nilCond(y.N)
			}
			if st.isNil(y.N) == triNil {
				return nilCond(x.N)
			}
			if len(x.Alts) == 1 && len(y.Alts) == 1 && !x.Other && !y.Other && st.isNil(x.N) == triNon && st.isNil(y.N) == triNon {
				if !types.Identical(x.Alts[0].T, y.Alts[0].T) {
					return cK(false)
				}
				return in.eqCond(st, x.Alts[0].V, y.Alts[0].V)
			}
			if x.Label != "" && x.Label == y.Label && x.Other && y.Other && len(x.Alts)+len(y.Alts) == 0 {
				return cK(true)
			}
		}
	}
	c := cFresh("eq")
	return c
}

func (in *Interp) sliceNil(s Slice) Cond {
	if s.Len.isK() && s.Len.c > 0 {
		return cK(false)
	}
	return nilCond(s.N, s.Len, s.Cap)
}

func (in *Interp) convert(st *State, x ssa.Value, from ssa.Value, T types.Type) []*State {
	v := in.get(st, from)
	instr := x.(ssa.Instruction)
	ft := from.Type().Underlying()
	switch to := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case to.Info()&types.IsInteger != 0:
			if i, ok := v.(Int); ok {
				st.setReg(x, Int{in.wrap(st, i.L, T)})
			} else if l, ok := floatLin(v); ok && in.exact > 0 && st.poly.entails(l.addK(1<<50)) && st.poly.entails(l.neg().addK(1<<50)) {
				// a whole number the float holds exactly
				st.setReg(x, Int{in.wrap(st, l, T)})
			} else {
				lo, hi, wide := intRange(to)
				s := newSym("conv", lo, hi)
				s.info().wide = wide
				s.info().deps = valDeps(v)
				st.setReg(x, Int{LS(s)})
			}
			return []*State{st}
		case to.Info()&types.IsString != 0:
			switch f := ft.(type) {
			case *types.Slice:
				s := in.asSlice(st, v, from.Type())
				sts, sls := in.splitSlice(st, from, s)
				for i, t := range sts {
					if isByteType(f.Elem()) {
						t.setReg(x, Str{in.sliceTerm(t, sls[i])})
					} else {
						t.setReg(x, Str{tFresh("runes", valDeps(v))})
					}
				}
				return sts
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					st.setReg(x, v)
					return []*State{st}
				}
				if i, ok := v.(Int); ok && i.L.isK() {
					st.setReg(x, Str{tConst(string(rune(i.L.c)))})
				} else if ok && st.poly.entails(i.L) && st.poly.entails(i.L.neg().addK(127)) {
					st.setReg(x, Str{tByte(i.L)})
				} else {
					t := tFresh("rune", valDeps(v))
					st.addGE(t.n.addK(-1))
					st.addGE(t.n.neg().addK(4))
					st.setReg(x, Str{t})
				}
				return []*State{st}
			}
		case to.Kind() == types.UnsafePointer:
			st.setReg(x, v)
			return []*State{st}
		case to.Info()&types.IsFloat != 0:
			st.setReg(x, Misc{valDeps(v), "float"})
			if i, ok := v.(Int); ok {
				st.setReg(x, floatOf(valDeps(v), i.L))
			}
			return []*State{st}
		}
	case *types.Slice:
		if f, ok := ft.(*types.Basic); ok && f.Info()&types.IsString != 0 {
			t := in.strOf(st, v)
			if isByteType(to.Elem()) {
				st.setReg(x, in.newBytes(st, instr, "b", t, to.Elem()))
			} else {
				n := newSym("runes", 0, maxLen)
				st.addGE(t.n.sub(LS(n)))
				id := in.newArr(st, instr, "r", &Arr{elem: to.Elem(), n: LS(n), def: &Summ{kind: 'i', lo: 0, hi: 0x10ffff}, deps: t.deps})
				st.setReg(x, Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: LS(n), Cap: LS(n)})
			}
			return []*State{st}
		}
		st.setReg(x, v)
		return []*State{st}
	case *types.Pointer:
		// from unsafe.Pointer
		st.setReg(x, v)
		return []*State{st}
	}
	st.setReg(x, Misc{valDeps(v), "conv"})
	if _, ok := T.Underlying().(*types.Basic); !ok {
		st.setReg(x, v)
	}
	return []*State{st}
}

// floats holds the numbers that float values made from whole numbers have.
var floats = map[string]Lin{}

func floatOf(deps []string, l Lin) Val {
	k := "float:" + l.key()
	floats[k] = l
	return Misc{deps, k}
}

func floatLin(v Val) (Lin, bool) {
	m, ok := v.(Misc)
	if !ok {
		return Lin{}, false
	}
	l, ok := floats[m.Label]
	return l, ok
}
