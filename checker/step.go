package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) step(st *State, instr ssa.Instruction) []*State {
	one := []*State{st}
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		T := x.Type().(*types.Pointer).Elem()
		o := &Obj{T: T, kind: 'v', label: x.Comment}
		z := st.zero(T)
		if av, ok := z.(ArrV); ok {
			o.kind = 'a'
			o.arr = av.A
			o.T = av.A.elem
		} else {
			o.v = z
		}
		id := in.newObj(st, x, "v", o)
		st.setReg(x, Ptr{N: nonNil, Locs: []Loc{{obj: id}}})
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if a, ok := in.get(st, x.X).(Struct); ok {
				if b, ok := in.get(st, x.Y).(Struct); ok && len(a.F) == len(b.F) && len(a.F) <= 12 {
					return in.eqStructs(st, x, a, b)
				}
			}
		}
		in.binop(st, x)
	case *ssa.UnOp:
		return in.unop(st, x)
	case *ssa.ChangeType:
		v := in.get(st, x.X)
		st.setReg(x, v)
	case *ssa.Convert:
		return in.convert(st, x, x.X, x.Type())
	case *ssa.MultiConvert:
		return in.convert(st, x, x.X, x.Type())
	case *ssa.ChangeInterface:
		st.setReg(x, in.get(st, x.X))
	case *ssa.SliceToArrayPointer:
		v := in.get(st, x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s, ok := v.(Slice); ok {
			if !in.oblige(st, "array conversion", instr, cGE(s.Len.addK(-n))) {
				return nil
			}
		}
		st.setReg(x, st.expand(Opaque{T: x.Type(), Label: in.lbl("arrptr"), NN: true}))
	case *ssa.MakeInterface:
		v := in.get(st, x.X)
		if b, ok := x.X.Type().Underlying().(*types.Interface); ok && b != nil {
			st.setReg(x, v)
		} else {
			st.setReg(x, Iface{N: nonNil, Alts: []IAlt{{x.X.Type(), v}}})
		}
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, in.get(st, y))
		}
		st.setReg(x, Func{N: nonNil, Fns: []FnVal{{x.Fn.(*ssa.Function), b}}})
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		id := in.newObj(st, x, "m", &Obj{T: x.Type(), kind: 'm', mp: &MapC{kt: m.Key(), vt: m.Elem(), n: K(0)}})
		st.setReg(x, Ptr{N: nonNil, Locs: []Loc{{obj: id}}})
	case *ssa.MakeChan:
		n := in.intOf(st, x.Size)
		if !in.oblige(st, "channel size", x, cGE(n)) {
			return nil
		}
		o := &Obj{T: x.Type(), kind: 'c', v: Int{n}}
		id := in.newObj(st, x, "c", o)
		st.setReg(x, Ptr{N: nonNil, Locs: []Loc{{obj: id}}})
	case *ssa.MakeSlice:
		n, c := in.intOf(st, x.Len), in.intOf(st, x.Cap)
		if !in.oblige(st, "slice length", x, cGE(n)) || !in.oblige(st, "slice capacity", x, cGE(c.sub(n))) {
			return nil
		}
		e := x.Type().Underlying().(*types.Slice).Elem()
		id := in.newArr(st, x, "s", &Arr{elem: e, n: c, bytes: isByteType(e), def: st.summarize(st.zero(e)), label: fmt.Sprintf("make@%d", instrIndex(x))})
		st.setReg(x, Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: n, Cap: c})
	case *ssa.Extract:
		t := in.get(st, x.Tuple)
		if tv, ok := t.(Tuple); ok && x.Index < len(tv.V) {
			st.setReg(x, st.expandAll(tv.V[x.Index]))
		} else {
			st.setReg(x, st.expand(Opaque{T: x.Type(), Label: in.lbl("extract"), Sum: summAny(x.Type(), "", valDeps(t))}))
		}
	case *ssa.Field:
		v := in.get(st, x.X)
		if s, ok := v.(Struct); ok {
			st.setReg(x, st.expandAll(s.F[x.Field]))
		} else {
			st.setReg(x, st.expand(Opaque{T: x.Type(), Label: in.lbl("field"), Sum: summAny(x.Type(), "", valDeps(v))}))
		}
	case *ssa.FieldAddr:
		p := in.asPtr(st, in.get(st, x.X), x.X.Type())
		if !in.notNil(st, p.N, "dereference", x) {
			return nil
		}
		r := Ptr{N: nonNil}
		for _, l := range p.Locs {
			r.Locs = append(r.Locs, l.sub(Step{field: x.Field}))
		}
		st.setReg(x, r)
	case *ssa.Index:
		return in.index(st, x)
	case *ssa.IndexAddr:
		return in.indexAddr(st, x)
	case *ssa.Slice:
		return in.sliceOp(st, x)
	case *ssa.Lookup:
		return in.lookup(st, x)
	case *ssa.Range:
		v := in.get(st, x.X)
		nullCounter++
		st.setReg(x, RangeIter{X: v, Pos: K(0), ID: nullCounter})
	case *ssa.Next:
		return in.next(st, x)
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Store:
		p := in.asPtr(st, in.get(st, x.Addr), x.Addr.Type())
		if !in.notNil(st, p.N, "dereference", x) {
			return nil
		}
		v := in.get(st, x.Val)
		if len(p.Locs) > 1 {
			var out []*State
			for i, l := range p.Locs {
				s := st
				if i < len(p.Locs)-1 {
					s = st.clone()
				}
				in.doStore(s, l, v, x.Val.Type(), x)
				out = append(out, s)
			}
			return out
		}
		for _, l := range p.Locs {
			in.doStore(st, l, v, x.Val.Type(), x)
		}
	case *ssa.MapUpdate:
		return in.mapUpdate(st, x)
	case *ssa.Send:
		ch := in.get(st, x.Chan)
		v := in.get(st, x.X)
		return in.doSend(st, ch, v, x)
	case *ssa.Select:
		return in.selectOp(st, x)
	case *ssa.Go:
		c := in.callEv(st, x, x.Common(), nil, nil)
		if in.hooks.goCall != nil {
			in.hooks.goCall(in, st, c)
		}
		in.escape(st, c.args)
		if f, ok := in.calleeVal(st, x.Common()).(Func); ok {
			for _, y := range f.Fns {
				in.escape(st, y.Binds)
			}
		}
	case *ssa.Defer:
		f := st.wFrame()
		d := Deferred{call: x.Common(), pos: x}
		c := x.Common()
		if c.IsInvoke() {
			d.fn = in.get(st, c.Value)
		} else {
			d.fn = in.get(st, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, in.get(st, a))
		}
		f = st.wFrame()
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		return in.runDefers(st)
	case *ssa.Call:
		c := x.Common()
		var args []Val
		for _, a := range c.Args {
			args = append(args, in.get(st, a))
		}
		var out []*State
		fv := in.get(st, c.Value)
		for _, o := range in.invoke(st, x, c, fv, args) {
			if o.panicked {
				o.st.panicking = true
				out = append(out, o.st)
				continue
			}
			switch len(o.vals) {
			case 0:
				o.st.setReg(x, Tuple{})
			case 1:
				if _, ok := x.Type().(*types.Tuple); ok {
					o.st.setReg(x, Tuple{o.vals})
				} else {
					o.st.setReg(x, o.st.expandAll(o.vals[0]))
				}
			default:
				o.st.setReg(x, Tuple{o.vals})
			}
			out = append(out, o.st)
		}
		return out
	default:
		in.fail("unknown instruction %T in %s", instr, fname(instr.Parent()))
	}
	return one
}

func (in *Interp) lbl(s string) string {
	termCounter++
	return fmt.Sprintf("%s'%d", s, termCounter)
}

func (in *Interp) asPtr(st *State, v Val, T types.Type) Ptr {
	if p, ok := v.(Ptr); ok {
		return p
	}
	if p, ok := st.expand(Opaque{T: T, Label: in.lbl("ptr?"), Sum: summAny(T, "", valDeps(v))}).(Ptr); ok {
		return p
	}
	return Ptr{N: freshNull()}
}

func (in *Interp) asSlice(st *State, v Val, T types.Type) Slice {
	if s, ok := v.(Slice); ok {
		return s
	}
	if s, ok := st.expand(Opaque{T: T, Label: in.lbl("slice?"), Sum: summAny(T, "", valDeps(v))}).(Slice); ok {
		return s
	}
	return Slice{N: freshNull(), Len: LS(newSym("len?", 0, maxLen)), Cap: LS(newSym("cap?", 0, 2*maxLen)), Off: K(0)}
}

func (in *Interp) doStore(st *State, l Loc, v Val, T types.Type, at ssa.Instruction) {
	if in.hooks.store != nil {
		in.hooks.store(in, st, l, v, at)
	}
	if o := st.objOf(l.obj); o != nil {
		if o.kind == 'a' && len(l.path) > 0 && in.hooks.write != nil {
			in.hooks.write(in, st, o, l.path[0].idx, l.path[0].idx.addK(1), at)
		}
		if o.input {
			in.recordStore(st, o, l, v)
		}
	}
	st.store(l, v, T)
}

// recordStore notes what is stored into fields of objects other code sees.
func (in *Interp) recordStore(st *State, o *Obj, l Loc, v Val) {
	T := o.T
	key := ""
	var ft types.Type
	path := l.path
	if o.kind == 'a' && len(path) > 0 {
		path = path[1:]
	}
	for _, s := range path {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			if s.isIdx || s.field >= u.NumFields() {
				return
			}
			key = fieldKey(T, u, s.field)
			T = u.Field(s.field).Type()
			ft = T
		case *types.Array:
			T = u.Elem()
			key = ""
		default:
			return
		}
	}
	_ = ft
	if key != "" {
		in.noteInv(key, st.summarize(v))
		if x, ok := v.(Int); ok && debugStore == key {
			lo, _ := st.poly.min(x.L)
			fmt.Println("STORE", key, x.L, "min", lo, "in", fname(st.fr.fn), st.fr.ctx)
		}
	}
	in.noteStruct(st, T, v)
}

var debugStore = os.Getenv("AI_STORE")

// noteStruct records the fields of a whole struct value.
func (in *Interp) noteStruct(st *State, T types.Type, v Val) {
	x, ok := v.(Struct)
	if !ok {
		return
	}
	u, ok := T.Underlying().(*types.Struct)
	if !ok || u.NumFields() != len(x.F) {
		return
	}
	for i, f := range x.F {
		if o, is := f.(Opaque); is && o.Inv != "" {
			continue
		}
		if k := fieldKey(T, u, i); k != "" {
			in.noteInv(k, st.summarize(f))
		}
		in.noteStruct(st, u.Field(i).Type(), f)
	}
}

func (in *Interp) noteInv(key string, s *Summ) {
	if s == nil {
		return
	}
	if old, ok := in.invNew[key]; ok {
		s = joinSumm(old, s, false)
	}
	in.invNew[key] = s
}

// escape records what reachable objects look like when other code can see
// them.
func (in *Interp) escape(st *State, vs []Val) {
	seen := map[ObjID]bool{}
	var q []ObjID
	w := &walker{seen: map[*Term]bool{}}
	w.obj = func(o ObjID) {
		if !seen[o] {
			seen[o] = true
			q = append(q, o)
		}
	}
	for _, v := range vs {
		w.val(v)
	}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		o, ok := st.heap[id]
		if !ok {
			continue
		}
		w.object(o)
		in.snapshot(st, o)
	}
}

// noteVal records structures handed over by value.
func (in *Interp) noteVal(st *State, T types.Type, v Val) {
	switch x := v.(type) {
	case Struct:
		in.noteStruct(st, T, x)
	case Iface:
		for _, a := range x.Alts {
			in.noteVal(st, a.T, a.V)
		}
	}
}

func (in *Interp) snapshot(st *State, o *Obj) {
	switch o.kind {
	case 'v':
		in.noteStruct(st, o.T, o.v)
		if x, ok := o.v.(SummV); ok {
			in.noteSumm(o.T, x.S)
		}
	case 'a':
		for _, e := range o.arr.ents {
			in.noteStruct(st, o.arr.elem, e.v)
		}
		in.noteSumm(o.arr.elem, o.arr.def)
	case 'm':
		for _, e := range o.mp.ents {
			in.noteStruct(st, o.mp.vt, e.v)
		}
		in.noteSumm(o.mp.vt, o.mp.vdef)
	}
}

func (in *Interp) noteSumm(T types.Type, s *Summ) {
	if s == nil || s.kind != 't' {
		return
	}
	u, ok := T.Underlying().(*types.Struct)
	if !ok || u.NumFields() != len(s.f) {
		return
	}
	for i, f := range s.f {
		if k := fieldKey(T, u, i); k != "" {
			in.noteInv(k, f)
		}
		in.noteSumm(u.Field(i).Type(), f)
	}
}

// ---------------------------------------------------------------- memory operations

func (in *Interp) unop(st *State, x *ssa.UnOp) []*State {
	switch x.Op {
	case token.NOT:
		st.setReg(x, Bool{in.boolOf(st, x.X).not()})
	case token.SUB:
		if isInt(x.Type()) {
			st.setReg(x, Int{in.wrap(st, in.intOf(st, x.X).neg(), x.Type())})
		} else {
			st.setReg(x, Misc{valDeps(in.get(st, x.X)), "neg"})
		}
	case token.XOR:
		l := in.intOf(st, x.X)
		b := x.Type().Underlying().(*types.Basic)
		lo, hi, wide := intRange(b)
		if lo == 0 && !wide {
			st.setReg(x, Int{K(hi).sub(l)})
		} else {
			st.setReg(x, Int{K(-1).sub(l)})
		}
	case token.ARROW:
		ch := in.get(st, x.X)
		var out []*State
		T := x.X.Type().Underlying().(*types.Chan).Elem()
		for _, r := range in.doRecv(st, ch, T, x) {
			if in.hooks.recvDone != nil {
				in.hooks.recvDone(in, r.st, x)
			}
			if x.CommaOk {
				r.st.setReg(x, Tuple{[]Val{r.vals[0], r.vals[1]}})
			} else {
				r.st.setReg(x, r.vals[0])
			}
			out = append(out, r.st)
		}
		return out
	case token.MUL:
		p := in.asPtr(st, in.get(st, x.X), x.X.Type())
		if !in.notNil(st, p.N, "dereference", x) {
			return nil
		}
		if len(p.Locs) == 0 {
			st.setReg(x, st.expand(Opaque{T: x.Type(), Label: in.lbl("unknown")}))
			return []*State{st}
		}
		var out []*State
		for i, l := range p.Locs {
			s := st
			if i < len(p.Locs)-1 {
				s = st.clone()
			}
			if len(p.Locs) > 1 {
				if _, isReg := s.fr.info.num[x.X]; isReg {
					s.setReg(x.X, Ptr{p.N, []Loc{l}})
				}
			}
			v := in.doLoad(s, l, x.Type(), x)
			s.setReg(x, v)
			out = append(out, s)
		}
		return out
	}
	return []*State{st}
}

func (in *Interp) doLoad(st *State, l Loc, T types.Type, at ssa.Instruction) Val {
	v := st.load(l, T)
	// a string header read through a slice header (unsafe conversion)
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := v.(Slice); ok {
			v = Str{in.sliceTerm(st, s)}
		}
	}
	if in.hooks.load != nil {
		v = in.hooks.load(in, st, l, T, v, at)
	}
	return v
}

// sliceTerm is the text a byte slice holds now.
func (in *Interp) sliceTerm(st *State, s Slice) *Term {
	if st.isNil(s.N) == triNil || (s.Len.isK() && s.Len.c == 0) {
		return tConst("")
	}
	if len(s.Objs) == 1 {
		if o := st.objOf(s.Objs[0]); o != nil && o.kind == 'a' {
			return st.regionTerm(o, s.Off, s.Off.add(s.Len))
		}
	}
	var deps [][]string
	for _, id := range s.Objs {
		if o := st.objOf(id); o != nil && o.arr != nil {
			deps = append(deps, o.arr.deps)
		}
	}
	t := tFresh("bytes", unionDeps(deps...))
	st.addEQ(t.n.sub(s.Len))
	return t
}

// splitSlice makes one state per array a slice may point into.
func (in *Interp) splitSlice(st *State, v ssa.Value, s Slice) ([]*State, []Slice) {
	if len(s.Objs) <= 1 {
		return []*State{st}, []Slice{s}
	}
	var sts []*State
	var sls []Slice
	for i, id := range s.Objs {
		t := st
		if i < len(s.Objs)-1 {
			t = st.clone()
		}
		y := s
		y.Objs = []ObjID{id}
		if v != nil {
			if _, isReg := t.fr.info.num[v]; isReg {
				t.setReg(v, y)
			}
		}
		sts = append(sts, t)
		sls = append(sls, y)
	}
	return sts, sls
}

func (in *Interp) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	idx := in.intOf(st, x.Index)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := in.asSlice(st, in.get(st, x.X), x.X.Type())
		var out []*State
		sts, sls := in.splitSlice(st, x.X, s)
		for i, t := range sts {
			if !in.bounds(t, x, idx, sls[i].Len) {
				continue
			}
			r := Ptr{N: nonNil}
			for _, id := range sls[i].Objs {
				r.Locs = append(r.Locs, Loc{obj: id, path: []Step{{isIdx: true, idx: sls[i].Off.add(idx)}}})
			}
			t.setReg(x, r)
			out = append(out, t)
		}
		return out
	case *types.Pointer:
		p := in.asPtr(st, in.get(st, x.X), x.X.Type())
		if !in.notNil(st, p.N, "dereference", x) {
			return nil
		}
		n := u.Elem().Underlying().(*types.Array).Len()
		if !in.bounds(st, x, idx, K(n)) {
			return nil
		}
		r := Ptr{N: nonNil}
		for _, l := range p.Locs {
			r.Locs = append(r.Locs, l.sub(Step{isIdx: true, idx: idx}))
		}
		st.setReg(x, r)
	}
	return []*State{st}
}

func (in *Interp) bounds(st *State, at ssa.Instruction, idx, n Lin) bool {
	return in.oblige(st, "index", at, cGE(idx)) && in.oblige(st, "index", at, cGE(n.sub(idx).addK(-1)))
}

func (in *Interp) index(st *State, x *ssa.Index) []*State {
	idx := in.intOf(st, x.Index)
	v := in.get(st, x.X)
	switch y := v.(type) {
	case Str:
		if !in.bounds(st, x, idx, y.T.n) {
			return nil
		}
		st.setReg(x, Int{st.readByte(y.T, idx)})
		return []*State{st}
	case ArrV:
		if !in.bounds(st, x, idx, y.A.n) {
			return nil
		}
		tmp := &Obj{id: "tmp", kind: 'a', arr: y.A, summ: true}
		st.setReg(x, st.expandAll(st.readElem(tmp, idx)))
		return []*State{st}
	}
	if a, ok := x.X.Type().Underlying().(*types.Array); ok {
		if !in.bounds(st, x, idx, K(a.Len())) {
			return nil
		}
	}
	st.setReg(x, st.expand(Opaque{T: x.Type(), Label: in.lbl("elem"), Sum: summAny(x.Type(), "", valDeps(v))}))
	return []*State{st}
}

func (in *Interp) sliceOp(st *State, x *ssa.Slice) []*State {
	v := in.get(st, x.X)
	lo := K(0)
	if x.Low != nil {
		lo = in.intOf(st, x.Low)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		t := in.strOf(st, v)
		hi := t.n
		if x.High != nil {
			hi = in.intOf(st, x.High)
			if !in.oblige(st, "string slice", x, cGE(t.n.sub(hi))) {
				return nil
			}
		}
		if !in.oblige(st, "string slice", x, cGE(hi.sub(lo))) || !in.oblige(st, "string slice", x, cGE(lo)) {
			return nil
		}
		st.setReg(x, Str{in.subTerm(st, t, lo, hi)})
	case *types.Slice:
		s := in.asSlice(st, v, x.X.Type())
		hi := s.Len
		capn := s.Cap
		if x.High != nil {
			hi = in.intOf(st, x.High)
		}
		if x.Max != nil {
			mx := in.intOf(st, x.Max)
			if !in.oblige(st, "slice capacity", x, cGE(s.Cap.sub(mx))) || !in.oblige(st, "slice capacity", x, cGE(mx.sub(hi))) {
				return nil
			}
			capn = mx
		} else if x.High != nil {
			if !in.oblige(st, "slice bounds", x, cGE(s.Cap.sub(hi))) {
				return nil
			}
		}
		if !in.oblige(st, "slice bounds", x, cGE(hi.sub(lo))) || !in.oblige(st, "slice bounds", x, cGE(lo)) {
			return nil
		}
		st.setReg(x, Slice{N: s.N, Objs: s.Objs, Off: s.Off.add(lo), Len: hi.sub(lo), Cap: capn.sub(lo)})
	case *types.Pointer:
		p := in.asPtr(st, v, x.X.Type())
		if !in.notNil(st, p.N, "dereference", x) {
			return nil
		}
		n := u.Elem().Underlying().(*types.Array).Len()
		hi, mx := K(n), K(n)
		if x.High != nil {
			hi = in.intOf(st, x.High)
		}
		if x.Max != nil {
			mx = in.intOf(st, x.Max)
		}
		if !in.oblige(st, "slice bounds", x, cGE(K(n).sub(mx))) || !in.oblige(st, "slice bounds", x, cGE(mx.sub(hi))) || !in.oblige(st, "slice bounds", x, cGE(hi.sub(lo))) || !in.oblige(st, "slice bounds", x, cGE(lo)) {
			return nil
		}
		r := Slice{N: nonNil, Off: lo, Len: hi.sub(lo), Cap: mx.sub(lo)}
		for _, l := range p.Locs {
			if len(l.path) == 0 {
				r.Objs = append(r.Objs, l.obj)
			} else {
				// an array inside a struct: content unknown
				id := ObjID(in.lbl("in:sub"))
				in.inputObj(id, inputInfo{T: u.Elem().Underlying().(*types.Array).Elem(), kind: 'a', label: string(id), n: K(n), summ: true})
				r.Objs = append(r.Objs, id)
			}
		}
		st.setReg(x, r)
	}
	return []*State{st}
}

// subTerm is t[lo:hi].
func (in *Interp) subTerm(st *State, t *Term, lo, hi Lin) *Term {
	if v, ok := st.streq[t.id]; ok && lo.isK() && hi.isK() && hi.c <= int64(len(v)) && lo.c <= hi.c && lo.c >= 0 {
		return tConst(v[lo.c:hi.c])
	}
	if st.poly.entailsEq(lo, hi) {
		return tConst("")
	}
	if st.poly.entailsEq(lo, K(0)) && st.poly.entailsEq(hi, t.n) {
		return t
	}
	if t.op == "cat" {
		// cut at component borders
		p := K(0)
		var parts []*Term
		started := false
		for _, a := range t.args {
			q := p.add(a.n)
			if !started && lo.eq(p) {
				started = true
			}
			if started {
				if hi.eq(q) {
					return tCat(append(parts, a)...)
				}
				if a.op == "const" && hi.sub(p).isK() && hi.sub(p).c >= 0 && hi.sub(p).c <= int64(len(a.s)) {
					return tCat(append(parts, tConst(a.s[:hi.sub(p).c]))...)
				}
				parts = append(parts, a)
			} else if a.op == "const" && lo.sub(p).isK() && lo.sub(p).c >= 0 && lo.sub(p).c <= int64(len(a.s)) {
				d := lo.sub(p).c
				if hi.sub(p).isK() && hi.sub(p).c <= int64(len(a.s)) && hi.sub(p).c >= d {
					return tConst(a.s[d:hi.sub(p).c])
				}
				started = true
				parts = append(parts, tConst(a.s[d:]))
				if hi.eq(q) {
					return tCat(parts...)
				}
			}
			p = q
		}
	}
	return tSub(t, lo, hi)
}

// ---------------------------------------------------------------- maps

func (in *Interp) mapObj(st *State, v Val) *Obj {
	p, ok := v.(Ptr)
	if !ok || len(p.Locs) != 1 || len(p.Locs[0].path) != 0 {
		return nil
	}
	o := st.objOf(p.Locs[0].obj)
	if o == nil || o.kind != 'm' {
		return nil
	}
	return o
}

func (in *Interp) lookup(st *State, x *ssa.Lookup) []*State {
	v := in.get(st, x.X)
	k := in.get(st, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		t := in.strOf(st, v)
		idx := in.asInt(st, k, x.Index.Type())
		if !in.bounds(st, x, idx, t.n) {
			return nil
		}
		st.setReg(x, Int{st.readByte(t, idx)})
		return []*State{st}
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	fin := func(s *State, val Val, ok bool) *State {
		val = s.expandAll(val)
		if x.CommaOk {
			s.setReg(x, Tuple{[]Val{val, Bool{cK(ok)}}})
		} else {
			s.setReg(x, val)
		}
		return s
	}
	p, _ := v.(Ptr)
	if len(p.Locs) > 1 {
		var out []*State
		for i, l := range p.Locs {
			s := st
			if i < len(p.Locs)-1 {
				s = st.clone()
			}
			out = append(out, in.lookupIn(s, Ptr{p.N, []Loc{l}}, k, vt, fin)...)
		}
		return out
	}
	return in.lookupIn(st, v, k, vt, fin)
}

func (in *Interp) lookupIn(st *State, v, k Val, vt types.Type, fin func(*State, Val, bool) *State) []*State {
	o := in.mapObj(st, v)
	if o == nil {
		if p, ok := v.(Ptr); ok && st.isNil(p.N) == triNil {
			return []*State{fin(st, st.zero(vt), false)}
		}
		s := st.clone()
		return []*State{fin(st, Opaque{T: vt, Label: in.lbl("mapval")}, true), fin(s, s.zero(vt), false)}
	}
	m := o.mp
	var out []*State
	cur := st
	nilPossible := false
	if p, ok := v.(Ptr); ok && cur.isNil(p.N) != triNon {
		nilPossible = true
	}
	_ = nilPossible
	for i := len(m.ents) - 1; i >= 0; i-- {
		e := m.ents[i]
		c := in.eqCond(cur, e.k, k)
		switch cur.eval(c) {
		case 1:
			return append(out, fin(cur, e.v, true))
		case 0:
			continue
		}
		s := cur.clone()
		if s.assume(c) {
			out = append(out, fin(s, e.v, true))
		}
		if !cur.assume(c.not()) {
			return out
		}
	}
	if m.vdef != nil || o.summ {
		s := cur.clone()
		termCounter++
		val := s.instantiate(m.vdef, m.vt, fmt.Sprintf("%s'%d", o.id, termCounter), nil)
		if in.modular && !o.summ && len(m.ents) < 8 {
			// looked up again, it is the same
			val = s.expandAll(val)
			no := *o
			mp := *m
			mp.ents = append(m.ents[:len(m.ents):len(m.ents)], MEnt{k, val})
			no.mp = &mp
			s.setObj(&no)
		}
		out = append(out, fin(s, val, true))
	}
	return append(out, fin(cur, cur.zero(vt), false))
}

func (in *Interp) mapUpdate(st *State, x *ssa.MapUpdate) []*State {
	mv := in.get(st, x.Map)
	k := in.get(st, x.Key)
	v := in.get(st, x.Value)
	p, ok := mv.(Ptr)
	if ok {
		if !in.notNil(st, p.N, "map", x) {
			return nil
		}
	}
	if in.hooks.mapUpd != nil {
		in.hooks.mapUpd(in, st, mv, k, v, x)
	}
	in.putMap(st, mv, k, v)
	if ok {
		for _, l := range p.Locs {
			if o := st.objOf(l.obj); o != nil && o.input {
				in.noteStruct(st, x.Value.Type(), v)
			}
		}
	}
	return []*State{st}
}

func (in *Interp) putMap(st *State, mv, k, v Val) {
	p, _ := mv.(Ptr)
	weak := len(p.Locs) > 1
	for _, l := range p.Locs {
		o := st.objOf(l.obj)
		if o == nil || o.kind != 'm' {
			continue
		}
		no := *o
		m := *o.mp
		no.mp = &m
		if o.summ || weak {
			m.kdef = joinSumm(m.kdef, st.summarize(k), false)
			m.vdef = joinSumm(m.vdef, st.summarize(v), false)
			m.n = LS(newSym("maplen", 0, maxLen))
			st.setObj(&no)
			continue
		}
		var keep []MEnt
		grow := 1
		for _, e := range m.ents {
			switch st.eval(in.eqCond(st, e.k, k)) {
			case 1:
				grow = 0
				continue
			case 0:
				keep = append(keep, e)
			default:
				// may be replaced: becomes part of the unknown rest
				grow = -1
				m.kdef = joinSumm(m.kdef, st.summarize(e.k), false)
				m.vdef = joinSumm(m.vdef, st.summarize(e.v), false)
			}
		}
		if len(keep) > 40 {
			for _, e := range keep {
				m.kdef = joinSumm(m.kdef, st.summarize(e.k), false)
				m.vdef = joinSumm(m.vdef, st.summarize(e.v), false)
			}
			keep = nil
		}
		m.ents = append(keep, MEnt{k, v})
		if grow == 1 && m.vdef == nil {
			m.n = m.n.addK(1)
		} else if grow != 0 {
			n := newSym("maplen", 0, maxLen)
			st.addGE(LS(n).sub(o.mp.n))
			st.addGE(o.mp.n.addK(1).sub(LS(n)))
			m.n = LS(n)
		}
		st.setObj(&no)
	}
}

// next advances a range iteration.
func (in *Interp) next(st *State, x *ssa.Next) []*State {
	it, ok := in.get(st, x.Iter).(RangeIter)
	rng, _ := x.Iter.(*ssa.Range)
	if !ok || rng == nil {
		in.fail("range iterator")
	}
	if x.IsString {
		t := in.strOf(st, it.X)
		if in.exact > 0 && it.Pos.isK() && t.n.isK() {
			if it.Pos.c >= t.n.c {
				st.setReg(x, Tuple{[]Val{Bool{cK(false)}, Int{K(0)}, Int{K(0)}}})
				return []*State{st}
			}
			b := st.readByte(t, it.Pos)
			if b.isK() && b.c < 128 || st.poly.entails(b) && st.poly.entails(b.neg().addK(127)) {
				st.setReg(x, Tuple{[]Val{Bool{cK(true)}, Int{it.Pos}, Int{b}}})
				it.Pos = it.Pos.addK(1)
				st.setReg(rng, it)
				return []*State{st}
			}
		}
		end := st.clone()
		var out []*State
		if end.assume(cGE(it.Pos.sub(t.n))) {
			end.setReg(x, Tuple{[]Val{Bool{cK(false)}, Int{K(0)}, Int{K(0)}}})
			out = append(out, end)
		}
		if st.assume(cGE(t.n.sub(it.Pos).addK(-1))) {
			r := newSym("rune", 0, 0x10ffff)
			r.info().deps = t.deps
			w := newSym("width", 1, 4)
			p2 := it.Pos.add(LS(w))
			st.addGE(t.n.sub(p2))
			st.setReg(x, Tuple{[]Val{Bool{cK(true)}, Int{it.Pos}, Int{LS(r)}}})
			it.Pos = p2
			st.setReg(rng, it)
			out = append(out, st)
		}
		return out
	}
	mt := rng.X.Type().Underlying().(*types.Map)
	end := st.clone()
	end.setReg(x, Tuple{[]Val{Bool{cK(false)}, end.zero(mt.Key()), end.zero(mt.Elem())}})
	out := []*State{end}
	o := in.mapObj(st, it.X)
	if o != nil && in.exact > 0 && o.mp.vdef == nil && it.Pos.isK() {
		// one of the possible orders
		if it.Pos.c >= int64(len(o.mp.ents)) {
			return out
		}
		e := o.mp.ents[it.Pos.c]
		if in.mapsBack {
			e = o.mp.ents[int64(len(o.mp.ents))-1-it.Pos.c]
		}
		st.setReg(x, Tuple{[]Val{Bool{cK(true)}, e.k, e.v}})
		it.Pos = it.Pos.addK(1)
		st.setReg(rng, it)
		return []*State{st}
	}
	if o == nil {
		if p, ok := it.X.(Ptr); ok && st.isNil(p.N) == triNil {
			return out
		}
		st.setReg(x, Tuple{[]Val{Bool{cK(true)}, Opaque{T: mt.Key(), Label: in.lbl("key")}, Opaque{T: mt.Elem(), Label: in.lbl("val")}}})
		return append(out, st)
	}
	kd, vd := o.mp.kdef, o.mp.vdef
	for _, e := range o.mp.ents {
		kd = joinSumm(kd, st.summarize(e.k), false)
		vd = joinSumm(vd, st.summarize(e.v), false)
	}
	if vd == nil {
		return out
	}
	termCounter++
	k := st.instantiate(kd, mt.Key(), fmt.Sprintf("%s{key%d}", o.id, termCounter), nil)
	v := st.instantiate(vd, mt.Elem(), fmt.Sprintf("%s{val%d}", o.id, termCounter), nil)
	st.setReg(x, Tuple{[]Val{Bool{cK(true)}, k, v}})
	return append(out, st)
}

// ---------------------------------------------------------------- interfaces

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v, ok := in.get(st, x.X).(Iface)
	if !ok {
		v = Iface{N: freshNull(), Other: true, Label: in.lbl("iface?")}
	}
	var out []*State
	fin := func(s *State, val Val, ok bool) {
		if x.CommaOk {
			if !ok {
				val = s.zero(x.AssertedType)
			}
			s.setReg(x, Tuple{[]Val{val, Bool{cK(ok)}}})
		} else {
			if !ok {
				in.oblige(s, "type assertion", x, cK(false))
				return
			}
			s.setReg(x, val)
		}
		out = append(out, s)
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if t := st.isNil(v.N); t != triNon {
		s := st
		if t == triMaybe {
			s = st.clone()
			if !s.assume(nilCond(v.N)) {
				s = nil
			}
		}
		if s != nil {
			fin(s, nil, false)
		}
		if t == triNil || !st.assume(nilCond(v.N).not()) {
			return out
		}
	}
	for _, a := range v.Alts {
		s := st.clone()
		if toIface {
			good := types.Implements(a.T, x.AssertedType.Underlying().(*types.Interface))
			fin(s, Iface{N: nonNil, Alts: []IAlt{a}, Deps: v.Deps}, good)
		} else {
			good := types.Identical(a.T, x.AssertedType)
			if good {
				if _, isReg := s.fr.info.num[x.X]; isReg {
					s.setReg(x.X, Iface{N: nonNil, Alts: []IAlt{a}, Deps: v.Deps})
				}
			}
			fin(s, s.expandAll(a.V), good)
		}
	}
	if v.Other {
		s := st.clone()
		if toIface {
			fin(s, Iface{N: nonNil, Other: true, Label: v.Label, Deps: v.Deps}, true)
		} else {
			val := s.expand(Opaque{T: x.AssertedType, Label: in.lbl("assert"), NN: true})
			fin(s, val, true)
		}
		fin(st.clone(), nil, false)
	}
	return out
}

// ---------------------------------------------------------------- channels

func (in *Interp) doSend(st *State, ch, v Val, at ssa.Instruction) []*State {
	if in.hooks.chOps != nil {
		in.hooks.chOps(in, st, "send", ch, at)
	}
	if in.hooks.send != nil {
		in.hooks.send(in, st, ch, v, at)
	}
	in.escape(st, []Val{v})
	if p, ok := ch.(Ptr); ok && st.isNil(p.N) == triNil {
		return nil // blocks forever
	}
	return []*State{st}
}

// doRecv returns outcomes with values (v, ok).
func (in *Interp) doRecv(st *State, ch Val, T types.Type, at ssa.Instruction) []outcome {
	if in.hooks.chOps != nil {
		in.hooks.chOps(in, st, "recv", ch, at)
	}
	if p, ok := ch.(Ptr); ok && st.isNil(p.N) == triNil {
		return nil
	}
	cl := st.clone()
	var v Val
	have := false
	if in.hooks.recv != nil {
		v, have = in.hooks.recv(in, st, ch, T, at)
	}
	if !have {
		v = st.expand(Opaque{T: T, Label: in.lbl("recv")})
	}
	return []outcome{{st: st, vals: []Val{v, Bool{cK(true)}}}, {st: cl, vals: []Val{cl.zero(T), Bool{cK(false)}}}}
}

func (in *Interp) selectOp(st *State, x *ssa.Select) []*State {
	var out []*State
	// result: (index, recvOk, r0, r1, ...)
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	fill := func(s *State, idx int, ok bool, which int, v Val) {
		vals := []Val{Int{K(int64(idx))}, Bool{cK(ok)}}
		k := 0
		for _, ss := range x.States {
			if ss.Dir != types.RecvOnly {
				continue
			}
			T := ss.Chan.Type().Underlying().(*types.Chan).Elem()
			if k == which {
				vals = append(vals, v)
			} else {
				vals = append(vals, s.zero(T))
			}
			k++
		}
		s.setReg(x, Tuple{vals})
		if in.hooks.sel != nil {
			in.hooks.sel(in, s, x, idx)
		}
		out = append(out, s)
	}
	r := 0
	for i, ss := range x.States {
		s := st.clone()
		ch := in.get(s, ss.Chan)
		if ss.Dir == types.SendOnly {
			for _, y := range in.doSend(s, ch, in.get(s, ss.Send), x) {
				fill(y, i, false, -1, nil)
			}
			continue
		}
		T := ss.Chan.Type().Underlying().(*types.Chan).Elem()
		for _, o := range in.doRecv(s, ch, T, x) {
			ok := o.vals[1].(Bool).C.val
			fill(o.st, i, ok, r, o.vals[0])
		}
		r++
	}
	if !x.Blocking {
		fill(st, -1, false, -1, nil)
	}
	return out
}

// eqStructs compares field by field.
func (in *Interp) eqStructs(st *State, x *ssa.BinOp, a, b Struct) []*State {
	var out []*State
	eq := x.Op == token.EQL
	for i := range a.F {
		fa, fb := st.expandAll(a.F[i]), st.expandAll(b.F[i])
		if _, ok := fa.(Struct); ok {
			st.setReg(x, Bool{cFresh("struct comparison")})
			return append(out, st)
		}
		c := in.eqCond(st, fa, fb)
		switch st.eval(c) {
		case 1:
			continue
		case 0:
			st.setReg(x, Bool{cK(!eq)})
			return append(out, st)
		}
		ne := st.clone()
		if ne.assume(c.not()) {
			ne.setReg(x, Bool{cK(!eq)})
			out = append(out, ne)
		}
		if !st.assume(c) {
			return out
		}
	}
	st.setReg(x, Bool{cK(eq)})
	return append(out, st)
}
