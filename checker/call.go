package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) calleeVal(st *State, c *ssa.CallCommon) Val { return in.get(st, c.Value) }

// callEv describes a call; fv and args may be given already evaluated.
func (in *Interp) callEv(st *State, instr ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val) *CallEv {
	if fv == nil {
		fv = in.get(st, c.Value)
	}
	if args == nil {
		for _, a := range c.Args {
			args = append(args, in.get(st, a))
		}
	}
	ev := &CallEv{instr: instr, common: c, args: args, T: c.Signature().Results()}
	if c.IsInvoke() {
		ev.method = c.Method
		ev.args = append([]Val{fv}, args...)
		ev.name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	} else if f, ok := fv.(Func); ok && len(f.Fns) == 1 && !f.Unknown {
		ev.fn = f.Fns[0].Fn
		ev.name = ev.fn.RelString(nil)
	}
	return ev
}

// invoke performs a call with evaluated operands.
func (in *Interp) invoke(st *State, instr ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val) []outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, instr, c, b.Name(), args)
	}
	T := c.Signature().Results()
	if c.IsInvoke() {
		r, ok := fv.(Iface)
		if !ok {
			r = Iface{N: freshNull(), Other: true, Label: in.lbl("recv?")}
		}
		if !in.notNil(st, r.N, "interface method call", instr) {
			return nil
		}
		var outs []outcome
		n := len(r.Alts)
		for i, a := range r.Alts {
			s := st
			if i < n-1 || r.Other {
				s = st.clone()
			}
			if n > 1 || r.Other {
				if v := c.Value; v != nil && s.fr != nil {
					if _, isReg := s.fr.info.num[v]; isReg && s.fr.regs[s.fr.info.num[v]] != nil {
						s.setReg(v, Iface{N: nonNil, Alts: []IAlt{a}, Deps: r.Deps})
					}
				}
			}
			m := in.p.ssa.LookupMethod(a.T, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				in.fail("method %s of %s", c.Method.Name(), a.T)
			}
			outs = append(outs, in.callFn(s, instr, c, m, append([]Val{a.V}, args...), nil, T)...)
		}
		if r.Other || n == 0 {
			ev := &CallEv{instr: instr, common: c, method: c.Method, iface: &r, args: append([]Val{fv}, args...), T: T}
			ev.name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
			outs = append(outs, in.callExtern(st, ev)...)
		}
		return outs
	}
	f, ok := fv.(Func)
	if !ok {
		f = Func{N: freshNull(), Unknown: true, Label: in.lbl("func?")}
	}
	if !in.notNil(st, f.N, "function call", instr) {
		return nil
	}
	var outs []outcome
	for i, g := range f.Fns {
		s := st
		if i < len(f.Fns)-1 || f.Unknown {
			s = st.clone()
		}
		outs = append(outs, in.callFn(s, instr, c, g.Fn, args, g.Binds, T)...)
	}
	if f.Unknown || len(f.Fns) == 0 {
		ev := &CallEv{instr: instr, common: c, unk: &f, args: args, T: T, name: "callback " + f.Label}
		outs = append(outs, in.callExtern(st, ev)...)
	}
	return outs
}

func (in *Interp) stackCount(st *State, fn *ssa.Function) int {
	n := 0
	for f := st.fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// sameCall: an earlier call of fn on the stack had the same arguments, and
// they refer to no memory that may have changed.
func (in *Interp) sameCall(st *State, fn *ssa.Function, args []Val) bool {
	if st.inexact {
		return false
	}
	for f := st.fr; f != nil; f = f.parent {
		if f.fn != fn {
			continue
		}
		same := true
		for i, p := range fn.Params {
			if i >= len(args) {
				return false
			}
			old := f.regs[f.info.num[p]]
			if old == nil || !plainType(p.Type()) || showVal(st.expandAll(old)) != showVal(st.expandAll(args[i])) {
				same = false
			}
		}
		if same {
			return true
		}
	}
	return false
}

func (in *Interp) callFn(st *State, instr ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, binds []Val, T *types.Tuple) []outcome {
	ev := &CallEv{instr: instr, common: c, fn: fn, args: args, T: T, name: fn.RelString(nil)}
	in.calls++
	if in.hooks.call != nil {
		if outs, ok := in.hooks.call(in, st, ev); ok {
			return outs
		}
	}
	own := fn.Blocks != nil && (in.p.inModule(fn) || fn.Synthetic != "" && fn.Blocks != nil && in.wrapperOfModule(fn))
	if fn.Blocks != nil && fn.Synthetic != "" && !own && (strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "instance")) {
		own = true
	}
	if own && in.hooks.inline != nil && !in.hooks.inline(in, st, fn) {
		if in.modular {
			return in.summaryCall(st, ev)
		}
		own = false
	}
	if own {
		if in.stackCount(st, fn) > 7 || (st.fr != nil && st.fr.depth > in.depthMx) {
			if in.recurs != nil {
				in.recurs(fn)
			}
			if in.exact > 0 {
				if in.sameCall(st, fn, args) {
					in.report(st, "unbounded-recursion", fname(fn), fn.Pos(), "%s calls itself again with the same arguments", fname(fn))
				}
				return nil // this path is not followed any further
			}
			in.report(st, "unbounded-recursion", fname(fn), fn.Pos(), "recursion of %s is not bounded by a constant", fname(fn))
			return in.havocCall(st, ev)
		}
		ctx := ""
		if st.fr != nil {
			ctx = st.fr.ctx
			if live, ok := st.fr.info.liveAft[instr]; ok {
				// what the caller does not need any more only splits states
				keep := live.clone()
				for _, op := range instr.Operands(nil) {
					if i, ok := st.fr.info.num[*op]; ok {
						keep.set(i)
					}
				}
				st.prune(keep)
			}
		}
		ctx = fmt.Sprint(in.site(ctx, fmt.Sprintf("call:%s:%d:%d:%s", instr.Parent().RelString(nil), instr.Block().Index, instrIndex(instr), fn.RelString(nil))))
		in.push(st, fn, args, binds, ctx)
		return in.runFn(st)
	}
	return in.callExtern(st, ev)
}

func (in *Interp) wrapperOfModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

// callExtern asks the models, or assumes the worst of an unknown function.
func (in *Interp) callExtern(st *State, ev *CallEv) []outcome {
	if ev.fn == nil && in.hooks.call != nil {
		if outs, ok := in.hooks.call(in, st, ev); ok {
			return outs
		}
	}
	in.extern[ev.name]++
	outs := in.externOuts(st, ev)
	if in.hooks.extern != nil {
		in.hooks.extern(in, st, ev, outs)
	}
	return outs
}

func (in *Interp) externOuts(st *State, ev *CallEv) []outcome {
	if in.exact > 0 {
		if outs, ok := in.exactModel(st, ev); ok {
			return outs
		}
	}
	if m, ok := models[ev.name]; ok {
		return m(in, st, ev)
	}
	if m := modelByShape(ev); m != nil {
		return m(in, st, ev)
	}
	return in.havocCall(st, ev)
}

// havocCall: results are arbitrary, everything reachable from the arguments
// that is writable may have changed, function arguments are called.
func (in *Interp) havocCall(st *State, ev *CallEv) []outcome {
	for _, a := range ev.args {
		in.havoc(st, a)
	}
	in.escape(st, ev.args)
	return in.results(st, ev, "")
}

// havoc forgets the content of what v points to.
func (in *Interp) havoc(st *State, v Val) {
	seen := map[ObjID]bool{}
	var visit func(v Val)
	obj := func(id ObjID) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.objOf(id)
		if o == nil {
			return
		}
		no := *o
		if in.exact > 0 {
			st.inexact = true
		}
		switch o.kind {
		case 'v':
			visit(o.v)
			if o.input && !strings.Contains(string(id), "g:") {
				// what other packages cannot see keeps its invariant
			}
			no.v = in.havocVal(st, o.v, o.T, string(id))
			if o.summ {
				no.v = SummV{st.summarize(no.v)}
			}
		case 'a':
			if in.havocAll && !in.mods.all && !in.mods.elems && !in.mods.ptr && len(in.mods.fields) == 0 {
				return
			}
			if in.hooks.write != nil {
				in.hooks.write(in, st, o, K(0), o.arr.n, nil)
			}
			for _, e := range o.arr.ents {
				visit(e.v)
			}
			na := o.arr.clone()
			na.ents, na.segs = nil, nil
			na.def = summAny(na.elem, "havoc", na.deps)
			if na.bytes {
				na.def = topByte
			}
			no.arr = na
		case 'm':
			if in.havocAll && !in.mods.all && !in.mods.elems {
				for _, e := range o.mp.ents {
					visit(e.v)
				}
				return
			}
			m := *o.mp
			for _, e := range m.ents {
				visit(e.v)
			}
			m.ents = nil
			m.kdef = summAny(m.kt, "havoc", nil)
			m.vdef = summAny(m.vt, "havoc", nil)
			m.n = LS(newSym("maplen", 0, maxLen))
			no.mp = &m
		}
		st.setObj(&no)
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case Ptr:
			for _, l := range x.Locs {
				obj(l.obj)
			}
		case Slice:
			for _, id := range x.Objs {
				obj(id)
			}
		case Struct:
			for _, f := range x.F {
				visit(f)
			}
		case Iface:
			for _, a := range x.Alts {
				visit(a.V)
			}
		case Tuple:
			for _, f := range x.V {
				visit(f)
			}
		}
	}
	visit(v)
}

// havocVal keeps unexported fields of the module's types: nobody outside can
// write them.
func (in *Interp) havocVal(st *State, v Val, T types.Type, label string) Val {
	if in.havocAll {
		if _, ok := v.(SummV); ok {
			return SummV{summAny(T, "havoc", nil)}
		}
		if s, ok := v.(Struct); ok && !in.mods.all {
			if u, ok := T.Underlying().(*types.Struct); ok {
				return in.havocFields(st, s, T, u)
			}
		} else if !ok && !in.mods.all && !in.mods.ptr {
			return v
		}
		return Opaque{T: T, Label: in.lbl("havoc")}
	}
	if x, ok := v.(SummV); ok {
		u, isS := T.Underlying().(*types.Struct)
		n, isN := T.(*types.Named)
		if isS && isN && x.S != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			r := &Summ{kind: 't'}
			for i := 0; i < u.NumFields(); i++ {
				f, ft := st.subSumm(x.S, T, Step{field: i})
				if u.Field(i).Exported() {
					f = summAny(ft, "havoc", nil)
				}
				r.f = append(r.f, f)
			}
			return SummV{r}
		}
		return SummV{summAny(T, "havoc", nil)}
	}
	if s, ok := v.(Struct); ok {
		if n, isN := T.(*types.Named); isN && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			u := T.Underlying().(*types.Struct)
			f := append([]Val(nil), s.F...)
			for i := range f {
				if u.Field(i).Exported() {
					f[i] = Opaque{T: u.Field(i).Type(), Label: in.lbl(label + "." + u.Field(i).Name())}
				}
			}
			return Struct{f}
		}
	}
	return Opaque{T: T, Label: in.lbl("havoc")}
}

// havocFields forgets the fields the callee may write.
func (in *Interp) havocFields(st *State, s Struct, T types.Type, u *types.Struct) Val {
	f := append([]Val(nil), s.F...)
	ff := in.p.fieldFacts()
	for i := range f {
		ft := u.Field(i).Type()
		k := fieldKey(T, u, i)
		switch {
		case k == "" || in.mods.fields[k] || in.mods.ptr && (ff.addr[k] || u.Field(i).Exported()):
			f[i] = Opaque{T: ft, Label: in.lbl("havoc"), Inv: k}
		default:
			if ns, ok := f[i].(Struct); ok {
				if nu, ok := ft.Underlying().(*types.Struct); ok {
					f[i] = in.havocFields(st, ns, ft, nu)
				}
			}
		}
	}
	return Struct{f}
}

var errorType = types.Universe.Lookup("error").Type()

// newErr is an unknown non-nil error.
func (in *Interp) newErr(label string) Iface {
	return Iface{N: nonNil, Other: true, Label: in.lbl(label)}
}

func isErr(T types.Type) bool { return types.Identical(T, errorType) }

// results makes unknown results; if the last one is an error, success and
// failure are separate states and pointers are valid on success.
func (in *Interp) results(st *State, ev *CallEv, label string) []outcome {
	n := ev.T.Len()
	if label == "" {
		label = shortName(ev.name)
	}
	var deps []string
	for _, a := range ev.args {
		deps = unionDeps(deps, st.depsOf(a))
	}
	mk := func(s *State, i int, nn bool) Val {
		T := ev.T.At(i).Type()
		o := Opaque{T: T, Label: in.lbl(label), NN: nn, Sum: &Summ{kind: 'o', T: T, deps: deps}}
		return s.expand(o)
	}
	if n == 0 {
		return []outcome{{st: st}}
	}
	if isErr(ev.T.At(n - 1).Type()) {
		f := st.clone()
		var ok, bad []Val
		for i := 0; i < n-1; i++ {
			ok = append(ok, mk(st, i, true))
			bad = append(bad, mk(f, i, false))
		}
		ok = append(ok, Iface{N: isNil})
		bad = append(bad, in.newErr("err:"+label))
		return []outcome{{st: st, vals: ok}, {st: f, vals: bad}}
	}
	var vals []Val
	for i := 0; i < n; i++ {
		vals = append(vals, mk(st, i, in.neverNil(ev, ev.T.At(i).Type())))
	}
	return []outcome{{st: st, vals: vals}}
}

// neverNil: a result of a library function that is not nil.
func (in *Interp) neverNil(ev *CallEv, T types.Type) bool {
	f := ev.fn
	if f == nil || strings.HasPrefix(pkgOf(f), modPath) {
		return false
	}
	name := f.Name()
	if strings.HasPrefix(name, "New") || strings.HasPrefix(name, "With") || strings.HasPrefix(name, "Must") {
		return true
	}
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Signature:
	case *types.Chan:
		return name != "Done"
	default:
		return false
	}
	for _, s := range []string{"Front", "Back", "Next", "Prev", "Find", "Lookup", "FuncForPC", "Get", "Load", "Swap"} {
		if strings.HasPrefix(name, s) {
			return false
		}
	}
	return true
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.TrimRight(s, ")")
}

// depsOf is where a value and the bytes it refers to come from.
func (st *State) depsOf(v Val) []string {
	switch x := v.(type) {
	case Slice:
		d := unionDeps(linDeps(x.Len))
		for _, id := range x.Objs {
			if o, ok := st.heap[id]; ok && o.arr != nil {
				d = unionDeps(d, o.arr.deps)
			} else if ok2, is := st.in.inputs[id]; is {
				d = unionDeps(d, []string{uncount(ok2.label, "")})
			}
		}
		return d
	case Iface:
		d := x.Deps
		for _, a := range x.Alts {
			d = unionDeps(d, st.depsOf(a.V))
		}
		return d
	case Tuple:
		var d []string
		for _, f := range x.V {
			d = unionDeps(d, st.depsOf(f))
		}
		return d
	}
	return valDeps(v)
}

// ---------------------------------------------------------------- builtins

func ret1(st *State, v Val) []outcome { return []outcome{{st: st, vals: []Val{v}}} }

func (in *Interp) builtin(st *State, instr ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []outcome {
	switch name {
	case "len", "cap":
		return ret1(st, Int{in.lenOf(st, args[0], c.Args[0].Type(), name == "cap")})
	case "append":
		return in.appendOp(st, instr, c, args)
	case "copy":
		return in.copyOp(st, instr, c, args)
	case "delete":
		if o := in.mapObj(st, args[0]); o != nil {
			no := *o
			m := *o.mp
			no.mp = &m
			var keep []MEnt
			for _, e := range m.ents {
				switch st.eval(in.eqCond(st, e.k, args[1])) {
				case 1:
				case 0:
					keep = append(keep, e)
				default:
					m.kdef = joinSumm(m.kdef, st.summarize(e.k), false)
					m.vdef = joinSumm(m.vdef, st.summarize(e.v), false)
				}
			}
			m.ents = keep
			n := newSym("maplen", 0, maxLen)
			st.addGE(o.mp.n.sub(LS(n)))
			m.n = LS(n)
			st.setObj(&no)
		}
		return []outcome{{st: st}}
	case "close":
		p, _ := args[0].(Ptr)
		if !in.notNil(st, p.N, "close of channel", instr) {
			return nil
		}
		if in.hooks.chOps != nil {
			in.hooks.chOps(in, st, "close", args[0], instr)
		}
		return []outcome{{st: st}}
	case "panic":
		in.oblige(st, "explicit panic", instr, cK(false))
		return []outcome{{st: st, panicked: true}}
	case "recover":
		if st.panicking {
			st.panicking = false
			return ret1(st, Iface{N: nonNil, Other: true, Label: in.lbl("panic")})
		}
		return ret1(st, Iface{N: isNil})
	case "print", "println":
		ev := &CallEv{instr: instr, common: c, args: args, T: types.NewTuple(), name: "builtin " + name}
		if in.hooks.call != nil {
			if outs, ok := in.hooks.call(in, st, ev); ok {
				return outs
			}
		}
		return []outcome{{st: st}}
	case "min", "max":
		T := c.Signature().Results()
		if T.Len() == 1 && isInt(T.At(0).Type()) && len(args) == 2 {
			a, b := in.asInt(st, args[0], T.At(0).Type()), in.asInt(st, args[1], T.At(0).Type())
			s2 := st.clone()
			var outs []outcome
			pick := a.sub(b)
			if name == "max" {
				pick = b.sub(a)
			}
			// a >= b: min is b
			if st.assume(cGE(pick)) {
				outs = append(outs, outcome{st: st, vals: []Val{Int{b}}})
			}
			if s2.assume(cGE(pick).not()) {
				outs = append(outs, outcome{st: s2, vals: []Val{Int{a}}})
			}
			return outs
		}
	case "clear":
		in.havoc(st, args[0])
		return []outcome{{st: st}}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok {
			if !in.notNil(st, p.N, "dereference", instr) {
				return nil
			}
		}
		return ret1(st, args[0])
	}
	ev := &CallEv{instr: instr, common: c, args: args, T: c.Signature().Results(), name: "builtin " + name}
	return in.results(st, ev, name)
}

func (in *Interp) lenOf(st *State, v Val, T types.Type, capacity bool) Lin {
	switch x := v.(type) {
	case Str:
		return x.T.n
	case Slice:
		if capacity {
			return x.Cap
		}
		return x.Len
	case ArrV:
		return x.A.n
	case Ptr:
		if o := in.mapObj(st, v); o != nil {
			if st.isNil(x.N) == triMaybe {
				n := newSym("maplen", 0, maxLen)
				st.addGE(o.mp.n.sub(LS(n)))
				return LS(n)
			}
			if o.mp.vdef == nil && o.mp.n.isK() {
				return o.mp.n
			}
			st.addGE(o.mp.n)
			return o.mp.n
		}
		if st.isNil(x.N) == triNil {
			return K(0)
		}
		if a, ok := deref(T).Underlying().(*types.Array); ok {
			return K(a.Len())
		}
	}
	s := newSym("len?", 0, maxLen)
	return LS(s)
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// srcBytes is the text of the second operand of append or copy.
func (in *Interp) srcBytes(st *State, v Val) *Term {
	switch x := v.(type) {
	case Str:
		return x.T
	case Slice:
		return in.sliceTerm(st, x)
	}
	return tFresh("bytes", valDeps(v))
}

func (in *Interp) appendOp(st *State, instr ssa.Instruction, c *ssa.CallCommon, args []Val) []outcome {
	T := c.Args[0].Type()
	elem := T.Underlying().(*types.Slice).Elem()
	s := in.asSlice(st, args[0], T)
	if len(args) == 1 {
		return ret1(st, s)
	}
	var outs []outcome
	sts, sls := in.splitSlice(st, c.Args[0], s)
	for k, t := range sts {
		a := sls[k]
		bs := []*State{t}
		vs := []Val{args[1]}
		if y, ok := args[1].(Slice); ok && len(y.Objs) > 1 {
			var ys []Slice
			bs, ys = in.splitSlice(t, c.Args[1], y)
			vs = nil
			for _, z := range ys {
				vs = append(vs, z)
			}
		}
		for i, u := range bs {
			outs = append(outs, outcome{st: u, vals: []Val{in.append1(u, instr, a, vs[i], elem)}})
		}
	}
	return outs
}

func (in *Interp) append1(st *State, instr ssa.Instruction, a Slice, b Val, elem types.Type) Val {
	var blen Lin
	switch y := b.(type) {
	case Str:
		blen = y.T.n
	case Slice:
		blen = y.Len
	default:
		blen = LS(newSym("len?", 0, maxLen))
	}
	n := a.Len.add(blen)
	if blen.isK() && blen.c == 0 {
		return a
	}
	if in.tightCap && !isByteType(elem) && len(a.Objs) == 1 && n.isK() && a.Cap.isK() && a.Cap.c >= n.c {
		// in place, as Go does
		var vs []Val
		if y, ok := b.(Slice); ok && len(y.Objs) == 1 && st.objOf(y.Objs[0]) != nil && st.objOf(y.Objs[0]).arr != nil {
			for i := int64(0); i < blen.c; i++ {
				vs = append(vs, st.readElem(st.objOf(y.Objs[0]), y.Off.addK(i)))
			}
		}
		if o := st.objOf(a.Objs[0]); o != nil && o.arr != nil && int64(len(vs)) == blen.c {
			for i, v := range vs {
				st.writeElem(st.objOf(o.id), a.Off.add(a.Len).addK(int64(i)), v)
			}
			a.Len = n
			return a
		}
	}
	sl := newSym("slack", 0, maxLen)
	res := Slice{N: nonNil, Off: K(0), Len: n, Cap: n.add(LS(sl))}
	if in.tightCap && !isByteType(elem) {
		res.Cap = n
	}
	if st.isNil(a.N) != triNon && st.poly.entailsEq(blen, K(0)) {
		res.N = a.N
	} else if !st.poly.entails(blen.addK(-1)) && st.isNil(a.N) != triNon {
		res.N = freshNull()
	}
	arr := &Arr{elem: elem, n: res.Cap, bytes: isByteType(elem), label: fmt.Sprintf("append@%d", instrIndex(instr))}
	flags := map[string]bool{}
	// the old array may be written behind its length
	for _, id := range a.Objs {
		if o := st.objOf(id); o != nil {
			for f := range o.flags {
				flags[f] = true
			}
			if !(a.Cap.sub(a.Len).isK() && a.Cap.sub(a.Len).c == 0) && !st.poly.entailsEq(a.Cap, a.Len) {
				lo := a.Off.add(a.Len)
				if in.hooks.write != nil {
					in.hooks.write(in, st, o, lo, lo.add(blen), instr)
				}
				no := *o
				no.arr = o.arr.clone()
				st.killMay(no.arr, lo, lo.add(blen), elemSumm(st, b, elem))
				st.setObj(&no)
			}
		}
	}
	if arr.bytes {
		ta := in.sliceTerm(st, a)
		tb := in.srcBytes(st, b)
		t := tCat(ta, tb)
		arr.deps = t.deps
		arr.def = topByte
		arr.segs = append(arr.segs, Seg{K(0), n, t, K(0)})
	} else {
		arr.def = &Summ{kind: 'o', T: elem}
		var def *Summ
		take := func(s Slice, shift Lin) {
			if st.isNil(s.N) == triNil || s.Len.isK() && s.Len.c == 0 {
				return
			}
			if len(s.Objs) == 0 {
				def = joinSumm(def, summAny(elem, "", nil), false)
				return
			}
			for _, id := range s.Objs {
				o := st.objOf(id)
				if o == nil || o.arr == nil {
					def = joinSumm(def, summAny(elem, "", nil), false)
					continue
				}
				arr.deps = unionDeps(arr.deps, o.arr.deps)
				covered := 0
				for _, e := range o.arr.ents {
					if st.poly.entails(e.idx.sub(s.Off)) && st.poly.entails(s.Off.add(s.Len).sub(e.idx).addK(-1)) {
						arr.ents = append(arr.ents, Ent{e.idx.sub(s.Off).add(shift), e.v})
						covered++
					} else if st.poly.refutes(e.idx.sub(s.Off)) || st.poly.refutes(s.Off.add(s.Len).sub(e.idx).addK(-1)) {
						continue
					} else {
						def = joinSumm(def, st.summarize(e.v), false)
					}
				}
				if !(s.Len.isK() && s.Len.c == int64(covered)) {
					def = joinSumm(def, o.arr.def, false)
				}
			}
		}
		take(a, K(0))
		if y, ok := b.(Slice); ok {
			take(y, a.Len)
		}
		if def == nil {
			def = st.summarize(st.zero(elem))
			if len(arr.ents) > 0 {
				def = st.summarize(arr.ents[0].v)
			}
		}
		arr.def = def
	}
	id := in.newArr(st, instr, "ap", arr)
	if len(flags) > 0 {
		o := *st.heap[id]
		o.flags = flags
		st.setObj(&o)
	}
	res.Objs = []ObjID{id}
	return res
}

func elemSumm(st *State, b Val, elem types.Type) *Summ {
	if isByteType(elem) {
		return topByte
	}
	if s, ok := b.(Slice); ok {
		var d *Summ
		for _, id := range s.Objs {
			if o := st.objOf(id); o != nil && o.arr != nil {
				d = joinSumm(d, st.summArr(o.arr), false)
			}
		}
		if d != nil {
			return d
		}
	}
	return summAny(elem, "", nil)
}

// killMay: array[lo,hi) may have been overwritten with something like s.
func (st *State) killMay(a *Arr, lo, hi Lin, s *Summ) {
	var old *Summ = a.def
	for _, e := range a.ents {
		if st.poly.refutes(e.idx.sub(lo)) || st.poly.refutes(hi.sub(e.idx).addK(-1)) {
			continue
		}
		old = joinSumm(old, st.summarize(e.v), false)
	}
	st.killArr(a, lo, hi)
	a.def = joinSumm(old, s, false)
}

func (in *Interp) copyOp(st *State, instr ssa.Instruction, c *ssa.CallCommon, args []Val) []outcome {
	d := in.asSlice(st, args[0], c.Args[0].Type())
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var slen Lin
	switch y := args[1].(type) {
	case Str:
		slen = y.T.n
	case Slice:
		slen = y.Len
	default:
		slen = LS(newSym("len?", 0, maxLen))
	}
	var outs []outcome
	do := func(s *State, n Lin) {
		sts, sls := in.splitSlice(s, c.Args[0], d)
		for i, t := range sts {
			in.copyInto(t, instr, sls[i], args[1], n, elem)
			outs = append(outs, outcome{st: t, vals: []Val{Int{n}}})
		}
	}
	diff := d.Len.sub(slen)
	switch {
	case st.poly.entails(diff):
		do(st, slen)
	case st.poly.entails(diff.neg()):
		do(st, d.Len)
	default:
		s2 := st.clone()
		if st.assume(cGE(diff)) {
			do(st, slen)
		}
		if s2.assume(cGE(diff).not()) {
			do(s2, d.Len)
		}
	}
	return outs
}

func (in *Interp) copyInto(st *State, instr ssa.Instruction, d Slice, src Val, n Lin, elem types.Type) {
	if n.isK() && n.c == 0 {
		return
	}
	for _, id := range d.Objs {
		o := st.objOf(id)
		if o == nil || o.arr == nil {
			continue
		}
		if in.hooks.write != nil {
			in.hooks.write(in, st, o, d.Off, d.Off.add(n), instr)
		}
		if o.arr.bytes {
			var t *Term
			switch y := src.(type) {
			case Str:
				t = in.subTerm(st, y.T, K(0), n)
			case Slice:
				z := y
				z.Len = n
				t = in.sliceTerm(st, z)
			default:
				t = tFresh("bytes", valDeps(src))
			}
			o = st.objOf(id)
			st.writeBytes(o, d.Off, n, t, K(0))
			continue
		}
		if y, ok := src.(Slice); ok && in.exact > 0 && n.isK() && n.c <= 64 && len(y.Objs) == 1 && !o.summ && len(d.Objs) == 1 {
			if so := st.objOf(y.Objs[0]); so != nil && so.arr != nil && !so.arr.bytes {
				var vs []Val
				for i := int64(0); i < n.c; i++ {
					vs = append(vs, st.readElem(so, y.Off.addK(i)))
				}
				for i, v := range vs {
					st.writeElem(st.objOf(id), d.Off.addK(int64(i)), v)
				}
				continue
			}
		}
		no := *o
		na := o.arr.clone()
		no.arr = na
		st.killMay(na, d.Off, d.Off.add(n), elemSumm(st, src, elem))
		if y, ok := src.(Slice); ok && len(y.Objs) == 1 && !o.summ {
			if so := st.objOf(y.Objs[0]); so != nil && so.arr != nil {
				for _, e := range so.arr.ents {
					if st.poly.entails(e.idx.sub(y.Off)) && st.poly.entails(y.Off.add(n).sub(e.idx).addK(-1)) {
						na.ents = append(na.ents, Ent{e.idx.sub(y.Off).add(d.Off), e.v})
					}
				}
			}
		}
		st.setObj(&no)
	}
}

var _ = token.NoPos

// summaryCall stands for a call of a function of the module that was analysed
// on its own: pointers have to be valid, the effects are unknown.
func (in *Interp) summaryCall(st *State, ev *CallEv) (outs []outcome) {
	for i, p := range ev.fn.Params {
		if i >= len(ev.args) {
			break
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			if x, ok := ev.args[i].(Ptr); ok {
				if !in.notNil(st, x.N, "pointer", ev.instr) {
					return nil
				}
			}
		}
	}
	if in.free != nil && in.free(ev.fn) {
		// any result is possible
		was := st.inexact
		defer func() {
			for _, o := range outs {
				o.st.inexact = was
			}
		}()
	}
	st.inexact = true
	for i, p := range ev.fn.Params {
		if i < len(ev.args) {
			in.noteVal(st, p.Type(), ev.args[i])
		}
	}
	in.escape(st, ev.args)
	mods := in.p.modSets()[ev.fn]
	if mods == nil || len(ev.fn.FreeVars) > 0 {
		mods = &Mods{all: true}
	}
	if mods.none() {
		return in.results(st, ev, "")
	}
	in.havocAll, in.mods = true, mods
	for _, a := range ev.args {
		in.havoc(st, a)
	}
	in.havocAll, in.mods = false, nil
	for id := range st.heap {
		if in.isGlobal(id) {
			if o := st.heap[id]; o.input && in.globals[id] != nil && !in.p.constGlobals().ok[id] {
				st.delObj(id)
			}
		}
	}
	return in.results(st, ev, "")
}
