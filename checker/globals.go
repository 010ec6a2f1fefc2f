package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A global of the module that only package initialisation writes keeps the
// value initialisation gives it. The initialisers are interpreted once.

type constGlobals struct {
	objs map[ObjID]*Obj // globals and what they refer to
	ok   map[ObjID]bool
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil && isInit(f.Parent())
}

// readOnlyUse: every use of the address only reads.
func readOnlyUse(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.IndexAddr:
			if !readOnlyUse(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnlyUse(x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// constGlobals finds the globals nothing but initialisation writes.
func (p *Prog) constGlobals() *constGlobals {
	if p.consts != nil {
		return p.consts
	}
	cg := &constGlobals{objs: map[ObjID]*Obj{}, ok: map[ObjID]bool{}}
	p.consts = cg
	bad := map[*ssa.Global]bool{}
	elems := map[string]bool{} // element types written through slices
	key := func(T types.Type) string { return T.String() }
	for _, f := range p.allFuncs() {
		ini := isInit(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !ini {
					switch x := in.(type) {
					case *ssa.Store:
						if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
							if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
								elems[key(s.Elem())] = true
							}
						}
					case *ssa.IndexAddr:
						// the address of an element goes somewhere
						if s, ok := x.X.Type().Underlying().(*types.Slice); ok && !readOnlyUse(x) {
							elems[key(s.Elem())] = true
						}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") {
							if s, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok {
								elems[key(s.Elem())] = true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || ini {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if _, ok := x.Type().Underlying().(*types.Map); ok && !readOnlyMap(x) {
							bad[g] = true
						}
					case *ssa.DebugRef:
					case *ssa.IndexAddr:
						if !readOnlyUse(x) {
							bad[g] = true
						}
					case *ssa.FieldAddr:
						if !readOnlyUse(x) {
							bad[g] = true
						}
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		want := map[*ssa.Global]bool{}
		for _, m := range pk.Members {
			g, ok := m.(*ssa.Global)
			if !ok || bad[g] || strings.HasPrefix(g.Name(), "init$") {
				continue
			}
			switch t := g.Type().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Array:
				want[g] = plainType(t.Elem())
			case *types.Slice:
				want[g] = plainType(t.Elem()) && !elems[key(t.Elem())]
			case *types.Map:
				want[g] = plainType(t.Key()) && plainOrFunc(t.Elem())
			default:
				want[g] = plainType(t)
			}
		}
		ini := pk.Func("init")
		if ini == nil {
			continue
		}
		func() {
			defer func() { recover() }()
			in := newInterp(p, &Hooks{})
			in.noConsts = true
			st := in.rootState(ini, nil)
			var fin *State
			for _, o := range in.runFn(st) {
				// the run that initialises: the guard was false
				if o.panicked {
					return
				}
				gid := in.global(pk.Members["init$guard"].(*ssa.Global))
				if ob := o.st.heap[gid]; ob == nil || ob.input && isOpaque(ob.v) {
					continue
				}
				if g, ok := o.st.load(Loc{obj: gid}, types.Typ[types.Bool]).(Bool); !ok || o.st.eval(g.C) != 1 || fin != nil && len(o.st.heap) <= len(fin.heap) {
					continue
				}
				fin = o.st
			}
			if fin == nil {
				return
			}
			for g, w := range want {
				if !w {
					continue
				}
				id := in.global(g)
				ob := fin.heap[id]
				if ob == nil {
					continue
				}
				if s, ok := ob.v.(Slice); ok && ob.kind == 'v' {
					good := true
					for _, x := range s.Objs {
						b := fin.heap[x]
						if b == nil || b.summ {
							good = false
							continue
						}
						c := *b
						c.id, c.input = ObjID("g:init:"+string(id)), true
						cg.objs[c.id] = &c
						s.Objs = []ObjID{c.id}
					}
					if !good || len(s.Objs) > 1 {
						continue
					}
					c := *ob
					c.v = s
					ob = &c
				}
				if pt, ok := ob.v.(Ptr); ok && ob.kind == 'v' {
					if len(pt.Locs) != 1 || len(pt.Locs[0].path) > 0 {
						continue
					}
					b := fin.heap[pt.Locs[0].obj]
					if b == nil || b.summ || b.kind != 'm' || b.mp == nil || b.mp.vdef != nil || b.mp.kdef != nil {
						continue
					}
					c := *b
					c.id, c.input = ObjID("g:init:"+string(id)), true
					cg.objs[c.id] = &c
					d := *ob
					d.v = Ptr{N: nonNil, Locs: []Loc{{obj: c.id}}}
					ob = &d
				}
				c := *ob
				c.input = true
				cg.objs[id] = &c
				cg.ok[id] = true
				cg.ok[ObjID("g:init:"+string(id))] = true
			}
		}()
	}
	return cg
}

func isOpaque(v Val) bool { _, ok := v.(Opaque); return ok }

// readOnlyMap: the map is only looked up and ranged over.
func readOnlyMap(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.BinOp:
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func plainOrFunc(T types.Type) bool {
	if _, ok := T.Underlying().(*types.Signature); ok {
		return true
	}
	return plainType(T)
}

// plainType: no references to memory inside.
func plainType(T types.Type) bool {
	switch t := T.Underlying().(type) {
	case *types.Basic:
		return t.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !plainType(t.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// A loop that divides its counter by a constant on every pass runs a bounded
// number of times: it is unrolled. phi is the counter, c the divisor.
func (in *Interp) dividing(info *FnInfo, l *Loop) (phi *ssa.Phi, c int64) {
	for b := range l.blocks {
		if info.loopOf[b] != l {
			return nil, 0
		}
	}
	for _, x := range l.head.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		d := int64(0)
		good := true
		for i, p := range l.head.Preds {
			if !l.blocks[p.Index] {
				continue
			}
			bo, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || bo.X != ssa.Value(ph) {
				good = false
				break
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				good = false
				break
			}
			v := int64(0)
			switch bo.Op {
			case token.QUO:
				v = k.Int64()
			case token.SHR:
				if s := k.Int64(); s > 0 && s < 60 {
					v = 1 << uint(s)
				}
			}
			if v < 2 || d != 0 && d != v {
				good = false
				break
			}
			d = v
		}
		if good && d >= 2 {
			return ph, d
		}
	}
	return nil, 0
}

func (in *Interp) unroll(info *FnInfo, l *Loop, entry []*State) (*region, bool) {
	phi, c := in.dividing(info, l)
	if phi == nil {
		return nil, false
	}
	out := &region{exits: map[int][]*State{}}
	save := in.sink
	var found []Found
	in.sink = &found
	defer func() { in.sink = save }()
	var cur []*State
	for _, s := range entry {
		cur = append(cur, s.clone())
	}
	bound := ^uint64(0)
	for i := 0; len(cur) > 0; i++ {
		if i > 66 {
			return nil, false
		}
		if i > 0 {
			bound /= uint64(c)
		}
		if bound < 1<<40 {
			var ok []*State
			for _, s := range cur {
				x := in.asInt(s, in.get(s, phi), phi.Type())
				if s.addGE(K(int64(bound)).sub(x)) && s.addGE(x.addK(int64(bound))) && !s.poly.bot && !s.poly.unsat() {
					ok = append(ok, s)
				}
			}
			cur = ok
		}
		if len(cur) == 0 {
			break
		}
		r := in.runRegion(info, l, l.head, cur)
		out.rets = append(out.rets, r.rets...)
		for _, t := range sortedKeys(r.exits) {
			out.exits[t] = append(out.exits[t], r.exits[t]...)
		}
		cur = nil
		for _, b := range r.backs {
			b.prune(info.liveIn[l.head.Index])
			cur = append(cur, b)
		}
		cur = in.merge(cur, in.mergeN)
	}
	*save = append(*save, found...)
	for _, t := range sortedKeys(out.exits) {
		out.exits[t] = in.merge(out.exits[t], 1)
	}
	return out, true
}

// follow passes through a loop a few times, every path on its own.
func (in *Interp) follow(info *FnInfo, l *Loop, entry []*State) *region {
	out := &region{exits: map[int][]*State{}}
	cur := entry
	decided := 0
	for i, n := 0, 0; i <= in.exact && n < 200 && len(cur) > 0; i, n = i+1, n+1 {
		was := len(cur)
		r := in.runRegion(info, l, l.head, cur)
		out.rets = append(out.rets, r.rets...)
		for _, t := range sortedKeys(r.exits) {
			out.exits[t] = append(out.exits[t], r.exits[t]...)
		}
		cur = nil
		for _, b := range r.backs {
			b.prune(info.liveIn[l.head.Index])
			if !b.poly.bot && !b.poly.unsat() {
				cur = append(cur, b)
			}
		}
		if len(cur) > 0 && len(cur) == was && len(r.rets) == 0 && !r.leaves() {
			i-- // nothing was decided
			decided++
			if decided > 12 {
				cur = cur[:1] // one of them will do
			}
			if decided == 190 && !cur[0].inexact {
				in.report(cur[0], "endless-loop", fname(info.fn), loopPos(l), "the loop is passed again and again on an input of a few bytes or lines: a pass need not consume anything")
				return out
			}
		}
		if k := max(12, in.exactCap/3); len(cur) > k {
			cur = cur[:k]
		}
	}
	return out
}

// leaves reports whether some state leaves the region.
func (r *region) leaves() bool {
	for _, l := range r.exits {
		for _, s := range l {
			if !s.poly.bot && !s.poly.unsat() {
				return true
			}
		}
	}
	return false
}
