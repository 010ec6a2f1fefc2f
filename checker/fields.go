package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FieldFacts are flow-insensitive facts about the unexported fields of the
// module's structures, from all stores in the module.
type FieldFacts struct {
	nonNil  map[string]bool // never nil once the structure is built
	zero    map[string]bool // never stored: always the zero value
	counter map[string]bool // starts at a constant >= 0 and only ever grows by constants
	mutable map[string]bool // stored outside the building of a new structure
	stores  map[string][]ssa.Value
	at      map[string][]*ssa.Store
	taken   map[string]bool
	addr    map[string]bool // its address is used other than to load, store or index
	zinit   map[string]bool
	all     map[string]*types.Var
	busy    map[ssa.Value]bool
}

func (p *Prog) isModType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && p.byPath[n.Obj().Pkg().Path()] != nil
}

func fieldOf(x *ssa.FieldAddr) (key string, v *types.Var, named types.Type) {
	pt, ok := x.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	return fieldKey(pt.Elem(), st, x.Field), st.Field(x.Field), pt.Elem()
}

func (p *Prog) fieldFacts() *FieldFacts {
	if p.ff != nil {
		return p.ff
	}
	f := &FieldFacts{nonNil: map[string]bool{}, zero: map[string]bool{}, counter: map[string]bool{}, mutable: map[string]bool{},
		stores: map[string][]ssa.Value{}, at: map[string][]*ssa.Store{}, taken: map[string]bool{}, addr: map[string]bool{}, zinit: map[string]bool{}, all: map[string]*types.Var{}, busy: map[ssa.Value]bool{}}
	p.ff = f
	whole := func(t types.Type, v ssa.Value) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || !p.isModType(t) {
			return
		}
		c, isC := v.(*ssa.Const)
		if isC && c.Value == nil {
			for i := 0; i < st.NumFields(); i++ {
				f.zinit[fieldKey(t, st, i)] = true
			}
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return // a copy of a structure of the same type
		}
		for i := 0; i < st.NumFields(); i++ {
			f.taken[fieldKey(t, st, i)] = true
		}
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					t := deref(x.Type())
					st, ok := t.Underlying().(*types.Struct)
					if !ok || !p.isModType(t) {
						continue
					}
					set := map[int]bool{}
					all := false
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.FieldAddr:
							for _, rr := range *y.Referrers() {
								if s, ok := rr.(*ssa.Store); ok && s.Addr == y {
									set[y.Field] = true
								}
							}
						case *ssa.Store:
							if y.Addr == x {
								all = true
							}
						}
					}
					if all {
						continue
					}
					for i := 0; i < st.NumFields(); i++ {
						if !set[i] {
							f.zinit[fieldKey(t, st, i)] = true
						}
					}
				case *ssa.FieldAddr:
					k, v, _ := fieldOf(x)
					if k == "" {
						continue
					}
					f.all[k] = v
					_, fresh := x.X.(*ssa.Alloc)
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.Store:
							if y.Addr == x {
								f.stores[k] = append(f.stores[k], y.Val)
								f.at[k] = append(f.at[k], y)
								if !fresh {
									f.mutable[k] = true
								}
							} else {
								f.taken[k] = true
								f.addr[k] = true
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						default:
							f.taken[k] = true
							f.addr[k] = true
							f.mutable[k] = true
						}
					}
				case *ssa.Store:
					whole(deref(x.Addr.Type()), x.Val)
				}
			}
		}
	}
	for k, v := range f.all {
		if v.Exported() {
			continue
		}
		if !f.taken[k] && len(f.stores[k]) == 0 {
			f.zero[k] = true
			continue
		}
		if !f.taken[k] && isInt(v.Type()) {
			ok := true
			for _, s := range f.stores[k] {
				if !growing(k, s) {
					ok = false
				}
			}
			if ok {
				f.counter[k] = true
			}
		}
		if !f.zinit[k] && !f.taken[k] {
			ok := true
			for _, s := range f.stores[k] {
				if !f.valNonNil(p, s, 0) {
					ok = false
				}
			}
			if ok {
				f.nonNil[k] = true
			}
		}
	}
	return f
}

func growing(k string, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && constant.Sign(x.Value) >= 0
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return false
		}
		c, ok := x.Y.(*ssa.Const)
		l, ok2 := x.X.(*ssa.UnOp)
		if !ok || !ok2 || c.Value == nil || constant.Sign(c.Value) < 0 {
			return false
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		kk, _, _ := fieldOf(fa)
		return kk == k
	}
	return false
}

func (f *FieldFacts) valNonNil(p *Prog, v ssa.Value, depth int) bool {
	if depth > 6 || f.busy[v] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.ChangeType:
		return f.valNonNil(p, x.X, depth+1)
	case *ssa.Phi:
		f.busy[v] = true
		defer delete(f.busy, v)
		for _, e := range x.Edges {
			if !f.valNonNil(p, e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if !p.inModule(g) || g.Blocks == nil {
			switch g.String() {
			case "bufio.NewReadWriter", "bufio.NewReaderSize", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewWriter", "errors.New", "fmt.Errorf":
				return true
			}
			return false
		}
		if g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !f.valNonNil(p, r.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}
