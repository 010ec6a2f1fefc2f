package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// S06: what is decoded does not share memory with what it was decoded from.

func checkS06(p *Prog, r *Result) {
	r.explanation = "An inclusion analysis follows where the memory of every string, slice and map of the sdp package comes from, through parameters, fields, elements, appends, unsafe conversions and standard library functions that return parts of their arguments. Nothing a decoded Message reaches may come from a line's bytes or from an argument of an exported function, and no line's bytes may come from such an argument."
	m := p.memory()
	lineT := p.typeOf(sdpPath, "Line")
	msgT := p.typeOf(sdpPath, "Message")
	if lineT == nil || msgT == nil {
		r.report("undecided", "types", "", "sdp.Line or sdp.Message is not found")
		return
	}
	// the bytes given to exported functions
	inputs := map[*mbase]bool{}
	nin := 0
	for _, f := range p.funcs {
		if pkgOf(f) != sdpPath || f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		for k, q := range f.Params {
			if f.Signature.Recv() != nil && k == 0 || !isBytes(q.Type()) || types.Identical(q.Type(), lineT) {
				continue
			}
			if named, ok := q.Type().(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == "net" {
				continue // an address the application gives away
			}
			// appending to a buffer the caller passes is what the encoder does
			b := m.base("input "+f.String()+q.Name(), q, "", "the argument "+q.Name()+" of "+fname(f))
			inputs[b] = true
			m.add(m.of(q), b)
			nin++
		}
	}
	// the bytes of lines
	lines := map[*mbase]bool{}
	st := lineT.Underlying().(*types.Struct)
	var lineKeys []string
	for k := 0; k < st.NumFields(); k++ {
		if isBytes(st.Field(k).Type()) {
			key := fieldKeyOf(lineT, k)
			lineKeys = append(lineKeys, key)
			b := m.base("line "+key, nil, "", "the bytes of a line")
			lines[b] = true
			m.add(m.node("content "+key), b)
		}
	}
	m.solve()
	r.require("arguments that hold input", nin, 1)
	r.require("fields that hold a line's bytes", len(lineKeys), 1)

	// memory the package keeps for the next line or document
	kept := map[*mbase]string{}
	for _, pk := range p.pkgs {
		if pk.Pkg.Path() != sdpPath {
			continue
		}
		for _, mem := range pk.Members {
			switch x := mem.(type) {
			case *ssa.Global:
				if isBytes(deref(x.Type())) {
					for b := range m.node("content global " + x.String()).has {
						kept[b] = "the package variable " + x.Name()
					}
				}
			case *ssa.Type:
				u, ok := x.Type().Underlying().(*types.Struct)
				if !ok || types.Identical(x.Type(), lineT) || m.partOf(msgT, x.Type(), nil) {
					continue
				}
				for k := 0; k < u.NumFields(); k++ {
					if isBytes(u.Field(k).Type()) {
						key := fieldKeyOf(x.Type(), k)
						for b := range m.node("content " + key).has {
							if kept[b] == "" && !inputs[b] && !lines[b] {
								kept[b] = key
							}
						}
					}
				}
			}
		}
	}

	// where stored values come from, for the report
	type site struct {
		f *ssa.Function
		i ssa.Instruction
		n *mnode
	}
	storesTo := map[*mnode][]site{}
	for _, in := range m.inst {
		f := in.f
		if pkgOf(f) != sdpPath {
			continue
		}
		m.ctx = in.ctx
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					for bs := range m.of(x.Addr).has {
						storesTo[bs.cont] = append(storesTo[bs.cont], site{f, i, m.of(x.Val)})
					}
				case *ssa.MapUpdate:
					for bs := range m.of(x.Map).has {
						storesTo[bs.cont] = append(storesTo[bs.cont], site{f, i, m.of(x.Value)}, site{f, i, m.of(x.Key)})
					}
				}
			}
		}
	}
	m.ctx = nil
	nameOf := func(b *mbase) string {
		if kept[b] != "" {
			return kept[b] + " (" + m.name(b) + ")"
		}
		return m.name(b)
	}
	check := func(key string, n *mnode, bad func(*mbase) bool, what string) {
		r.obligations++
		for _, b := range m.sorted(n) {
			if !bad(b) {
				continue
			}
			found := false
			ss := storesTo[n]
			sort.Slice(ss, func(i, j int) bool { return ss[i].i.Pos() < ss[j].i.Pos() })
			for _, s := range ss {
				if s.n.has[b] {
					found = true
					r.report("shares-memory", key, p.pos(s.i.Pos()), "%s stores memory of %s in %s%s: overwriting it changes what was decoded", fname(s.f), nameOf(b), key, what)
				}
			}
			if !found {
				r.report("shares-memory", key, "", "%s%s may hold memory of %s", key, what, nameOf(b))
			}
		}
	}
	// lines: no argument's memory
	for _, k := range lineKeys {
		check(k, m.node("content "+k), func(b *mbase) bool { return inputs[b] }, "")
		r.sample("%s: %d places its bytes can come from", k, len(m.node("content "+k).has))
	}
	// everything a message reaches
	keys := 0
	seenT := map[string]bool{}
	var walkT func(T types.Type)
	var walkC func(key string, n *mnode, seen map[*mnode]bool, depth int)
	bad := func(b *mbase) bool { return inputs[b] || lines[b] || b.label != "" || kept[b] != "" }
	walkC = func(key string, n *mnode, seen map[*mnode]bool, depth int) {
		if seen[n] || depth > 4 {
			return
		}
		seen[n] = true
		what := ""
		if depth > 0 {
			what = " (an element of it)"
		}
		check(key, n, bad, what)
		for _, b := range m.sorted(n) {
			if b.key == "" {
				walkC(key, b.cont, seen, depth+1)
			}
		}
	}
	walkT = func(T types.Type) {
		switch u := T.Underlying().(type) {
		case *types.Slice:
			walkT(u.Elem())
		case *types.Array:
			walkT(u.Elem())
		case *types.Pointer:
			walkT(u.Elem())
		case *types.Map:
			walkT(u.Key())
			walkT(u.Elem())
		case *types.Struct:
			n, ok := T.(*types.Named)
			if !ok || seenT[n.String()] || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != sdpPath {
				return
			}
			seenT[n.String()] = true
			for k := 0; k < u.NumFields(); k++ {
				ft := u.Field(k).Type()
				key := fieldKeyOf(T, k)
				if _, isStruct := ft.Underlying().(*types.Struct); !isStruct && refersToMemory(ft) {
					keys++
					walkC(key, m.node("content "+key), map[*mnode]bool{}, 0)
					r.sample("%s: %d places its memory can come from", key, len(m.node("content "+key).has))
				}
				walkT(ft)
			}
		}
	}
	walkT(msgT)
	r.require("fields of decoded messages", keys, 10)
	r.coverage["fields of decoded messages that refer to memory"] = keys
	r.coverage["functions"] = len(m.fns)
	r.coverage["propagation steps"] = m.n
}

// partOf: values of the type are part of the other's.
func (m *memory) partOf(T, part types.Type, seen map[types.Type]bool) bool {
	if types.Identical(T, part) {
		return true
	}
	if seen == nil {
		seen = map[types.Type]bool{}
	}
	if seen[T] {
		return false
	}
	seen[T] = true
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return m.partOf(u.Elem(), part, seen)
	case *types.Array:
		return m.partOf(u.Elem(), part, seen)
	case *types.Pointer:
		return m.partOf(u.Elem(), part, seen)
	case *types.Map:
		return m.partOf(u.Key(), part, seen) || m.partOf(u.Elem(), part, seen)
	case *types.Struct:
		for k := 0; k < u.NumFields(); k++ {
			if m.partOf(u.Field(k).Type(), part, seen) {
				return true
			}
		}
	}
	return false
}

func init() { checks["S06"] = checkS06 }
