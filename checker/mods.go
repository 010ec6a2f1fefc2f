package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mods is what a function of the module may write, flow-insensitively and
// transitively: fields by key, anything a plain pointer leads to, elements of
// slices and maps.
type Mods struct {
	all    bool
	ptr    bool
	elems  bool
	fields map[string]bool
	why    string
}

func (m *Mods) none() bool { return !m.all && !m.ptr && !m.elems && len(m.fields) == 0 }

func (m *Mods) add(o *Mods) bool {
	ch := false
	if o.all && !m.all {
		m.all, ch, m.why = true, true, o.why
	}
	if o.ptr && !m.ptr {
		m.ptr, ch = true, true
	}
	if o.elems && !m.elems {
		m.elems, ch = true, true
	}
	for k := range o.fields {
		if !m.fields[k] {
			m.fields[k], ch = true, true
		}
	}
	return ch
}

var purePkgs = map[string]bool{"strconv": true, "strings": true, "errors": true, "time": true, "math": true, "unicode": true, "unicode/utf8": true, "math/bits": true, "net/url": true, "net": true, "github.com/pkg/errors": true, "encoding/base64": true, "encoding/hex": true, "bytes": true, "fmt": true}

// modSets computes the write sets of all functions of the module.
func (p *Prog) modSets() map[*ssa.Function]*Mods {
	if p.mods != nil {
		return p.mods
	}
	r := map[*ssa.Function]*Mods{}
	callees := map[*ssa.Function][]*ssa.Function{}
	var stringers []*ssa.Function
	for _, f := range p.funcs {
		if f.Signature.Recv() != nil && (f.Name() == "String" || f.Name() == "Error" || f.Name() == "Format" || f.Name() == "GoString") {
			stringers = append(stringers, f)
		}
	}
	for _, f := range p.funcs {
		m := &Mods{fields: map[string]bool{}}
		r[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					m.store(p, x.Addr)
				case *ssa.MapUpdate:
					if !freshVal(x.Map, 0) {
						m.elems = true
					}
				case *ssa.Send, *ssa.Select:
					m.all = true
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							if !freshVal(c.Args[0], 0) {
								m.elems = true
							}
						case "delete", "clear":
							m.elems = true
						}
						continue
					}
					if c.IsInvoke() {
						if n := c.Method.Name(); n == "Error" || n == "String" {
							callees[f] = append(callees[f], stringers...)
							continue
						}
						m.all, m.why = true, in.String()
						continue
					}
					g := c.StaticCallee()
					switch {
					case g == nil:
						m.all, m.why = true, in.String()
					case p.inModule(g) && g.Blocks != nil:
						callees[f] = append(callees[f], g)
					case g.Pkg != nil && purePkgs[g.Pkg.Pkg.Path()] && strings.HasPrefix(g.Name(), "Append") && g.Signature.Recv() == nil:
						if len(c.Args) == 0 || !freshVal(c.Args[0], 0) {
							m.elems = true
						}
					case g.Pkg != nil && purePkgs[g.Pkg.Pkg.Path()] && !writes(g):
						callees[f] = append(callees[f], stringers...)
					case g.Pkg != nil && g.Pkg.Pkg.Path() == "sort":
						m.elems = true
					default:
						m.all, m.why = true, in.String()
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range callees {
			for _, g := range cs {
				if o := r[g]; o != nil {
					if r[f].add(o) {
						ch = true
					}
				} else if !r[f].all {
					r[f].all, ch = true, true
				}
			}
		}
	}
	p.mods = r
	return r
}

// writes: a function of an otherwise pure package that writes what it is given.
func writes(g *ssa.Function) bool {
	n := g.Name()
	if g.Signature.Recv() != nil {
		t := g.Signature.Recv().Type()
		if _, ok := t.(*types.Pointer); ok && !strings.HasSuffix(t.String(), "url.URL") {
			return true
		}
		return false
	}
	return strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "Sscan") || strings.HasPrefix(n, "Fscan") || strings.HasPrefix(n, "Scan") || n == "As" || strings.HasPrefix(n, "Dial") || strings.HasPrefix(n, "Listen") || n == "AfterFunc"
}

// freshVal: the memory behind v was made here.
func freshVal(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		return freshVal(x.X, d+1)
	case *ssa.Convert:
		return isString(x.X.Type())
	case *ssa.FieldAddr:
		return freshVal(x.X, d+1)
	case *ssa.IndexAddr:
		return freshVal(x.X, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshVal(x.Call.Args[0], d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && c.Call.Args[0] == ssa.Value(x) {
					continue
				}
			}
			if !freshVal(e, d+3) {
				return false
			}
		}
		return true
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Mods) store(p *Prog, a ssa.Value) {
	if freshVal(a, 0) {
		return
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		k, v, _ := fieldOf(x)
		if k == "" {
			m.all = true
			return
		}
		m.fields[k] = true
		m.whole(v.Type())
	case *ssa.IndexAddr:
		m.elems = true
	case *ssa.Global:
		// globals that are written are forgotten at every call
	default:
		m.ptr = true
		m.whole(deref(a.Type()))
	}
}

func (m *Mods) whole(t types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		k := fieldKey(t, st, i)
		if k == "" {
			m.all = true
			return
		}
		m.fields[k] = true
		m.whole(st.Field(i).Type())
	}
}
