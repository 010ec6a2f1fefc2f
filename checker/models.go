package main

import (
	"fmt"
	"go/types"
	"net"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(in *Interp, st *State, c *CallEv) []outcome

// models of library functions, by qualified name.
var models map[string]model

func isTextBuf(T types.Type) bool {
	s := types.TypeString(T, nil)
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func (c *CallEv) T0() types.Type { return c.T.At(0).Type() }

// text of an argument that is a string or byte slice.
func (in *Interp) text(st *State, v Val) *Term {
	switch x := v.(type) {
	case Str:
		return x.T
	case Slice:
		return in.sliceTerm(st, x)
	case Iface:
		if len(x.Alts) == 1 && !x.Other {
			return in.text(st, x.Alts[0].V)
		}
	}
	return tFresh("text", st.depsOf(v))
}

func constText(st *State, t *Term) (string, bool) {
	if t.op == "const" {
		return t.s, true
	}
	s, ok := st.streq[t.id]
	return s, ok
}

func exclAll(t *Term) string {
	s := ""
	for _, c := range "\r\n :;=/\"," {
		if t.excludes(c) {
			s += string(c)
		}
	}
	return s
}

// indexModel: position of the first (or last) sep in s, or -1.
// lineFree: unknown parts of a text hold no line breaks (an assumption of the
// session model).
var lineFree bool

// lineIndex is the position of the first line break sep in a template.
func lineIndex(t *Term, sep string) (Lin, bool) {
	pos := K(0)
	for _, x := range pieces(t) {
		if x.op == "const" {
			if k := strings.Index(x.s, sep); k >= 0 {
				return pos.addK(int64(k)), true
			}
			if strings.ContainsAny(x.s, "\r\n") {
				return pos, false
			}
		}
		pos = pos.add(x.n)
	}
	return K(-1), true
}

// templateLines cuts a template at a line break.
func templateLines(t *Term, sep string) []*Term {
	var out []*Term
	var cur []*Term
	for _, x := range pieces(t) {
		if x.op != "const" {
			cur = append(cur, x)
			continue
		}
		for i, y := range strings.Split(x.s, sep) {
			if i > 0 {
				out = append(out, tCat(cur...))
				cur = nil
			}
			if y != "" {
				cur = append(cur, tConst(y))
			}
		}
	}
	return append(out, tCat(cur...))
}

func (in *Interp) indexModel(st *State, t *Term, sep *Term, last bool, what string) []outcome {
	cs, cok := constText(st, sep)
	ct, tok := constText(st, t)
	if cok && tok {
		r := strings.Index(ct, cs)
		if last {
			r = strings.LastIndex(ct, cs)
		}
		return ret1(st, Int{K(int64(r))})
	}
	if lineFree && cok && !last && strings.ContainsAny(cs, "\r\n") {
		if l, ok := lineIndex(t, cs); ok {
			return ret1(st, Int{l})
		}
	}
	key := fmt.Sprintf("%s(t%d,t%d)", what, t.id, sep.id)
	s := keyedSym(key, 0, maxLen)
	if i := s.info(); i.deps == nil {
		i.deps = unionDeps(t.deps, sep.deps)
	}
	at := cAtom("found:" + key)
	no := st.clone()
	var outs []outcome
	possible := true
	if cok && len(cs) > 0 {
		for _, r := range cs {
			if t.excludes(r) {
				possible = false
			}
		}
	}
	if possible && st.assume(at) && st.addGE(t.n.sub(LS(s)).sub(sep.n)) {
		if cok && len(cs) == 1 && !last {
			p := in.subTerm(st, t, K(0), LS(s))
			if p.op != "const" && !containsStr(p.excl, cs) {
				p.excl += cs
			}
		}
		if cok {
			for i := 0; i < len(cs) && i < 4; i++ {
				b := st.byteAt(t, LS(s).addK(int64(i)))
				if !st.addEQ(b.addK(-int64(cs[i]))) {
					break
				}
			}
		}
		outs = append(outs, outcome{st: st, vals: []Val{Int{LS(s)}}})
	}
	if cok && cs == "" {
		return outs
	}
	if no.assume(at.not()) {
		if cok && len(cs) == 1 && t.op != "const" && t.op != "cat" {
			// in this state t does not contain it; only this state may know
		}
		outs = append(outs, outcome{st: no, vals: []Val{Int{K(-1)}}})
	}
	return outs
}

func containsStr(a, b string) bool { return strings.Contains(a, b) }

// strSlice makes a slice of strings with a common description.
func (in *Interp) strSlice(st *State, c *CallEv, sub string, sm *Summ, lo int64, hi Lin, deps []string) Slice {
	n := newSym("len("+sub+")", lo, maxLen)
	n.info().deps = deps
	st.addGE(hi.sub(LS(n)))
	T := types.Typ[types.String]
	id := in.newArr(st, c.instr, sub, &Arr{elem: T, n: LS(n), def: sm, deps: deps, label: sub})
	return Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: LS(n), Cap: LS(n)}
}

// strList makes a slice holding exactly these strings.
func (in *Interp) strList(st *State, c *CallEv, sub string, ts ...*Term) Slice {
	T := types.Typ[types.String]
	a := &Arr{elem: T, n: K(int64(len(ts))), def: &Summ{kind: 's', strs: []string{""}}, label: sub}
	for i, t := range ts {
		a.ents = append(a.ents, Ent{K(int64(i)), Str{t}})
		a.deps = unionDeps(a.deps, t.deps)
	}
	id := in.newArr(st, c.instr, sub, a)
	return Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: a.n, Cap: a.n}
}

func (in *Interp) mapStr(name string, f func(string) string, length func(st *State, t *Term, n Lin)) model {
	return func(in *Interp, st *State, c *CallEv) []outcome {
		t := in.text(st, c.args[0])
		if s, ok := constText(st, t); ok {
			return ret1(st, Str{tConst(f(s))})
		}
		r := tFn(name, nil, t)
		if length != nil {
			length(st, t, r.n)
		}
		return ret1(st, Str{r})
	}
}

func trimLen(st *State, t *Term, n Lin) { st.addGE(t.n.sub(n)) }

func splitModel(in *Interp, st *State, c *CallEv, t, sep *Term) []outcome {
	if lineFree && sep.op == "const" && strings.ContainsAny(sep.s, "\r\n") {
		return ret1(st, in.strList(st, c, "split", templateLines(t, sep.s)...))
	}
	cs, ok := constText(st, sep)
	sm := &Summ{kind: 's', strTop: true, deps: unionDeps(t.deps, sep.deps), excl: exclAll(t)}
	lo := int64(1)
	if ok && len(cs) == 1 && !strings.Contains(sm.excl, cs) {
		sm.excl += cs
	}
	if !ok || cs == "" {
		lo = 0
	}
	return ret1(st, in.strSlice(st, c, "split", sm, lo, t.n.addK(1), sm.deps))
}

func (in *Interp) recvCell(st *State, v Val) (Loc, *Term, bool) {
	if i, ok := v.(Iface); ok && len(i.Alts) == 1 && !i.Other {
		v = i.Alts[0].V
	}
	p, ok := v.(Ptr)
	if !ok || len(p.Locs) != 1 {
		return Loc{}, nil, false
	}
	l := p.Locs[0]
	x := st.load(l, types.Typ[types.String])
	if s, ok := x.(Str); ok {
		return l, s.T, true
	}
	return l, tFresh("buffer", valDeps(x)), true
}

func (in *Interp) bufAppend(st *State, recv Val, t *Term) {
	if l, old, ok := in.recvCell(st, recv); ok {
		st.store(l, Str{tCat(old, t)}, nil)
	}
}

func sliceArgs(in *Interp, st *State, v Val) ([]Val, bool) {
	s, ok := v.(Slice)
	if !ok {
		return nil, false
	}
	if st.isNil(s.N) == triNil {
		return nil, true
	}
	if !s.Len.isK() || len(s.Objs) != 1 || s.Len.c > 40 {
		return nil, false
	}
	o := st.objOf(s.Objs[0])
	if o == nil || o.arr == nil {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < s.Len.c; i++ {
		out = append(out, st.expandAll(st.readElem(o, s.Off.addK(i))))
	}
	return out, true
}

// fmtArg renders one formatted argument.
func (in *Interp) fmtArg(st *State, verb byte, spec string, v Val) *Term {
	var T types.Type
	if i, ok := v.(Iface); ok {
		if st.isNil(i.N) == triNil {
			if verb == 'v' {
				return tConst("<nil>")
			}
			return tConst("%!" + string(verb) + "(<nil>)")
		}
		if len(i.Alts) == 1 && !i.Other {
			v, T = st.expandAll(i.Alts[0].V), i.Alts[0].T
		} else {
			return tFresh("fmt"+string(verb), st.depsOf(v))
		}
	}
	plain := spec == "%"+string(verb)
	stringer := false
	if T != nil {
		ms := types.NewMethodSet(T)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			stringer = true
		}
	}
	if stringer && strings.IndexByte("vsqxX", verb) >= 0 {
		return tFresh("stringer", st.depsOf(v))
	}
	bad := func() *Term {
		n := "?"
		if T != nil {
			n = T.String()
		}
		return tConst("%!" + string(verb) + "(" + n + "=?)")
	}
	switch x := v.(type) {
	case Str:
		switch verb {
		case 's', 'v':
			if plain {
				return x.T
			}
			return tFn("fmt"+spec, nil, x.T)
		case 'q':
			return tFn("quote", nil, x.T)
		case 'x', 'X':
			n := x.T.n.scale(2)
			return tFn("hex", &n, x.T)
		}
		return bad()
	case Int:
		switch verb {
		case 'd', 'v':
			if plain {
				return tInt(x.L)
			}
			return tFn("fmt"+spec, nil, tInt(x.L))
		case 'x', 'X', 'o', 'b', 'c', 'U', 'q', 'O':
			return tFn("fmt"+spec, nil, tInt(x.L))
		}
		return bad()
	case Bool:
		if verb == 't' || verb == 'v' {
			t := tFresh("bool", nil)
			t.excl = "\r\n :;=/\","
			return t
		}
		return bad()
	case Slice:
		if T != nil {
			if sl, ok := T.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) {
				t := in.sliceTerm(st, x)
				switch verb {
				case 's':
					return t
				case 'x':
					n := t.n.scale(2)
					return tFn("hex", &n, t)
				}
			}
		}
		return tFresh("fmt"+string(verb), st.depsOf(v))
	case ArrV:
		if x.A.bytes && verb == 'x' {
			tmp := &Obj{id: "tmp", kind: 'a', arr: x.A, summ: true}
			t := st.regionTerm(tmp, K(0), x.A.n)
			n := t.n.scale(2)
			return tFn("hex", &n, t)
		}
	case Misc:
		if T != nil {
			if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				if strings.IndexByte("eEfFgGvxX", verb) >= 0 {
					t := tFn("float:"+x.Label+spec, nil)
					t.excl = "\r\n :;=/\","
					return t
				}
				return bad()
			}
		}
	}
	return tFresh("fmt"+string(verb), st.depsOf(v))
}

// sprintf renders a format. It understands plain verbs and flags.
func (in *Interp) sprintf(st *State, format *Term, args []Val, known bool) *Term {
	f, ok := constText(st, format)
	if !ok || !known {
		d := format.deps
		for _, a := range args {
			d = unionDeps(d, st.depsOf(a))
		}
		if format.op == "cat" && known {
			// a format that is built from other strings: keep constants
		}
		return tFresh("sprintf?", d)
	}
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, tConst(f[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, tConst(f[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			parts = append(parts, tConst("%!(NOVERB)"))
			break
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			parts = append(parts, tConst("%"))
			continue
		}
		if verb == '*' || verb == '[' {
			return tFresh("sprintf?", nil)
		}
		if ai >= len(args) {
			parts = append(parts, tConst("%!"+string(verb)+"(MISSING)"))
			continue
		}
		parts = append(parts, in.fmtArg(st, verb, spec, args[ai]))
		ai++
	}
	if ai < len(args) {
		parts = append(parts, tConst("%!(EXTRA ...)"))
	}
	return tCat(parts...)
}

func (in *Interp) sprint(st *State, args []Val, known, ln bool) *Term {
	if !known {
		return tFresh("sprint", nil)
	}
	var parts []*Term
	for i, a := range args {
		if i > 0 && ln {
			parts = append(parts, tConst(" "))
		}
		parts = append(parts, in.fmtArg(st, 'v', "%v", a))
	}
	if ln {
		parts = append(parts, tConst("\n"))
	}
	return tCat(parts...)
}

// sscan stores unknown results for the verbs through the given pointers.
func (in *Interp) scanStore(st *State, p Val, t *Term, verb byte) {
	i, ok := p.(Iface)
	if !ok || len(i.Alts) != 1 {
		in.havoc(st, p)
		return
	}
	pt, ok := i.Alts[0].V.(Ptr)
	if !ok {
		return
	}
	T := deref(i.Alts[0].T)
	for _, l := range pt.Locs {
		old := st.load(l, T)
		var v Val
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			sm := &Summ{kind: 's', strTop: true, deps: t.deps, excl: "\r\n "}
			for _, c := range ":;=/\"," {
				if t.excludes(c) {
					sm.excl += string(c)
				}
			}
			v = st.instantiate(joinSumm(sm, st.summarize(old), false), T, in.lbl("scan"), t.deps)
		} else if isInt(T) {
			x := st.expand(Opaque{T: T, Label: in.lbl("scan"), Sum: summAny(T, "", t.deps)})
			v = x
		} else {
			v = Opaque{T: T, Label: in.lbl("scan")}
		}
		st.store(l, v, T)
	}
}

func byteOrder(v Val) string {
	if i, ok := v.(Iface); ok && len(i.Alts) == 1 {
		return types.TypeString(i.Alts[0].T, nil)
	}
	return ""
}

// beInt is the big-endian (or little-endian) number in t[off:off+n].
func (in *Interp) beInt(st *State, t *Term, off Lin, n int, little bool) Lin {
	r := K(0)
	for i := 0; i < n; i++ {
		sh := n - 1 - i
		if little {
			sh = i
		}
		r = r.add(st.byteAt(t, off.addK(int64(i))).scale(1 << (8 * uint(sh))))
	}
	return r
}

// sliceByte is the number of the byte s[i].
func (in *Interp) sliceByte(st *State, s Slice, i Lin) Lin {
	if len(s.Objs) == 1 {
		if o := st.objOf(s.Objs[0]); o != nil && o.arr != nil {
			if v, ok := st.expandAll(st.readElem(o, s.Off.add(i))).(Int); ok {
				return v.L
			}
		}
	}
	b := newSym("byte", 0, 255)
	b.info().deps = st.depsOf(s)
	return LS(b)
}

func (in *Interp) beSlice(st *State, s Slice, n int, little bool) Lin {
	r := K(0)
	for i := 0; i < n; i++ {
		sh := n - 1 - i
		if little {
			sh = i
		}
		r = r.add(in.sliceByte(st, s, K(int64(i))).scale(1 << (8 * uint(sh))))
	}
	return r
}

func modelByShape(ev *CallEv) model {
	n := ev.name
	switch {
	case strings.HasPrefix(n, "log.Print") || strings.HasPrefix(n, "(*log.Logger).Print"):
		return func(in *Interp, st *State, c *CallEv) []outcome { return []outcome{{st: st}} }
	case strings.HasPrefix(n, "log.Fatal") || n == "os.Exit" || strings.HasPrefix(n, "log.Panic"):
		return func(in *Interp, st *State, c *CallEv) []outcome { return nil }
	case strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(sync."):
		return func(in *Interp, st *State, c *CallEv) []outcome { return in.results(st, c, "") }
	case strings.HasPrefix(n, "(time.") || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "(*time."):
		return func(in *Interp, st *State, c *CallEv) []outcome { return in.results(st, c, "") }
	case strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "unicode") || strings.HasPrefix(n, "(net.IP)") || strings.HasPrefix(n, "net.") || strings.HasPrefix(n, "(*net/url") || strings.HasPrefix(n, "net/url") || strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "math"):
		// pure functions
		return func(in *Interp, st *State, c *CallEv) []outcome { return in.results(st, c, "") }
	}
	return nil
}

func addModels(m map[string]model) {
	for k, v := range m {
		models[k] = v
	}
}

func atomicCell(in *Interp, st *State, v Val, T types.Type) Val {
	// other goroutines may have changed it at any time
	p, ok := v.(Ptr)
	if ok && len(p.Locs) == 1 {
		if o := st.objOf(p.Locs[0].obj); o != nil {
			key := ""
			t := o.T
			path := p.Locs[0].path
			for _, s := range path {
				if u, ok := t.Underlying().(*types.Struct); ok && !s.isIdx {
					key = fieldKey(t, u, s.field)
					t = u.Field(s.field).Type()
				} else {
					key = ""
				}
			}
			if s, ok := in.invFor(key); ok && s != nil && key != "" {
				return st.instantiate(s, T, in.lbl("atomic"), nil)
			}
		}
	}
	return st.expand(Opaque{T: T, Label: in.lbl("atomic")})
}

func init() {
	models = map[string]model{}
	var in0 *Interp
	addModels(map[string]model{
		// --- strings
		"strings.Index": func(in *Interp, st *State, c *CallEv) []outcome {
			return in.indexModel(st, in.text(st, c.args[0]), in.text(st, c.args[1]), false, "index")
		},
		"strings.LastIndex": func(in *Interp, st *State, c *CallEv) []outcome {
			return in.indexModel(st, in.text(st, c.args[0]), in.text(st, c.args[1]), true, "lastindex")
		},
		"bytes.Index": func(in *Interp, st *State, c *CallEv) []outcome {
			return in.indexModel(st, in.text(st, c.args[0]), in.text(st, c.args[1]), false, "index")
		},
		"strings.IndexByte": func(in *Interp, st *State, c *CallEv) []outcome {
			return in.indexModel(st, in.text(st, c.args[0]), tByte(in.asInt(st, c.args[1], types.Typ[types.Byte])), false, "index")
		},
		"bytes.IndexByte": func(in *Interp, st *State, c *CallEv) []outcome {
			return in.indexModel(st, in.text(st, c.args[0]), tByte(in.asInt(st, c.args[1], types.Typ[types.Byte])), false, "index")
		},
		"strings.IndexRune": indexRune, "bytes.IndexRune": indexRune,
		"strings.IndexAny": func(in *Interp, st *State, c *CallEv) []outcome {
			t, set := in.text(st, c.args[0]), in.text(st, c.args[1])
			s := keyedSym(fmt.Sprintf("indexany(t%d,t%d)", t.id, set.id), 0, maxLen)
			no := st.clone()
			at := cAtom("found:" + s.info().name)
			var outs []outcome
			if st.assume(at) && st.addGE(t.n.sub(LS(s)).addK(-1)) {
				if cs, ok := constText(st, set); ok {
					p := in.subTerm(st, t, K(0), LS(s))
					if p.op != "const" {
						for _, ch := range cs {
							if !strings.ContainsRune(p.excl, ch) {
								p.excl += string(ch)
							}
						}
					}
				}
				outs = append(outs, outcome{st: st, vals: []Val{Int{LS(s)}}})
			}
			if no.assume(at.not()) {
				outs = append(outs, outcome{st: no, vals: []Val{Int{K(-1)}}})
			}
			return outs
		},
		"strings.Contains": containsModel, "bytes.Contains": containsModel,
		"strings.HasPrefix": func(in *Interp, st *State, c *CallEv) []outcome { return prefixModel(in, st, c, false) },
		"bytes.HasPrefix":   func(in *Interp, st *State, c *CallEv) []outcome { return prefixModel(in, st, c, false) },
		"strings.HasSuffix": func(in *Interp, st *State, c *CallEv) []outcome { return prefixModel(in, st, c, true) },
		"bytes.HasSuffix":   func(in *Interp, st *State, c *CallEv) []outcome { return prefixModel(in, st, c, true) },
		"strings.EqualFold": func(in *Interp, st *State, c *CallEv) []outcome {
			a, b := in.text(st, c.args[0]), in.text(st, c.args[1])
			return ret1(st, Bool{cAtom(fmt.Sprintf("fold:t%d:t%d", a.id, b.id))})
		},
		"strings.ToUpper":   in0.mapStr("upper", strings.ToUpper, nil),
		"strings.ToLower":   in0.mapStr("lower", strings.ToLower, nil),
		"strings.TrimSpace": in0.mapStr("trim", strings.TrimSpace, trimLen),
		"strings.Trim":      trimModel, "strings.TrimLeft": trimModel, "strings.TrimRight": trimModel,
		"strings.TrimPrefix": trimModel, "strings.TrimSuffix": trimModel,
		"strings.Split": func(in *Interp, st *State, c *CallEv) []outcome {
			return splitModel(in, st, c, in.text(st, c.args[0]), in.text(st, c.args[1]))
		},
		"strings.Fields": func(in *Interp, st *State, c *CallEv) []outcome {
			t := in.text(st, c.args[0])
			sm := &Summ{kind: 's', strTop: true, deps: t.deps, excl: exclAll(t)}
			for _, x := range "\r\n " {
				if !strings.ContainsRune(sm.excl, x) {
					sm.excl += string(x)
				}
			}
			return ret1(st, in.strSlice(st, c, "fields", sm, 0, t.n, t.deps))
		},
		"strings.FieldsFunc": func(in *Interp, st *State, c *CallEv) []outcome {
			t := in.text(st, c.args[0])
			sm := &Summ{kind: 's', strTop: true, deps: t.deps, excl: exclAll(t)}
			if f, ok := c.args[1].(Func); ok {
				// which separators does the predicate certainly accept?
				for _, ch := range "\r\n :;=/\"," {
					if in.predAccepts(st, c, f, int64(ch)) && !strings.ContainsRune(sm.excl, ch) {
						sm.excl += string(ch)
					}
				}
			}
			return ret1(st, in.strSlice(st, c, "fields", sm, 0, t.n, t.deps))
		},
		"strings.SplitN": func(in *Interp, st *State, c *CallEv) []outcome {
			t, sep := in.text(st, c.args[0]), in.text(st, c.args[1])
			n := in.asInt(st, c.args[2], types.Typ[types.Int])
			if n.isK() && n.c == 2 && sep.op == "const" && sep.s != "" {
				var outs []outcome
				for _, o := range in.indexModel(st, t, sep, false, "index") {
					i := o.vals[0].(Int).L
					if i.isK() && i.c == -1 {
						o.vals[0] = in.strList(o.st, c, "splitn", t)
					} else {
						a := in.subTerm(o.st, t, K(0), i)
						b := in.subTerm(o.st, t, i.add(sep.n), t.n)
						o.vals[0] = in.strList(o.st, c, "splitn", a, b)
					}
					outs = append(outs, o)
				}
				return outs
			}
			sm := &Summ{kind: 's', strTop: true, deps: t.deps, excl: exclAll(t)}
			if n.isK() && n.c == 1 {
				return ret1(st, in.strList(st, c, "splitn", t))
			}
			lo := int64(0)
			hi := t.n.addK(1)
			if n.isK() && n.c > 0 {
				lo = 1
				st.addGE(K(0))
				s := in.strSlice(st, c, "splitn", sm, lo, hi, t.deps)
				st.addGE(n.sub(s.Len))
				return ret1(st, s)
			}
			if n.isK() && n.c < 0 {
				return splitModel(in, st, c, t, sep)
			}
			return ret1(st, in.strSlice(st, c, "splitn", sm, lo, hi, t.deps))
		},
		"strings.Cut": func(in *Interp, st *State, c *CallEv) []outcome {
			t, sep := in.text(st, c.args[0]), in.text(st, c.args[1])
			var outs []outcome
			for _, o := range in.indexModel(st, t, sep, false, "index") {
				i := o.vals[0].(Int).L
				if i.isK() && i.c == -1 {
					o.vals = []Val{Str{t}, Str{tConst("")}, Bool{cK(false)}}
				} else {
					o.vals = []Val{Str{in.subTerm(o.st, t, K(0), i)}, Str{in.subTerm(o.st, t, i.add(sep.n), t.n)}, Bool{cK(true)}}
				}
				outs = append(outs, o)
			}
			return outs
		},
		"strings.Replace":    replaceModel,
		"strings.ReplaceAll": replaceModel,
		"strings.Join": func(in *Interp, st *State, c *CallEv) []outcome {
			sep := in.text(st, c.args[1])
			if args, ok := sliceArgs(in, st, c.args[0]); ok {
				var parts []*Term
				for i, a := range args {
					if i > 0 {
						parts = append(parts, sep)
					}
					parts = append(parts, in.text(st, a))
				}
				return ret1(st, Str{tCat(parts...)})
			}
			return ret1(st, Str{tFresh("join", unionDeps(st.depsOf(c.args[0]), sep.deps))})
		},
		"strings.Repeat": func(in *Interp, st *State, c *CallEv) []outcome {
			n := in.asInt(st, c.args[1], types.Typ[types.Int])
			if !in.oblige(st, "negative repeat count", c.instr, cGE(n)) {
				return nil
			}
			return ret1(st, Str{tFresh("repeat", st.depsOf(c.args[0]))})
		},
		"strings.Count": countModel, "bytes.Count": countModel,
		// --- strconv
		"strconv.Itoa": func(in *Interp, st *State, c *CallEv) []outcome {
			return ret1(st, Str{tInt(in.asInt(st, c.args[0], types.Typ[types.Int]))})
		},
		"strconv.FormatInt":  formatInt,
		"strconv.FormatUint": formatInt,
		"strconv.Quote": func(in *Interp, st *State, c *CallEv) []outcome {
			return ret1(st, Str{tFn("quote", nil, in.text(st, c.args[0]))})
		},
		"strconv.Atoi": func(in *Interp, st *State, c *CallEv) []outcome { return parseNum(in, st, c, 64, false) },
		"strconv.ParseInt": func(in *Interp, st *State, c *CallEv) []outcome {
			return parseNum(in, st, c, bitsArg(in, st, c), false)
		},
		"strconv.ParseUint":  func(in *Interp, st *State, c *CallEv) []outcome { return parseNum(in, st, c, bitsArg(in, st, c), true) },
		"strconv.AppendUint": appendNum, "strconv.AppendInt": appendNum,
		// --- fmt
		"fmt.Sprintf": func(in *Interp, st *State, c *CallEv) []outcome {
			args, ok := sliceArgs(in, st, c.args[1])
			t := in.sprintf(st, in.text(st, c.args[0]), args, ok)
			if !ok {
				t = tFresh("sprintf", unionDeps(st.depsOf(c.args[0]), st.depsOf(c.args[1])))
			}
			return ret1(st, Str{t})
		},
		"fmt.Sprint": func(in *Interp, st *State, c *CallEv) []outcome {
			args, ok := sliceArgs(in, st, c.args[0])
			return ret1(st, Str{in.sprint(st, args, ok, false)})
		},
		"fmt.Sprintln": func(in *Interp, st *State, c *CallEv) []outcome {
			args, ok := sliceArgs(in, st, c.args[0])
			return ret1(st, Str{in.sprint(st, args, ok, true)})
		},
		"fmt.Errorf": func(in *Interp, st *State, c *CallEv) []outcome {
			args, ok := sliceArgs(in, st, c.args[1])
			t := in.sprintf(st, in.text(st, c.args[0]), args, ok)
			e := in.newErr("errorf")
			e.Deps = t.deps
			return ret1(st, e)
		},
		"fmt.Fprintf": func(in *Interp, st *State, c *CallEv) []outcome {
			args, ok := sliceArgs(in, st, c.args[2])
			t := in.sprintf(st, in.text(st, c.args[1]), args, ok)
			in.bufAppend(st, c.args[0], t)
			return in.results(st, c, "")[:1]
		},
		"fmt.Fprint": func(in *Interp, st *State, c *CallEv) []outcome {
			args, ok := sliceArgs(in, st, c.args[1])
			in.bufAppend(st, c.args[0], in.sprint(st, args, ok, false))
			return in.results(st, c, "")[:1]
		},
		"fmt.Sscanf": func(in *Interp, st *State, c *CallEv) []outcome {
			t := in.text(st, c.args[0])
			if args, ok := sliceArgs(in, st, c.args[2]); ok {
				for _, a := range args {
					in.scanStore(st, a, t, 0)
				}
			} else {
				in.havoc(st, c.args[2])
			}
			return in.results(st, c, "")
		},
		"fmt.Sscan": func(in *Interp, st *State, c *CallEv) []outcome {
			t := in.text(st, c.args[0])
			if args, ok := sliceArgs(in, st, c.args[1]); ok {
				for _, a := range args {
					in.scanStore(st, a, t, 0)
				}
			} else {
				in.havoc(st, c.args[1])
			}
			return in.results(st, c, "")
		},
		// --- errors
		"errors.New": func(in *Interp, st *State, c *CallEv) []outcome {
			e := in.newErr("errors.New")
			e.Deps = in.text(st, c.args[0]).deps
			return ret1(st, e)
		},
		"github.com/pkg/errors.New": func(in *Interp, st *State, c *CallEv) []outcome {
			return ret1(st, in.newErr("errors.New"))
		},
		"github.com/pkg/errors.Errorf": func(in *Interp, st *State, c *CallEv) []outcome {
			return ret1(st, in.newErr("errors.New"))
		},
		"github.com/pkg/errors.Wrap": wrapModel, "github.com/pkg/errors.Wrapf": wrapModel,
		"github.com/pkg/errors.WithMessage": wrapModel, "github.com/pkg/errors.WithStack": wrapModel,
		"(error).Error": func(in *Interp, st *State, c *CallEv) []outcome {
			return ret1(st, Str{tFresh("error text", st.depsOf(c.args[0]))})
		},
		// --- bytes
		"bytes.Equal": func(in *Interp, st *State, c *CallEv) []outcome {
			a, b := in.text(st, c.args[0]), in.text(st, c.args[1])
			return ret1(st, Bool{st.strCond(a, b)})
		},
		"bytes.Compare": func(in *Interp, st *State, c *CallEv) []outcome {
			a, b := in.text(st, c.args[0]), in.text(st, c.args[1])
			cd := st.strCond(a, b)
			ne := st.clone()
			var outs []outcome
			if st.assume(cd) {
				outs = append(outs, outcome{st: st, vals: []Val{Int{K(0)}}})
			}
			if ne.assume(cd.not()) {
				lt := ne.clone()
				outs = append(outs, outcome{st: ne, vals: []Val{Int{K(1)}}}, outcome{st: lt, vals: []Val{Int{K(-1)}}})
			}
			return outs
		},
		"bytes.TrimSpace": func(in *Interp, st *State, c *CallEv) []outcome {
			s, ok := c.args[0].(Slice)
			if !ok {
				return in.results(st, c, "")
			}
			o := newSym("trimoff", 0, maxLen)
			n := newSym("trimlen", 0, maxLen)
			st.addGE(s.Len.sub(LS(o)).sub(LS(n)))
			nl := s.N
			if st.isNil(nl) != triNil {
				nl = freshNull() // may be nil if nothing is left
			}
			return ret1(st, Slice{N: nl, Objs: s.Objs, Off: s.Off.add(LS(o)), Len: LS(n), Cap: s.Cap.sub(LS(o))})
		},
		"bytes.Split": func(in *Interp, st *State, c *CallEv) []outcome {
			s, ok := c.args[0].(Slice)
			if !ok {
				return in.results(st, c, "")
			}
			sm := &Summ{kind: 'l', null: triNon, objs: s.Objs, lhi: maxLen, deps: st.depsOf(s)}
			if h, ok := st.poly.max(s.Len); ok && h < maxLen {
				sm.lhi = h
			}
			if len(s.Objs) == 0 {
				sm.inObj = true
			}
			n := newSym("len(split)", 0, maxLen)
			if sep, ok := constText(st, in.text(st, c.args[1])); ok && sep != "" {
				st.addGE(LS(n).addK(-1))
			}
			st.addGE(s.Len.addK(1).sub(LS(n)))
			T := c.T0().Underlying().(*types.Slice).Elem()
			id := in.newArr(st, c.instr, "split", &Arr{elem: T, n: LS(n), def: sm, deps: sm.deps})
			return ret1(st, Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: LS(n), Cap: LS(n)})
		},
		"bytes.Fields": func(in *Interp, st *State, c *CallEv) []outcome {
			s, ok := c.args[0].(Slice)
			if !ok {
				return in.results(st, c, "")
			}
			sm := &Summ{kind: 'l', null: triNon, objs: s.Objs, llo: 1, lhi: maxLen, deps: st.depsOf(s)}
			if len(s.Objs) == 0 {
				sm.inObj = true
			}
			n := newSym("len(fields)", 0, maxLen)
			st.addGE(s.Len.sub(LS(n)))
			T := c.T0().Underlying().(*types.Slice).Elem()
			id := in.newArr(st, c.instr, "split", &Arr{elem: T, n: LS(n), def: sm, deps: sm.deps})
			return ret1(st, Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: LS(n), Cap: LS(n)})
		},
		"bytes.Join": func(in *Interp, st *State, c *CallEv) []outcome {
			d := unionDeps(st.depsOf(c.args[0]), st.depsOf(c.args[1]))
			if s, ok := c.args[0].(Slice); ok {
				for _, id := range s.Objs {
					if o := st.objOf(id); o != nil && o.arr != nil && o.arr.def != nil {
						d = unionDeps(d, o.arr.def.allDeps())
					}
				}
			}
			return ret1(st, in.newBytes(st, c.instr, "join", tFresh("join", d), types.Typ[types.Byte]))
		},
		"bytes.ToUpper": bytesMap("upper"), "bytes.ToLower": bytesMap("lower"),
		"bytes.NewReader": func(in *Interp, st *State, c *CallEv) []outcome {
			id := in.newObj(st, c.instr, "reader", &Obj{T: deref(c.T0()), kind: 'v', v: Struct{[]Val{c.args[0], Int{K(0)}}}})
			return ret1(st, Ptr{N: nonNil, Locs: []Loc{{obj: id}}})
		},
		"encoding/binary.Read": binaryRead,
		"(encoding/binary.bigEndian).Uint16": func(in *Interp, st *State, c *CallEv) []outcome {
			return uintN(in, st, c, 2, false)
		},
		"(encoding/binary.bigEndian).Uint32": func(in *Interp, st *State, c *CallEv) []outcome {
			return uintN(in, st, c, 4, false)
		},
		"(encoding/binary.littleEndian).Uint16": func(in *Interp, st *State, c *CallEv) []outcome {
			return uintN(in, st, c, 2, true)
		},
		"(encoding/binary.littleEndian).Uint32": func(in *Interp, st *State, c *CallEv) []outcome {
			return uintN(in, st, c, 4, true)
		},
		// --- utf8
		"unicode/utf8.EncodeRune": func(in *Interp, st *State, c *CallEv) []outcome {
			s := in.asSlice(st, c.args[0], types.NewSlice(types.Typ[types.Byte]))
			r := in.asInt(st, c.args[1], types.Typ[types.Rune])
			if st.poly.entails(r) && st.poly.entails(r.neg().addK(127)) {
				if !in.oblige(st, "index", c.instr, cGE(s.Len.addK(-1))) {
					return nil
				}
				in.copyInto(st, c.instr, s, Str{tByte(r)}, K(1), types.Typ[types.Byte])
				return ret1(st, Int{K(1)})
			}
			if !in.oblige(st, "index", c.instr, cGE(s.Len.addK(-4))) {
				return nil
			}
			n := newSym("runelen", 1, 4)
			t := tFn("utf8", nil, tInt(r))
			st.addEQ(t.n.sub(LS(n)))
			in.copyInto(st, c.instr, s, Str{t}, LS(n), types.Typ[types.Byte])
			return ret1(st, Int{LS(n)})
		},
		"unicode/utf8.DecodeRune": decodeRune, "unicode/utf8.DecodeRuneInString": decodeRune,
		// --- atomics
		"sync/atomic.LoadInt32": atomLoad, "sync/atomic.LoadInt64": atomLoad, "sync/atomic.LoadUint32": atomLoad, "sync/atomic.LoadUint64": atomLoad,
		"sync/atomic.StoreInt32": atomStore, "sync/atomic.StoreInt64": atomStore, "sync/atomic.StoreUint32": atomStore,
		"sync/atomic.SwapInt32": atomSwap, "sync/atomic.SwapInt64": atomSwap,
		"sync/atomic.AddInt32": atomSwap, "sync/atomic.AddInt64": atomSwap,
		"sync/atomic.CompareAndSwapInt32": atomCAS, "sync/atomic.CompareAndSwapInt64": atomCAS, "sync/atomic.CompareAndSwapUint32": atomCAS,
		// --- builders
		"(*strings.Builder).WriteString": bufWrite, "(*bytes.Buffer).WriteString": bufWrite,
		"(*strings.Builder).Write": bufWrite, "(*bytes.Buffer).Write": bufWrite,
		"(*strings.Builder).WriteByte": func(in *Interp, st *State, c *CallEv) []outcome {
			in.bufAppend(st, c.args[0], tByte(in.asInt(st, c.args[1], types.Typ[types.Byte])))
			return ret1(st, Iface{N: isNil})
		},
		"(*bytes.Buffer).WriteByte": func(in *Interp, st *State, c *CallEv) []outcome {
			in.bufAppend(st, c.args[0], tByte(in.asInt(st, c.args[1], types.Typ[types.Byte])))
			return ret1(st, Iface{N: isNil})
		},
		"(*strings.Builder).WriteRune": bufRune, "(*bytes.Buffer).WriteRune": bufRune,
		"(*strings.Builder).String": bufString, "(*bytes.Buffer).String": bufString,
		"(*strings.Builder).Len": bufLen, "(*bytes.Buffer).Len": bufLen,
		"(*strings.Builder).Reset": bufReset, "(*bytes.Buffer).Reset": bufReset,
		"(*strings.Builder).Grow": func(in *Interp, st *State, c *CallEv) []outcome { return []outcome{{st: st}} },
		"(*bytes.Buffer).Bytes": func(in *Interp, st *State, c *CallEv) []outcome {
			_, t, ok := in.recvCell(st, c.args[0])
			if !ok {
				return in.results(st, c, "")
			}
			return ret1(st, in.newBytes(st, c.instr, "buf", t, types.Typ[types.Byte]))
		},
		// --- hashes
		"crypto/md5.New": func(in *Interp, st *State, c *CallEv) []outcome {
			id := in.newObj(st, c.instr, "md5", &Obj{T: types.Typ[types.String], kind: 'v', v: Str{tConst("")}})
			T := in.p.typeOf("crypto/md5", "digest")
			if T == nil {
				return in.results(st, c, "")
			}
			return ret1(st, Iface{N: nonNil, Alts: []IAlt{{types.NewPointer(T), Ptr{N: nonNil, Locs: []Loc{{obj: id}}}}}})
		},
		"(*crypto/md5.digest).Write": bufWrite,
		"io.WriteString": func(in *Interp, st *State, c *CallEv) []outcome {
			in.bufAppend(st, c.args[0], in.text(st, c.args[1]))
			return in.results(st, c, "")[:1]
		},
		"(*crypto/md5.digest).Reset": bufReset,
		"(*crypto/md5.digest).Sum": func(in *Interp, st *State, c *CallEv) []outcome {
			_, t, ok := in.recvCell(st, c.args[0])
			if !ok {
				return in.results(st, c, "")
			}
			n := K(16)
			pre := in.text(st, c.args[1])
			return ret1(st, in.newBytes(st, c.instr, "sum", tCat(pre, tFn("md5", &n, t)), types.Typ[types.Byte]))
		},
		"crypto/md5.Sum": func(in *Interp, st *State, c *CallEv) []outcome {
			n := K(16)
			t := tFn("md5", &n, in.text(st, c.args[0]))
			a := &Arr{elem: types.Typ[types.Byte], n: K(16), bytes: true, def: topByte, deps: t.deps, segs: []Seg{{K(0), K(16), t, K(0)}}}
			return ret1(st, ArrV{a})
		},
		"encoding/hex.EncodeToString": func(in *Interp, st *State, c *CallEv) []outcome {
			t := in.text(st, c.args[0])
			n := t.n.scale(2)
			return ret1(st, Str{tFn("hex", &n, t)})
		},
		"(*encoding/base64.Encoding).EncodeToString": func(in *Interp, st *State, c *CallEv) []outcome {
			t := in.text(st, c.args[1])
			name := "b64?"
			if p, ok := c.args[0].(Ptr); ok && len(p.Locs) == 1 && strings.Contains(string(p.Locs[0].obj), "base64.StdEncoding") {
				name = "b64"
			}
			r := tFn(name, nil, t)
			r.excl = "\r\n :;\","
			return ret1(st, Str{r})
		},
		// --- sort
		"slices.Sort": sortModel, "slices.SortFunc": sortModel, "slices.SortStableFunc": sortModel,
		"sort.Strings": sortModel, "sort.Ints": sortModel, "sort.Slice": sortModel, "sort.SliceStable": sortModel, "sort.Sort": sortModel, "sort.Stable": sortModel,
		"(time.Time).IsZero": func(in *Interp, st *State, c *CallEv) []outcome {
			if len(c.args) == 1 && in.exact > 0 {
				if k := timeKey(st, c.args[0]); k == "zero" {
					return ret1(st, Bool{cK(true)})
				} else if k != "" {
					return ret1(st, Bool{cAtom("timezero:" + k)})
				}
			}
			return in.results(st, c, "")
		},
		"(time.Duration).Seconds": func(in *Interp, st *State, c *CallEv) []outcome {
			if d, ok := c.args[0].(Int); ok && in.exact > 0 && d.L.c%1e9 == 0 {
				l := K(d.L.c / 1e9)
				for _, t := range d.L.t {
					if t.k%1e9 != 0 {
						return in.results(st, c, "")
					}
					l = l.add(LS(t.s).scale(t.k / 1e9))
				}
				return ret1(st, floatOf(valDeps(d), l))
			}
			return in.results(st, c, "")
		},
		// --- net
		"net.ParseIP": func(in *Interp, st *State, c *CallEv) []outcome {
			bad := st.clone()
			t := in.text(st, c.args[0])
			if k, ok := constText(st, t); ok && in.exact > 0 {
				if ip := net.ParseIP(k); ip == nil {
					return ret1(bad, bad.zero(c.T0()))
				} else {
					return ret1(st, in.newBytes(st, c.instr, "ip", tConst(string(ip)), types.Typ[types.Byte]))
				}
			}
			n := K(16)
			s := in.newBytes(st, c.instr, "ip", tFn("parseip", &n, t), types.Typ[types.Byte])
			return []outcome{{st: st, vals: []Val{s}}, {st: bad, vals: []Val{bad.zero(c.T0())}}}
		},
		"(net.IP).To4": func(in *Interp, st *State, c *CallEv) []outcome {
			bad := st.clone()
			if t := in.text(st, c.args[0]); in.exact > 0 && t.n.isK() {
				zero := func(i int64, b int64) bool { return st.eval(cEQ(st.readByte(t, K(i)).addK(-b))) == 1 }
				never := func(i int64, b int64) bool { return st.eval(cEQ(st.readByte(t, K(i)).addK(-b))) == 0 }
				if t.n.c == 4 {
					return ret1(st, c.args[0])
				}
				if t.n.c != 16 {
					return ret1(bad, bad.zero(c.T0()))
				}
				all := true
				for i := int64(0); i < 12; i++ {
					b := int64(0)
					if i >= 10 {
						b = 255
					}
					if never(i, b) {
						return ret1(bad, bad.zero(c.T0()))
					}
					all = all && zero(i, b)
				}
				if v, ok := c.args[0].(Slice); ok && all {
					v.Off, v.Len, v.Cap = v.Off.addK(12), K(4), K(4)
					return ret1(st, v)
				}
			}
			n := K(4)
			s := in.newBytes(st, c.instr, "ip4", tFn("to4", &n, in.text(st, c.args[0])), types.Typ[types.Byte])
			return []outcome{{st: st, vals: []Val{s}}, {st: bad, vals: []Val{bad.zero(c.T0())}}}
		},
		"(net.IP).String": func(in *Interp, st *State, c *CallEv) []outcome {
			r := tFn("ipstring", nil, in.text(st, c.args[0]))
			return ret1(st, Str{r})
		},
		"(net.IP).Equal": func(in *Interp, st *State, c *CallEv) []outcome {
			a, b := in.text(st, c.args[0]), in.text(st, c.args[1])
			switch {
			case st.eval(st.strCond(a, b)) == 1:
				return ret1(st, Bool{cK(true)})
			case st.poly.entails(b.n.neg()):
				return ret1(st, Bool{cEQ(a.n)})
			case st.poly.entails(a.n.neg()):
				return ret1(st, Bool{cEQ(b.n)})
			}
			if a.id > b.id {
				a, b = b, a
			}
			return ret1(st, Bool{cAtom(fmt.Sprintf("ipeq:t%d:t%d", a.id, b.id))})
		},
	})
}

func indexRune(in *Interp, st *State, c *CallEv) []outcome {
	r := in.asInt(st, c.args[1], types.Typ[types.Rune])
	t := in.text(st, c.args[0])
	if r.isK() && r.c >= 0 && r.c < 128 {
		return in.indexModel(st, t, tConst(string(rune(r.c))), false, "index")
	}
	return in.indexModel(st, t, tFresh("rune", nil), false, "index")
}

func containsModel(in *Interp, st *State, c *CallEv) []outcome {
	outs := in.indexModel(st, in.text(st, c.args[0]), in.text(st, c.args[1]), false, "index")
	for i := range outs {
		l := outs[i].vals[0].(Int).L
		outs[i].vals[0] = Bool{cK(!(l.isK() && l.c == -1))}
	}
	return outs
}

func prefixModel(in *Interp, st *State, c *CallEv, suffix bool) []outcome {
	t, p := in.text(st, c.args[0]), in.text(st, c.args[1])
	s, ok := constText(st, p)
	if v, is := constText(st, t); is && ok {
		if suffix {
			return ret1(st, Bool{cK(strings.HasSuffix(v, s))})
		}
		return ret1(st, Bool{cK(strings.HasPrefix(v, s))})
	}
	var outs []outcome
	no := st.clone()
	if st.addGE(t.n.sub(p.n)) {
		sub := in.subTerm(st, t, K(0), p.n)
		if suffix {
			sub = in.subTerm(st, t, t.n.sub(p.n), t.n)
		}
		cd := st.strCond(sub, p)
		neg := st.clone()
		if st.assume(cd) {
			outs = append(outs, outcome{st: st, vals: []Val{Bool{cK(true)}}})
		}
		if neg.assume(cd.not()) {
			outs = append(outs, outcome{st: neg, vals: []Val{Bool{cK(false)}}})
		}
	}
	if no.addGE(p.n.sub(t.n).addK(-1)) {
		outs = append(outs, outcome{st: no, vals: []Val{Bool{cK(false)}}})
	}
	return outs
}

func trimModel(in *Interp, st *State, c *CallEv) []outcome {
	t := in.text(st, c.args[0])
	u := in.text(st, c.args[1])
	r := tFn(shortName(c.name), nil, t, u)
	if r.excl == "" && t.op != "const" {
		r.excl = exclAll(t)
	}
	st.addGE(t.n.sub(r.n))
	return ret1(st, Str{r})
}

func replaceModel(in *Interp, st *State, c *CallEv) []outcome {
	t, old, nw := in.text(st, c.args[0]), in.text(st, c.args[1]), in.text(st, c.args[2])
	all := true
	if len(c.args) > 3 {
		n := in.asInt(st, c.args[3], types.Typ[types.Int])
		all = n.isK() && n.c < 0
	}
	so, ok1 := constText(st, old)
	sn, ok2 := constText(st, nw)
	if s, ok := constText(st, t); ok && ok1 && ok2 && all {
		return ret1(st, Str{tConst(strings.ReplaceAll(s, so, sn))})
	}
	var r *Term
	if ok1 && ok2 && len(so) == len(sn) {
		n := t.n
		r = tFn("replace", &n, t, old, nw)
	} else {
		r = tFn("replace", nil, t, old, nw)
		if ok1 && ok2 && len(sn) < len(so) {
			st.addGE(t.n.sub(r.n))
		}
	}
	if all && ok1 && ok2 && r.excl == "" {
		for _, ch := range "\r\n :;=/\"," {
			s := string(ch)
			switch {
			case so == s && !strings.Contains(sn, s):
				r.excl += s
			case t.excludes(ch) && !strings.Contains(sn, s):
				r.excl += s
			}
		}
	}
	return ret1(st, Str{r})
}

func countModel(in *Interp, st *State, c *CallEv) []outcome {
	t := in.text(st, c.args[0])
	if a, ok := constText(st, t); ok {
		if b, ok := constText(st, in.text(st, c.args[1])); ok {
			return ret1(st, Int{K(int64(strings.Count(a, b)))})
		}
	}
	if b, ok := constText(st, in.text(st, c.args[1])); ok && len(b) == 1 && t.op == "cat" {
		n, all := int64(0), true
		for _, a := range t.args {
			switch {
			case a.op == "const":
				n += int64(strings.Count(a.s, b))
			case a.excludes(rune(b[0])):
			case a.op == "fn" && a.s == "byte" && st.eval(cEQ(a.lins[0].addK(-int64(b[0])))) == 0:
			default:
				all = false
			}
		}
		if all {
			return ret1(st, Int{K(n)})
		}
	}
	s := keyedSym(fmt.Sprintf("count(t%d,t%d)", t.id, in.text(st, c.args[1]).id), 0, maxLen)
	st.addGE(t.n.addK(1).sub(LS(s)))
	if sep := in.text(st, c.args[1]); sep.op == "const" && len(sep.s) == 1 {
		st.addGE(t.n.sub(LS(s)))
		base, from := t, K(0)
		if t.op == "sub" {
			base, from = t.args[0], t.lins[0]
		}
		st.setGhost(fmt.Sprintf("cnt:%d:%d", base.id, sep.s[0]), Tuple{[]Val{Int{from}, Int{K(0)}, Int{from.add(t.n)}, Int{LS(s)}}})
	}
	return ret1(st, Int{LS(s)})
}

// readByte is a byte the program reads. While it reads a text it counted
// bytes in from the start on, the count so far is kept: it never exceeds the
// total.
func (st *State) readByte(t *Term, off Lin) Lin {
	l := st.byteAt(t, off)
	if len(l.t) != 1 || l.c != 0 || l.t[0].k != 1 {
		return l
	}
	base := t
	for base.op == "sub" {
		base, off = base.args[0], off.add(base.lins[0])
	}
	pre := fmt.Sprintf("cnt:%d:", base.id)
	for _, k := range sortedGhost(st.ghost) {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		g := st.ghost[k].(Tuple).V
		cur, ok := g[0].(Int)
		cnt, ok2 := g[1].(Int)
		end, ok3 := g[2].(Int)
		tot, ok4 := g[3].(Int)
		if !ok || !ok2 || !ok3 || !ok4 || !st.poly.entailsEq(cur.L, off) || !st.poly.entails(end.L.sub(off).addK(-1)) {
			continue
		}
		c, _ := strconv.Atoi(k[len(pre):])
		x := keyedSym(fmt.Sprintf("is(%d,%s)", c, l.key()), 0, 1)
		syms.isOf[l.t[0].s] = append(syms.isOf[l.t[0].s], isByte{int64(c), x})
		n := cnt.L.add(LS(x))
		st.setGhost(k, Tuple{[]Val{Int{off.addK(1)}, Int{n}, g[2], g[3]}})
		st.addGE(tot.L.sub(n))
		if st.in.exact > 0 {
			st.addGE(n.add(end.L).sub(off.addK(1)).sub(tot.L))
		}
	}
	return l
}

// isByte: x is 1 if the byte is c, else 0.
type isByte struct {
	c int64
	x Sym
}

func formatInt(in *Interp, st *State, c *CallEv) []outcome {
	b := in.asInt(st, c.args[1], types.Typ[types.Int])
	l := in.asInt(st, c.args[0], types.Typ[types.Int64])
	if b.isK() && b.c == 10 {
		return ret1(st, Str{tInt(l)})
	}
	return ret1(st, Str{tFn("formatint"+b.key(), nil, tInt(l))})
}

func bitsArg(in *Interp, st *State, c *CallEv) int {
	b := in.asInt(st, c.args[2], types.Typ[types.Int])
	if b.isK() && b.c > 0 && b.c < 64 {
		return int(b.c)
	}
	return 64
}

// parseNum: success gives a number in range, failure an error and anything.
func parseNum(in *Interp, st *State, c *CallEv, bits int, unsigned bool) []outcome {
	t := in.text(st, c.args[0])
	bad := st.clone()
	if s, ok := constText(st, t); ok && c.name == "strconv.Atoi" {
		if n, err := strconv.Atoi(s); err == nil {
			return []outcome{{st: st, vals: []Val{Int{K(int64(n))}, Iface{N: isNil}}}}
		}
		return []outcome{{st: bad, vals: []Val{Int{K(0)}, in.newErr("atoi")}}}
	}
	if bs, ok := in.bytesOf(st, t); ok && in.exact > 0 {
		for _, b := range bs {
			if !st.poly.entails(b.addK(-58)) {
				continue
			}
			if c.name == "strconv.Atoi" || st.poly.entails(b.addK(-'z'-1)) || st.baseTen(c) {
				return []outcome{{st: bad, vals: []Val{Int{K(0)}, in.newErr("atoi")}}}
			}
		}
	}
	lo, hi := int64(noLo), int64(noHi)
	if bits < 64 {
		lo, hi = -1<<uint(bits-1), 1<<uint(bits-1)-1
		if unsigned {
			lo, hi = 0, 1<<uint(bits)-1
		}
	} else if unsigned {
		lo = 0
	}
	y := keyedSym(fmt.Sprintf("num%d%v(t%d)", bits, unsigned, t.id), lo, hi)
	i := y.info()
	i.wide = bits >= 64
	if i.deps == nil {
		i.deps = t.deps
	}
	z := newSym("badnum", lo, hi)
	z.info().wide = bits >= 64
	z.info().deps = t.deps
	var outs []outcome
	at := cAtom(fmt.Sprintf("isnum%d%v(t%d)", bits, unsigned, t.id))
	if st.assume(at) && st.addGE(t.n.addK(-1)) {
		outs = append(outs, outcome{st: st, vals: []Val{Int{LS(y)}, Iface{N: isNil}}})
	}
	if bad.assume(at.not()) {
		e := in.newErr("parse")
		e.Deps = t.deps
		outs = append(outs, outcome{st: bad, vals: []Val{Int{LS(z)}, e}})
	}
	return outs
}

func appendNum(in *Interp, st *State, c *CallEv) []outcome {
	l := in.asInt(st, c.args[1], types.Typ[types.Int64])
	t := tInt(l)
	if b := in.asInt(st, c.args[2], types.Typ[types.Int]); !b.isK() || b.c != 10 {
		t = tFn("formatint"+b.key(), nil, t)
	}
	s := in.asSlice(st, c.args[0], c.T0())
	return ret1(st, in.append1(st, c.instr, s, Str{t}, types.Typ[types.Byte]))
}

func wrapModel(in *Interp, st *State, c *CallEv) []outcome {
	e, ok := c.args[0].(Iface)
	if !ok {
		return in.results(st, c, "")
	}
	var outs []outcome
	nl := st.clone()
	if nl.assume(nilCond(e.N)) {
		outs = append(outs, outcome{st: nl, vals: []Val{Iface{N: isNil}}})
	}
	if st.assume(nilCond(e.N).not()) {
		w := in.newErr("wrap")
		for _, a := range c.args {
			w.Deps = unionDeps(w.Deps, st.depsOf(a))
		}
		outs = append(outs, outcome{st: st, vals: []Val{w}})
	}
	return outs
}

func bytesMap(name string) model {
	return func(in *Interp, st *State, c *CallEv) []outcome {
		t := tFn(name, nil, in.text(st, c.args[0]))
		return ret1(st, in.newBytes(st, c.instr, "map", t, types.Typ[types.Byte]))
	}
}

func uintN(in *Interp, st *State, c *CallEv, n int, little bool) []outcome {
	s := in.asSlice(st, c.args[len(c.args)-1], types.NewSlice(types.Typ[types.Byte]))
	if !in.oblige(st, "index", c.instr, cGE(s.Len.addK(-int64(n)))) {
		return nil
	}
	return ret1(st, Int{in.beSlice(st, s, n, little)})
}

// binaryRead models binary.Read(reader, order, &number).
func binaryRead(in *Interp, st *State, c *CallEv) []outcome {
	fallback := func() []outcome {
		in.havoc(st, c.args[2])
		return in.results(st, c, "")
	}
	ri, ok := c.args[0].(Iface)
	di, ok2 := c.args[2].(Iface)
	if !ok || !ok2 || len(ri.Alts) != 1 || ri.Other || len(di.Alts) != 1 || di.Other {
		return fallback()
	}
	rp, ok := ri.Alts[0].V.(Ptr)
	dp, ok2 := di.Alts[0].V.(Ptr)
	if !ok || !ok2 || len(rp.Locs) != 1 || len(dp.Locs) != 1 || len(rp.Locs[0].path) != 0 {
		return fallback()
	}
	o := st.objOf(rp.Locs[0].obj)
	if o == nil {
		return fallback()
	}
	rs, ok := o.v.(Struct)
	if !ok || len(rs.F) != 2 || types.TypeString(ri.Alts[0].T, nil) != "*bytes.Reader" {
		return fallback()
	}
	src, ok := rs.F[0].(Slice)
	pos, ok2 := rs.F[1].(Int)
	T := deref(di.Alts[0].T)
	b, ok3 := T.Underlying().(*types.Basic)
	if !ok || !ok2 || !ok3 {
		return fallback()
	}
	n := 0
	switch b.Kind() {
	case types.Uint8, types.Int8:
		n = 1
	case types.Uint16, types.Int16:
		n = 2
	case types.Uint32, types.Int32:
		n = 4
	default:
		return fallback()
	}
	ord := byteOrder(c.args[1])
	if !strings.Contains(ord, "bigEndian") && !strings.Contains(ord, "littleEndian") {
		return fallback()
	}
	bad := st.clone()
	var outs []outcome
	if st.addGE(src.Len.sub(pos.L).addK(-int64(n))) {
		s2 := src
		s2.Off = src.Off.add(pos.L)
		l := in.beSlice(st, s2, n, strings.Contains(ord, "littleEndian"))
		l = in.wrap(st, l, T)
		var at ssa.Instruction = c.instr
		in.doStore(st, dp.Locs[0], Int{l}, T, at)
		no := *st.objOf(o.id)
		no.v = Struct{[]Val{src, Int{pos.L.addK(int64(n))}}}
		st.setObj(&no)
		outs = append(outs, outcome{st: st, vals: []Val{Iface{N: isNil}}})
	}
	if bad.addGE(pos.L.addK(int64(n) - 1).sub(src.Len)) {
		outs = append(outs, outcome{st: bad, vals: []Val{in.newErr("short")}})
	}
	return outs
}

func decodeRune(in *Interp, st *State, c *CallEv) []outcome {
	t := in.text(st, c.args[0])
	var outs []outcome
	empty := st.clone()
	if empty.addEQ(t.n) {
		outs = append(outs, outcome{st: empty, vals: []Val{Int{K(0xfffd)}, Int{K(0)}}})
	}
	if !st.addGE(t.n.addK(-1)) {
		return outs
	}
	b := st.byteAt(t, K(0))
	multi := st.clone()
	if st.addGE(b.neg().addK(127)) {
		outs = append(outs, outcome{st: st, vals: []Val{Int{b}, Int{K(1)}}})
	}
	if multi.addGE(b.addK(-128)) {
		r := newSym("rune", 0x80, 0x10ffff)
		r.info().deps = t.deps
		n := newSym("runelen", 1, 4)
		multi.addGE(t.n.sub(LS(n)))
		outs = append(outs, outcome{st: multi, vals: []Val{Int{LS(r)}, Int{LS(n)}}})
	}
	return outs
}

func atomLoad(in *Interp, st *State, c *CallEv) []outcome {
	p := in.asPtr(st, c.args[0], nil0)
	if !in.notNil(st, p.N, "dereference", c.instr) {
		return nil
	}
	return ret1(st, atomicCell(in, st, c.args[0], c.T0()))
}

var nil0 types.Type = types.NewPointer(types.Typ[types.Int32])

func atomStore(in *Interp, st *State, c *CallEv) []outcome {
	p := in.asPtr(st, c.args[0], nil0)
	for _, l := range p.Locs {
		in.doStore(st, l, c.args[1], types.Typ[types.Int32], c.instr)
	}
	return []outcome{{st: st}}
}

func atomSwap(in *Interp, st *State, c *CallEv) []outcome {
	p := in.asPtr(st, c.args[0], nil0)
	old := atomicCell(in, st, c.args[0], c.T0())
	v := c.args[1]
	if strings.Contains(c.name, "Add") {
		v = st.expand(Opaque{T: c.T0(), Label: in.lbl("atomicadd")})
		old = v
	}
	for _, l := range p.Locs {
		in.doStore(st, l, v, c.T0(), c.instr)
	}
	return ret1(st, old)
}

func atomCAS(in *Interp, st *State, c *CallEv) []outcome {
	p := in.asPtr(st, c.args[0], nil0)
	if !in.notNil(st, p.N, "dereference", c.instr) {
		return nil
	}
	no := st.clone()
	for _, l := range p.Locs {
		in.doStore(st, l, c.args[2], types.Typ[types.Int32], c.instr)
	}
	return []outcome{{st: st, vals: []Val{Bool{cK(true)}}}, {st: no, vals: []Val{Bool{cK(false)}}}}
}

func bufWrite(in *Interp, st *State, c *CallEv) []outcome {
	t := in.text(st, c.args[1])
	in.bufAppend(st, c.args[0], t)
	return []outcome{{st: st, vals: []Val{Int{t.n}, Iface{N: isNil}}}}
}

func bufRune(in *Interp, st *State, c *CallEv) []outcome {
	r := in.asInt(st, c.args[1], types.Typ[types.Rune])
	t := tByte(r)
	if !(st.poly.entails(r) && st.poly.entails(r.neg().addK(127))) {
		t = tFn("utf8", nil, tInt(r))
	}
	in.bufAppend(st, c.args[0], t)
	return []outcome{{st: st, vals: []Val{Int{t.n}, Iface{N: isNil}}}}
}

func bufString(in *Interp, st *State, c *CallEv) []outcome {
	_, t, ok := in.recvCell(st, c.args[0])
	if !ok {
		return in.results(st, c, "")
	}
	return ret1(st, Str{t})
}

func bufLen(in *Interp, st *State, c *CallEv) []outcome {
	_, t, ok := in.recvCell(st, c.args[0])
	if !ok {
		return in.results(st, c, "")
	}
	return ret1(st, Int{t.n})
}

func bufReset(in *Interp, st *State, c *CallEv) []outcome {
	if l, _, ok := in.recvCell(st, c.args[0]); ok {
		st.store(l, Str{tConst("")}, nil)
	}
	return []outcome{{st: st}}
}

// sortModel: the elements change places; the comparison is called.
func sortModel(in *Interp, st *State, c *CallEv) []outcome {
	v := c.args[0]
	if i, ok := v.(Iface); ok && len(i.Alts) == 1 {
		v = i.Alts[0].V
	}
	s, ok := v.(Slice)
	if !ok {
		in.havoc(st, c.args[0])
		return in.results(st, c, "")
	}
	if s.Len.isK() && s.Len.c <= 1 {
		return in.results(st, c, "")
	}
	if in.exact > 0 {
		t := st.clone()
		if t := in.sortExact(t, c, s); t != nil {
			return in.results(t, c, "")
		}
	}
	for _, id := range s.Objs {
		o := st.objOf(id)
		if o == nil || o.arr == nil {
			continue
		}
		if in.hooks.write != nil {
			in.hooks.write(in, st, o, s.Off, s.Off.add(s.Len), c.instr)
		}
		no := *o
		na := o.arr.clone()
		na.def = st.summArr(na)
		na.ents, na.segs = nil, nil
		no.arr = na
		st.setObj(&no)
	}
	if len(c.args) > 1 {
		if f, ok := c.args[1].(Func); ok {
			t := st.clone()
			i, j := newSym("i", 0, maxLen), newSym("j", 0, maxLen)
			if t.addGE(s.Len.sub(LS(i)).addK(-1)) && t.addGE(s.Len.sub(LS(j)).addK(-1)) {
				for _, g := range f.Fns {
					in.callFn(t.clone(), c.instr, c.common, g.Fn, []Val{Int{LS(i)}, Int{LS(j)}}, g.Binds, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])))
				}
			}
		}
	}
	return []outcome{{st: st}}
}

// predAccepts reports whether a pure predicate certainly accepts a rune.
func (in *Interp) predAccepts(st *State, c *CallEv, f Func, r int64) bool {
	if len(f.Fns) == 0 || f.Unknown {
		return false
	}
	save := in.sink
	var drop []Found
	in.sink = &drop
	defer func() { in.sink = save }()
	for _, g := range f.Fns {
		for _, o := range in.callFn(st.clone(), c.instr, c.common, g.Fn, []Val{Int{K(r)}}, g.Binds, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool]))) {
			b, ok := o.vals[0].(Bool)
			if !ok || o.st.eval(b.C) != 1 {
				return false
			}
		}
	}
	return true
}

// timeKey names a time value: "zero" for the zero time, "" if not known.
func timeKey(st *State, v Val) string {
	if o, ok := v.(Opaque); ok {
		v = st.expand(o)
	}
	if m, ok := v.(Misc); ok && m.Label != "any" {
		return m.Label
	}
	return ""
}

// baseTen: the base a number is parsed in is ten.
func (st *State) baseTen(c *CallEv) bool {
	if len(c.args) < 2 {
		return false
	}
	n, ok := c.args[1].(Int)
	return ok && n.L.isK() && n.L.c == 10
}

// sortExact sorts a list of known length whose comparisons are decided, the
// way the library does it for short lists; nil if it cannot be done.
func (in *Interp) sortExact(st *State, c *CallEv, s Slice) *State {
	if !s.Len.isK() || s.Len.c > 11 || len(s.Objs) != 1 {
		return nil
	}
	n := s.Len.c
	elem := func(i int64) Val {
		if o := st.objOf(s.Objs[0]); o != nil && o.arr != nil {
			return st.expandAll(st.readElem(o, s.Off.addK(i)))
		}
		return nil
	}
	swap := func(i, j int64) bool {
		a, b := elem(i), elem(j)
		if a == nil || b == nil {
			return false
		}
		st.writeElem(st.objOf(s.Objs[0]), s.Off.addK(i), b)
		st.writeElem(st.objOf(s.Objs[0]), s.Off.addK(j), a)
		return true
	}
	one := func(outs []outcome) (Val, bool) {
		if len(outs) != 1 || outs[0].panicked || outs[0].st.inexact {
			return nil, false
		}
		st = outs[0].st
		if len(outs[0].vals) == 0 {
			return nil, true
		}
		return outs[0].vals[0], true
	}
	plain := func(i, j int64) int {
		switch a := elem(i).(type) {
		case Str:
			b, ok := elem(j).(Str)
			if !ok {
				return -1
			}
			x, ok1 := constText(st, a.T)
			y, ok2 := constText(st, b.T)
			if !ok1 || !ok2 {
				return -1
			}
			if x < y {
				return 1
			}
			return 0
		case Int:
			if b, ok := elem(j).(Int); ok {
				return st.eval(cGE(b.L.sub(a.L).addK(-1)))
			}
		}
		return -1
	}
	less := plain
	isBool := func(v Val, ok bool) int {
		if b, is := v.(Bool); ok && is {
			return st.eval(b.C)
		}
		return -1
	}
	switch c.name {
	case "sort.Strings", "sort.Ints", "slices.Sort":
	case "sort.Slice", "sort.SliceStable":
		less = func(i, j int64) int { return isBool(one(in.apply(st, c, c.args[1], []Val{Int{K(i)}, Int{K(j)}}))) }
	case "slices.SortFunc", "slices.SortStableFunc":
		less = func(i, j int64) int {
			v, ok := one(in.apply(st, c, c.args[1], []Val{elem(i), elem(j)}))
			if x, is := v.(Int); ok && is {
				return st.eval(cGE(x.L.neg().addK(-1)))
			}
			return -1
		}
	case "sort.Sort", "sort.Stable":
		i, ok := c.args[0].(Iface)
		if !ok || len(i.Alts) != 1 {
			return nil
		}
		a := i.Alts[0]
		switch types.TypeString(a.T, nil) {
		case "sort.StringSlice", "sort.IntSlice":
		default:
			named, ok := deref(a.T).(*types.Named)
			if !ok || named.Obj().Pkg() == nil || !strings.HasPrefix(named.Obj().Pkg().Path(), modPath) {
				return nil
			}
			lm, sm := in.p.ssa.LookupMethod(a.T, named.Obj().Pkg(), "Less"), in.p.ssa.LookupMethod(a.T, named.Obj().Pkg(), "Swap")
			if lm == nil || sm == nil {
				return nil
			}
			less = func(i, j int64) int {
				return isBool(one(in.callFn(st, c.instr, c.common, lm, []Val{a.V, Int{K(i)}, Int{K(j)}}, nil, lm.Signature.Results())))
			}
			swap = func(i, j int64) bool {
				_, ok := one(in.callFn(st, c.instr, c.common, sm, []Val{a.V, Int{K(i)}, Int{K(j)}}, nil, sm.Signature.Results()))
				return ok
			}
		}
	default:
		return nil
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			switch less(j, j-1) {
			case -1:
				return nil
			case 0:
				j = 0
				continue
			}
			if !swap(j, j-1) {
				return nil
			}
		}
	}
	return st
}
