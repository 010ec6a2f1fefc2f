package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Models of text functions for runs on texts of known length whose bytes are
// known well enough; they give the one result there is.

const exactText = 200

// bytesOf lists the bytes of a text of known length.
func (in *Interp) bytesOf(st *State, t *Term) ([]Lin, bool) {
	if !t.n.isK() || t.n.c > exactText {
		return nil, false
	}
	var out []Lin
	for i := int64(0); i < t.n.c; i++ {
		out = append(out, st.readByte(t, K(i)))
	}
	return out, true
}

// places lists where the constant text sep occurs, from the left without
// overlap; ok: every comparison is decided.
func (in *Interp) places(st *State, t, sep *Term) (at []int64, n int64, ok bool) {
	s, is := constText(st, sep)
	if !is || s == "" {
		return nil, 0, false
	}
	bs, is := in.bytesOf(st, t)
	if !is {
		return nil, 0, false
	}
	for i := 0; i+len(s) <= len(bs); {
		r := 1
		for j := 0; j < len(s) && r == 1; j++ {
			r = st.eval(cEQ(bs[i+j].addK(-int64(s[j]))))
		}
		switch r {
		case -1:
			return nil, 0, false
		case 1:
			at = append(at, int64(i))
			i += len(s)
		default:
			i++
		}
	}
	return at, int64(len(s)), true
}

func (in *Interp) exactModel(st *State, c *CallEv) ([]outcome, bool) {
	switch c.name {
	case "fmt.Sscanf":
		if f, ok := constText(st, in.text(st, c.args[1])); ok {
			return in.exactScan(st, c, in.text(st, c.args[0]), f, c.args[2])
		}
		return nil, false
	case "fmt.Sscan":
		return in.exactScan(st, c, in.text(st, c.args[0]), "", c.args[1])
	}
	switch c.name {
	case "(time.Time).Unix":
		k := timeKey(st, c.args[0])
		if k == "" || k == "zero" {
			return nil, false
		}
		n := keyedSym(c.name+":"+k, noLo, noHi)
		if i := n.info(); i.deps == nil {
			i.deps = st.depsOf(c.args[0])
		}
		return ret1(st, Int{LS(n)}), true
	case "sort.SearchStrings", "sort.StringsAreSorted", "slices.IsSorted":
		s, ok := c.args[0].(Slice)
		if !ok {
			return nil, false
		}
		if s.Len.isK() && (s.Len.c == 0 || s.Len.c == 1 && len(c.args) == 1) {
			if len(c.args) == 1 {
				return ret1(st, Bool{cK(true)}), true
			}
			return ret1(st, Int{K(0)}), true
		}
		list, ok := constList(st, s)
		if !ok {
			return nil, false
		}
		if len(c.args) == 1 {
			if sort.StringsAreSorted(list) {
				return ret1(st, Bool{cK(true)}), true
			}
			return ret1(st, Bool{cK(false)}), true
		}
		x, ok := constText(st, in.text(st, c.args[1]))
		if !ok {
			return nil, false
		}
		return ret1(st, Int{K(int64(sort.SearchStrings(list, x)))}), true
	}
	dot := strings.Index(c.name, ".")
	if dot < 0 || c.name[:dot] != "strings" && c.name[:dot] != "bytes" || len(c.args) == 0 {
		return nil, false
	}
	name := c.name[dot+1:]
	isB := c.name[:dot] == "bytes"
	cut := func(v Val, t *Term, lo, hi int64) Val {
		if s, ok := v.(Slice); ok && isB {
			return Slice{N: nonNil, Objs: s.Objs, Off: s.Off.addK(lo), Len: K(hi - lo), Cap: s.Cap.addK(-lo)}
		}
		return Str{in.subTerm(st, t, K(lo), K(hi))}
	}
	list := func(vs []Val) []outcome {
		T := c.T0().Underlying().(*types.Slice).Elem()
		a := &Arr{elem: T, n: K(int64(len(vs))), label: "split"}
		for i, v := range vs {
			a.ents = append(a.ents, Ent{K(int64(i)), v})
			a.deps = unionDeps(a.deps, st.depsOf(v))
		}
		id := in.newArr(st, c.instr, "split", a)
		return ret1(st, Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: a.n, Cap: a.n})
	}
	sepOf := func(i int) *Term {
		if n, ok := c.args[i].(Int); ok {
			if n.L.isK() {
				if strings.HasSuffix(name, "Rune") {
					return tConst(string(rune(n.L.c)))
				}
				return tConst(string([]byte{byte(n.L.c)}))
			}
			return tByte(n.L)
		}
		return in.text(st, c.args[i])
	}
	switch name {
	case "Compare":
		a, ok1 := constText(st, in.text(st, c.args[0]))
		b, ok2 := constText(st, in.text(st, c.args[1]))
		if !ok1 || !ok2 {
			return nil, false
		}
		return ret1(st, Int{K(int64(strings.Compare(a, b)))}), true
	case "FieldsFunc":
		t := in.text(st, c.args[0])
		bs, ok := in.bytesOf(st, t)
		if !ok {
			return nil, false
		}
		var vs []Val
		lo := int64(-1)
		for i, b := range bs {
			if !b.isK() && (!st.poly.entails(b) || !st.poly.entails(b.neg().addK(127))) || b.isK() && b.c > 127 {
				return nil, false
			}
			outs := in.apply(st, c, c.args[1], []Val{Int{b}})
			if len(outs) != 1 || outs[0].panicked || len(outs[0].vals) != 1 {
				return nil, false
			}
			x, ok := outs[0].vals[0].(Bool)
			if !ok {
				return nil, false
			}
			st = outs[0].st
			switch st.eval(x.C) {
			case 1:
				if lo >= 0 {
					vs = append(vs, cut(c.args[0], t, lo, int64(i)))
				}
				lo = -1
			case 0:
				if lo < 0 {
					lo = int64(i)
				}
			default:
				return nil, false
			}
		}
		if lo >= 0 {
			vs = append(vs, cut(c.args[0], t, lo, int64(len(bs))))
		}
		return list(vs), true
	case "Split", "SplitN":
		t := in.text(st, c.args[0])
		at, w, ok := in.places(st, t, sepOf(1))
		if !ok {
			return nil, false
		}
		max := int64(-1)
		if name == "SplitN" {
			n := in.asInt(st, c.args[2], types.Typ[types.Int])
			if !n.isK() || n.c == 0 {
				return nil, false
			}
			max = n.c
		}
		if max > 0 && int64(len(at)) > max-1 {
			at = at[:max-1]
		}
		var vs []Val
		lo := int64(0)
		for _, i := range at {
			vs = append(vs, cut(c.args[0], t, lo, i))
			lo = i + w
		}
		return list(append(vs, cut(c.args[0], t, lo, t.n.c))), true
	case "Cut":
		t := in.text(st, c.args[0])
		at, w, ok := in.places(st, t, sepOf(1))
		if !ok {
			return nil, false
		}
		if len(at) == 0 {
			rest := Val(Str{tConst("")})
			if isB {
				rest = st.zero(c.T.At(1).Type())
			}
			return []outcome{{st: st, vals: []Val{c.args[0], rest, Bool{cK(false)}}}}, true
		}
		return []outcome{{st: st, vals: []Val{cut(c.args[0], t, 0, at[0]), cut(c.args[0], t, at[0]+w, t.n.c), Bool{cK(true)}}}}, true
	case "Index", "IndexByte", "IndexRune", "LastIndex", "LastIndexByte", "Contains", "ContainsRune", "Count":
		at, _, ok := in.places(st, in.text(st, c.args[0]), sepOf(1))
		if !ok {
			return nil, false
		}
		switch {
		case name == "Count":
			return ret1(st, Int{K(int64(len(at)))}), true
		case strings.HasPrefix(name, "Contains"):
			return ret1(st, Bool{cK(len(at) > 0)}), true
		case len(at) == 0:
			return ret1(st, Int{K(-1)}), true
		case strings.HasPrefix(name, "Last"):
			return ret1(st, Int{K(at[len(at)-1])}), true
		}
		return ret1(st, Int{K(at[0])}), true
	case "Fields", "TrimSpace":
		t := in.text(st, c.args[0])
		bs, ok := in.bytesOf(st, t)
		if !ok {
			return nil, false
		}
		space := make([]bool, len(bs))
		for i, b := range bs {
			if b.isK() && b.c < 128 {
				space[i] = strings.ContainsRune(" \t\n\v\f\r", rune(b.c))
			} else if !st.poly.entails(b.addK(-33)) || !st.poly.entails(b.neg().addK(127)) {
				return nil, false
			}
		}
		if name == "TrimSpace" {
			lo, hi := 0, len(bs)
			for lo < hi && space[lo] {
				lo++
			}
			for hi > lo && space[hi-1] {
				hi--
			}
			if isB && lo == hi {
				return ret1(st, st.zero(c.T0())), true // nil, if nothing is left
			}
			return ret1(st, cut(c.args[0], t, int64(lo), int64(hi))), true
		}
		var vs []Val
		for i := 0; i < len(bs); {
			if space[i] {
				i++
				continue
			}
			j := i
			for j < len(bs) && !space[j] {
				j++
			}
			vs = append(vs, cut(c.args[0], t, int64(i), int64(j)))
			i = j
		}
		return list(vs), true
	case "Replace", "ReplaceAll":
		if isB {
			return nil, false
		}
		t := in.text(st, c.args[0])
		at, w, ok := in.places(st, t, in.text(st, c.args[1]))
		if !ok {
			return nil, false
		}
		if name == "Replace" {
			n := in.asInt(st, c.args[3], types.Typ[types.Int])
			if !n.isK() {
				return nil, false
			}
			if n.c >= 0 && n.c < int64(len(at)) {
				at = at[:n.c]
			}
		}
		var ps []*Term
		lo := int64(0)
		for _, i := range at {
			ps = append(ps, in.subTerm(st, t, K(lo), K(i)), in.text(st, c.args[2]))
			lo = i + w
		}
		return ret1(st, Str{tCat(append(ps, in.subTerm(st, t, K(lo), t.n))...)}), true
	case "Trim", "TrimLeft", "TrimRight":
		t := in.text(st, c.args[0])
		set, is := constText(st, in.text(st, c.args[1]))
		bs, ok := in.bytesOf(st, t)
		if !ok || !is {
			return nil, false
		}
		hit := func(b Lin) int {
			r := 0
			for _, x := range []byte(set) {
				if x > 127 {
					return -1
				}
				switch st.eval(cEQ(b.addK(-int64(x)))) {
				case 1:
					return 1
				case -1:
					r = -1
				}
			}
			return r
		}
		lo, hi := 0, len(bs)
		for ; name != "TrimRight" && lo < hi; lo++ {
			if k := hit(bs[lo]); k == -1 {
				return nil, false
			} else if k == 0 {
				break
			}
		}
		for ; name != "TrimLeft" && lo < hi; hi-- {
			if k := hit(bs[hi-1]); k == -1 {
				return nil, false
			} else if k == 0 {
				break
			}
		}
		if isB && lo == hi {
			return nil, false
		}
		return ret1(st, cut(c.args[0], t, int64(lo), int64(hi))), true
	case "Join":
		if !isB {
			return nil, false
		}
		args, ok := sliceArgs(in, st, c.args[0])
		if !ok {
			return nil, false
		}
		sep := in.text(st, c.args[1])
		var parts []*Term
		for i, a := range args {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, in.text(st, a))
		}
		return ret1(st, in.newBytes(st, c.instr, "join", tCat(parts...), types.Typ[types.Byte])), true
	}
	return nil, false
}

// exactScan is the scanning of a text whose bytes are known well enough, by a
// format of %d, %s and %v verbs ("" for none).
func (in *Interp) exactScan(st *State, c *CallEv, t *Term, format string, list Val) ([]outcome, bool) {
	args, ok := sliceArgs(in, st, list)
	bs, ok2 := in.bytesOf(st, t)
	if !ok || !ok2 {
		return nil, false
	}
	is := func(i int, set string) int { // 1: bs[i] is one of set
		r := 0
		for _, x := range []byte(set) {
			switch st.eval(cEQ(bs[i].addK(-int64(x)))) {
			case 1:
				return 1
			case -1:
				r = -1
			}
		}
		return r
	}
	const blanks = " \t\r\n"
	type item struct {
		verb byte
		lit  byte
	}
	var items []item
	if format == "" {
		for range args {
			items = append(items, item{verb: 'v'})
		}
	}
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			items = append(items, item{lit: format[i]})
			continue
		}
		i++
		if i == len(format) || !strings.ContainsRune("dsv", rune(format[i])) {
			return nil, false
		}
		items = append(items, item{verb: format[i]})
	}
	type put struct {
		l Loc
		v Val
		T types.Type
	}
	var puts []put
	at, n := 0, 0
	failed := false
scan:
	for _, it := range items {
		if it.verb == 0 {
			if it.lit == ' ' {
				for at < len(bs) {
					switch is(at, " \t") {
					case -1:
						return nil, false
					case 0:
						continue scan
					}
					at++
				}
				continue
			}
			if at == len(bs) {
				failed = true
				break
			}
			switch st.eval(cEQ(bs[at].addK(-int64(it.lit)))) {
			case -1:
				return nil, false
			case 0:
				failed = true
				break scan
			}
			at++
			continue
		}
		if n >= len(args) {
			failed = true
			break
		}
		a, ok := args[n].(Iface)
		if !ok || len(a.Alts) != 1 {
			return nil, false
		}
		p, ok := a.Alts[0].V.(Ptr)
		if !ok || len(p.Locs) != 1 || st.isNil(p.N) != triNon {
			return nil, false
		}
		T := deref(a.Alts[0].T)
		for at < len(bs) {
			k := is(at, " \t")
			if k == -1 {
				return nil, false
			}
			if k == 0 {
				break
			}
			at++
		}
		lo := at
		isNum := isInt(T)
		if b, ok := T.Underlying().(*types.Basic); !isNum && (!ok || b.Info()&types.IsString == 0) {
			return nil, false
		}
		if isNum && it.verb == 's' || !isNum && it.verb == 'd' {
			failed = true
			break
		}
		for at < len(bs) {
			if isNum {
				set := "0123456789"
				if at == lo {
					set += "+-"
				}
				k := is(at, set)
				if k == -1 {
					return nil, false
				}
				if k == 0 {
					break
				}
			} else {
				k := is(at, blanks)
				if k == -1 {
					return nil, false
				}
				if k == 1 {
					break
				}
			}
			at++
		}
		if at == lo {
			failed = true
			break
		}
		if !isNum {
			puts = append(puts, put{p.Locs[0], Str{in.subTerm(st, t, K(int64(lo)), K(int64(at)))}, T})
			n++
			continue
		}
		num := ""
		for _, b := range bs[lo:at] {
			if !b.isK() {
				return nil, false
			}
			num += string([]byte{byte(b.c)})
		}
		if it.verb == 'v' && len(num) > 1 && num[0] == '0' {
			return nil, false // other bases
		}
		x, err := strconv.ParseInt(num, 10, 64)
		if err != nil || x > 1<<31-1 || x < -1<<31 {
			failed = true
			break
		}
		puts = append(puts, put{p.Locs[0], Int{K(x)}, T})
		n++
	}
	for _, x := range puts {
		st.store(x.l, x.v, x.T)
	}
	var e Val = Iface{N: isNil}
	if failed || n < len(args) {
		e = in.newErr("scan")
	}
	return []outcome{{st: st, vals: []Val{Int{K(int64(n))}, e}}}, true
}

// apply calls a function a library function was given.
func (in *Interp) apply(st *State, c *CallEv, f Val, args []Val) []outcome {
	fn, ok := f.(Func)
	if !ok || len(fn.Fns) != 1 || fn.Unknown || st.isNil(fn.N) != triNon {
		return nil
	}
	g := fn.Fns[0]
	return in.callFn(st, c.instr, c.common, g.Fn, args, g.Binds, g.Fn.Signature.Results())
}

// constList takes a list of known strings.
func constList(st *State, s Slice) (out []string, ok bool) {
	if !s.Len.isK() || s.Len.c > 64 {
		return nil, false
	}
	if s.Len.c == 0 {
		return nil, true
	}
	if len(s.Objs) != 1 {
		return nil, false
	}
	for i := int64(0); i < s.Len.c; i++ {
		o := st.objOf(s.Objs[0])
		if o == nil || o.arr == nil {
			return nil, false
		}
		v, ok := st.expandAll(st.readElem(o, s.Off.addK(i))).(Str)
		if !ok {
			return nil, false
		}
		k, ok := constText(st, v.T)
		if !ok {
			return nil, false
		}
		out = append(out, k)
	}
	return out, true
}
