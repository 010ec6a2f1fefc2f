package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The encoder followed exactly on messages of known structure whose parts are
// arbitrary: S08 and the encoder half of S09 are read off the lines it makes.

type encCase struct {
	name string
	on   func(path string) bool // path of a leaf or list
	unit int64                  // unit of the durations
	v6   bool
	lo   int64 // range of the numbers
	hi   int64
	old  bool     // the session passed in has spare capacity holding old lines
	keys []string // keys of the maps
	perm []int    // the order of the entries when the message is encoded again
	into bool     // the second time into the lines of the first
}

type encLine struct {
	typ Lin
	txt *Term
	pos string
}

type encRun struct {
	c      encCase
	lines  [][]encLine // per path
	st     []*State
	gaveUp string
	steps  int
	msg    Val
	again  [][]encLine // the lines made the second time
	first  [][]encLine
	died   string // no path returns: the last obligation that failed
}

const encLists = 3

// encValue makes a value whose parts are arbitrary texts of 7 bytes and
// numbers between 10 and 59, or blank where on says no.
func (c *encCase) value(in *Interp, st *State, T types.Type, path string) Val {
	if !c.on(path) {
		return st.zero(T)
	}
	num := func(unit int64) Val {
		lo, hi := int64(10), int64(59)
		if c.hi != 0 {
			lo, hi = c.lo, c.hi
		}
		if unit != 1 && c.hi == 0 {
			lo, hi = 11, 19 // not a multiple of a larger unit
		}
		s := keyedSym(fmt.Sprintf("enc:%s:%d", path, hi), lo, hi)
		s.info().deps = []string{path}
		return Int{LS(s).scale(unit)}
	}
	if T.String() == "time.Duration" {
		return num(c.unit)
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if hiddenStruct(T) {
			v := Misc{[]string{path}, path}
			if k := timeKey(st, v); k != "" {
				st.facts["timezero:"+k] = false
			}
			return v
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = c.value(in, st, u.Field(i).Type(), strings.TrimPrefix(path+"."+u.Field(i).Name(), "."))
		}
		return Struct{f}
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return num(1)
		case u.Info()&types.IsString != 0:
			if c.keys != nil && strings.Contains(path, "Attributes.value") {
				return Str{tConst("v" + path[len(path)-2:len(path)-1])}
			}
			return Str{fieldTerm(st, path)}
		}
	case *types.Slice:
		n := int64(encLists)
		a := &Arr{elem: u.Elem(), n: K(n), label: path}
		if isByteType(u.Elem()) {
			n = 4
			if c.v6 {
				n = 16
			}
			var ps []*Term
			for i := int64(0); i < n; i++ {
				b := keyedSym(fmt.Sprintf("enc:%s.%d", path, i), 10, 59)
				b.info().deps = []string{path}
				ps = append(ps, tByte(LS(b)))
			}
			t := tCat(ps...)
			a = &Arr{elem: u.Elem(), n: K(n), bytes: true, deps: []string{path}, def: topByte, label: path, segs: []Seg{{K(0), K(n), t, K(0)}}}
		} else {
			for i := int64(0); i < n; i++ {
				a.ents = append(a.ents, Ent{K(i), c.value(in, st, u.Elem(), fmt.Sprintf("%s[%d]", path, i))})
			}
		}
		id := ObjID(path)
		st.setObj(&Obj{id: id, T: u.Elem(), kind: 'a', arr: a, site: path})
		return Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: K(n), Cap: K(n)}
	case *types.Map:
		id := ObjID(path)
		if c.keys != nil {
			mp := &MapC{kt: u.Key(), vt: u.Elem(), n: K(int64(len(c.keys)))}
			for i, k := range c.keys {
				mp.ents = append(mp.ents, MEnt{Str{tConst(k)}, c.value(in, st, u.Elem(), fmt.Sprintf("%s.value%d", path, i))})
			}
			st.setObj(&Obj{id: id, T: u, kind: 'm', site: path, mp: mp})
			return Ptr{N: nonNil, Locs: []Loc{{obj: id}}}
		}
		key := Val(Str{fieldTerm(st, path+".key")})
		st.setObj(&Obj{id: id, T: u, kind: 'm', site: path, mp: &MapC{kt: u.Key(), vt: u.Elem(), n: K(1), ents: []MEnt{{key, c.value(in, st, u.Elem(), path+".value")}}}})
		return Ptr{N: nonNil, Locs: []Loc{{obj: id}}}
	}
	return st.expandAll(Opaque{T: T, Label: path})
}

// encoderFn finds Message.Append.
func (p *Prog) encoderFn() *ssa.Function {
	for _, f := range p.apiRoots() {
		if pkgOf(f) == sdpPath && f.Name() == "Append" && f.Signature.Recv() != nil && strings.HasSuffix(deref(f.Signature.Recv().Type()).String(), ".Message") && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
			return f
		}
	}
	return nil
}

func followEncode(p *Prog, c encCase) (r *encRun) {
	r = &encRun{c: c}
	fn := p.encoderFn()
	if fn == nil {
		r.gaveUp = "Message.Append not found"
		return
	}
	last := "none of its paths returns"
	in := newInterp(p, &Hooks{oblige: func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, _ string) {
		if !ok {
			last = kind + " at " + p.pos(at.Pos())
		}
	}})
	in.ff = p.fieldFacts()
	in.maxStep = 400000
	in.deadline = time.Now().Add(10 * time.Second)
	in.modular = true
	in.exactCap = 80
	in.exact = 16
	in.tightCap = true
	defer func() {
		r.steps = in.steps
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				r.gaveUp = g.why
				return
			}
			if os.Getenv("AI_PANIC") != "" {
				panic(e)
			}
			r.gaveUp = fmt.Sprint(e)
			return
		}
		if r.gaveUp == "" && len(r.lines)+len(r.again) == 0 {
			r.died = last
		}
	}()
	st := newState(in)
	T := deref(fn.Params[0].Type())
	r.msg = c.value(in, st, T, "")
	var recv Val = r.msg
	if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		st.setObj(&Obj{id: "message", T: T, kind: 'v', v: r.msg, site: "the message"})
		recv = Ptr{N: nonNil, Locs: []Loc{{obj: "message"}}}
	}
	ST := fn.Params[1].Type()
	var sess Val = st.zero(ST)
	if c.old {
		dc := decCase{}
		for i := 0; i < 40; i++ {
			dc.lines = append(dc.lines, decLine{typ: 'a', val: "old"})
		}
		sv, _ := in.sessionOf(st, ST, dc)
		x := sv.(Slice)
		x.Len = K(0)
		sess = x
	}
	if c.perm != nil {
		st.setGhost("message", recv)
	}
	linesOf := func(o outcome) (ls []encLine, ok bool) {
		if o.panicked || len(o.vals) == 0 {
			return nil, false
		}
		s, is := o.vals[0].(Slice)
		if !is || !s.Len.isK() || len(s.Objs) != 1 || o.st.inexact {
			r.gaveUp = "the lines of the session are not known"
			return nil, false
		}
		ob := o.st.objOf(s.Objs[0])
		for i := int64(0); i < s.Len.c; i++ {
			l, ok := encLineOf(o.st, ST, o.st.expandAll(o.st.readElem(ob, s.Off.addK(i))))
			if !ok {
				r.gaveUp = "a line of the session is not known"
				break
			}
			ls = append(ls, l)
		}
		return ls, true
	}
	in.push(st, fn, []Val{recv, sess}, nil, "root:encode")
	for _, o := range in.runFn(st) {
		ls, ok := linesOf(o)
		if !ok {
			continue
		}
		if c.perm == nil {
			r.lines = append(r.lines, ls)
			r.st = append(r.st, o.st)
			continue
		}
		// once more, the maps in another order
		st := o.st
		for _, id := range sortedObjs(st.heap) {
			ob := st.heap[id]
			if ob.kind != 'm' || ob.mp == nil || len(ob.mp.ents) != len(c.perm) {
				continue
			}
			no := *ob
			mp := *ob.mp
			mp.ents = nil
			for i := range c.perm { // walked backwards below
				mp.ents = append(mp.ents, ob.mp.ents[c.perm[len(c.perm)-1-i]])
			}
			no.mp = &mp
			st.setObj(&no)
		}
		sess := st.zero(ST)
		if c.into {
			x := o.vals[0].(Slice)
			x.Len = K(0)
			sess = x
		}
		in.push(st, fn, []Val{st.ghost["message"], sess}, nil, "root:again")
		in.mapsBack = true
		again := in.runFn(st)
		in.mapsBack = false
		for _, o2 := range again {
			if l2, ok := linesOf(o2); ok {
				r.first = append(r.first, ls)
				r.again = append(r.again, l2)
				r.st = append(r.st, o2.st)
			}
		}
	}
	return
}

// encLineOf takes the type and the text of a line.
func encLineOf(st *State, ST types.Type, v Val) (l encLine, ok bool) {
	u, ok := ST.Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	s, ok2 := v.(Struct)
	if !ok || !ok2 {
		return l, false
	}
	for k := 0; k < u.NumFields(); k++ {
		switch x := st.expandAll(s.F[k]).(type) {
		case Int:
			l.typ = x.L
		case Slice:
			l.txt = st.in.text(st, x)
		}
	}
	return l, l.txt != nil
}

// ---------------------------------------------------------------- what is expected

// encPiece: a sub-field of a line. path "" stands for anything.
type encPiece struct {
	path string
	kind byte // s text, n number, d duration, x only what it depends on
	sep  string
}

type encWant struct {
	typ    rune
	pieces []encPiece
}

// wants lists the lines the message has to be encoded to.
func (c *encCase) wants() (ws []encWant) {
	line := func(t rune, ps ...encPiece) { ws = append(ws, encWant{t, ps}) }
	pc := func(kind byte, path, sep string) encPiece { return encPiece{path, kind, sep} }
	conn := func(pre string) {
		p := pre + "Connection"
		if !c.on(p) {
			return
		}
		ps := []encPiece{pc('s', p+".NetworkType", ""), pc('s', p+".AddressType", " "), pc('x', p+".IP", " ")}
		if c.on(p+".TTL") || c.on(p+".Addresses") && !c.v6 {
			ps = append(ps, pc('n', p+".TTL", "/"))
		}
		if c.on(p + ".Addresses") {
			ps = append(ps, pc('n', p+".Addresses", "/"))
		}
		line('c', ps...)
	}
	text := func(t rune, path string) {
		if c.on(path) {
			line(t, pc('s', path, ""))
		}
	}
	bw := func(pre string) {
		if p := pre + "Bandwidths"; c.on(p) {
			line('b', pc('s', p+".key", ""), pc('n', p+".value", ":"))
		}
	}
	key := func(pre string) {
		p := pre + "Encryption"
		switch {
		case !c.on(p):
		case c.on(p + ".Key"):
			line('k', pc('s', p+".Method", ""), pc('s', p+".Key", ":"))
		default:
			line('k', pc('s', p+".Method", ""))
		}
	}
	attr := func(pre string) {
		p := pre + "Attributes"
		if !c.on(p) {
			return
		}
		for i := 0; i < encLists; i++ {
			if v := fmt.Sprintf("%s.value[%d]", p, i); c.on(v) {
				line('a', pc('s', p+".key", ""), pc('s', v, ":"))
			} else {
				line('a', pc('s', p+".key", ""))
			}
		}
	}
	line('v', pc('n', "Version", ""))
	line('o', pc('s', "Origin.Username", ""), pc('n', "Origin.SessionID", " "), pc('n', "Origin.SessionVersion", " "), pc('s', "Origin.NetworkType", " "), pc('s', "Origin.AddressType", " "), pc('s', "Origin.Address", " "))
	line('s', pc('s', "Name", ""))
	text('i', "Info")
	text('u', "URI")
	text('e', "Email")
	text('p', "Phone")
	conn("")
	bw("")
	for i := 0; i < encLists && c.on("Timing"); i++ {
		p := fmt.Sprintf("Timing[%d].", i)
		line('t', pc('x', p+"Start", ""), pc('x', p+"End", " "))
		if c.on(p + "Offsets") {
			ps := []encPiece{pc('d', p+"Repeat", ""), pc('d', p+"Active", " ")}
			for k := 0; k < encLists; k++ {
				ps = append(ps, pc('d', fmt.Sprintf("%sOffsets[%d]", p, k), " "))
			}
			line('r', ps...)
		}
	}
	if c.on("TZAdjustments") {
		var ps []encPiece
		for i := 0; i < encLists; i++ {
			sep := " "
			if i == 0 {
				sep = ""
			}
			ps = append(ps, pc('x', fmt.Sprintf("TZAdjustments[%d].Start", i), sep), pc('d', fmt.Sprintf("TZAdjustments[%d].Offset", i), " "))
		}
		line('z', ps...)
	}
	key("")
	attr("")
	for i := 0; i < encLists && c.on("Medias"); i++ {
		p := fmt.Sprintf("Medias[%d].", i)
		d := p + "Description."
		ps := []encPiece{pc('s', d+"Type", ""), pc('n', d+"Port", " ")}
		if c.on(d + "PortsNumber") {
			ps = append(ps, pc('n', d+"PortsNumber", "/"))
		}
		line('m', append(ps, pc('s', d+"Protocol", " "), pc('s', d+"Format", " "))...)
		text('i', p+"Title")
		conn(p)
		bw(p)
		key(p)
		attr(p)
	}
	for i := range ws {
		for k := range ws[i].pieces {
			if x := &ws[i].pieces[k]; !c.on(x.path) {
				x.path = ""
			}
		}
	}
	return
}

func encCases() (cs []encCase) {
	// without: everything but the parts that begin with one of these
	without := func(ps ...string) func(string) bool {
		return func(path string) bool {
			for _, p := range ps {
				if path == p || strings.HasPrefix(path, p+".") || strings.HasPrefix(path, p+"[") {
					return false
				}
			}
			return true
		}
	}
	only := func(ps ...string) func(string) bool {
		return func(path string) bool {
			if path == "" {
				return true
			}
			for _, p := range ps {
				if path == p || strings.HasPrefix(path, p+".") || strings.HasPrefix(path, p+"[") || strings.HasPrefix(p, path+".") || strings.HasPrefix(p, path+"[") {
					return true
				}
			}
			return false
		}
	}
	add := func(name string, on func(string) bool) { cs = append(cs, encCase{name: name, on: on, unit: 3600e9}) }
	for _, u := range []struct {
		n string
		d int64
	}{{"days", 86400e9}, {"hours", 3600e9}, {"minutes", 60e9}, {"seconds", 1e9}} {
		cs = append(cs, encCase{name: "all parts, durations in " + u.n, on: without(), unit: u.d})
	}
	cs = append(cs, encCase{name: "all parts, small numbers", on: without(), unit: 3600e9, lo: 1, hi: 9})
	cs = append(cs, encCase{name: "all parts, large numbers", on: without(), unit: 86400e9, lo: 100, hi: 250})
	add("nothing set", only())
	parts := []string{"Version", "Origin", "Name", "Info", "URI", "Email", "Phone", "Connection", "Bandwidths", "Timing", "TZAdjustments", "Encryption", "Attributes", "Medias"}
	for _, p := range parts {
		add("only "+p, only(p))
		add("all but "+p, without(p))
	}
	for _, p := range []string{"Title", "Connection", "Bandwidths", "Encryption", "Attributes"} {
		add("only "+p+" of the first media", only("Medias[0]."+p, "Medias[0].Description", "Medias[1].Description"))
		add("only "+p+" of the second media", only("Medias[1]."+p, "Medias[0].Description", "Medias[1].Description"))
		add("all but "+p+" of the first media", without("Medias[0]."+p))
	}
	add("no key", without("Encryption.Key", "Medias[0].Encryption.Key"))
	add("no repetitions", without("Timing[0].Offsets", "Timing[0].Repeat", "Timing[0].Active"))
	add("no repetitions of the second", without("Timing[1].Offsets", "Timing[1].Repeat", "Timing[1].Active"))
	add("no TTL", without("Connection.TTL", "Medias[0].Connection.TTL"))
	add("no address count", without("Connection.Addresses", "Medias[0].Connection.Addresses"))
	add("no address count and TTL", without("Connection.Addresses", "Connection.TTL", "Medias[0].Connection.Addresses", "Medias[0].Connection.TTL"))
	add("no ports number", without("Medias[0].Description.PortsNumber"))
	add("one flag", without("Attributes.value[0]", "Medias[0].Attributes.value[1]"))
	add("session and media titles differ", without("Info", "Medias[1].Title"))
	cs = append(cs, encCase{name: "IPv6, no TTL", on: without("Connection.TTL", "Medias[0].Connection.TTL", "Medias[1].Connection.TTL"), unit: 3600e9, v6: true})
	cs = append(cs, encCase{name: "IPv6, no TTL and address count", on: without("Connection.TTL", "Connection.Addresses", "Medias[0].Connection.TTL", "Medias[1].Connection.TTL"), unit: 3600e9, v6: true})
	cs = append(cs, encCase{name: "all parts, into a used session", on: without(), unit: 3600e9, old: true})
	return
}

// ---------------------------------------------------------------- comparison

type encAtom struct {
	c    byte // a known byte, or 0
	b    *Lin // an unknown byte
	t    *Term
	deps []string
}

func encAtoms(st *State, t *Term) (as []encAtom) {
	if k, ok := constText(st, t); ok {
		for i := 0; i < len(k); i++ {
			as = append(as, encAtom{c: k[i]})
		}
		return
	}
	if t.op == "cat" {
		for _, x := range t.args {
			as = append(as, encAtoms(st, x)...)
		}
		return
	}
	if t.n.isK() && t.n.c >= 0 && t.n.c <= 64 {
		for i := int64(0); i < t.n.c; i++ {
			b := st.readByte(t, K(i))
			if b.isK() {
				as = append(as, encAtom{c: byte(b.c)})
			} else {
				as = append(as, encAtom{b: &b, deps: unionDeps(linDeps(b), nil)})
			}
		}
		return
	}
	deps := t.deps
	if t.op == "int" {
		for _, l := range t.lins {
			deps = unionDeps(deps, linDeps(l))
		}
	}
	return append(as, encAtom{t: t, deps: deps})
}

// pieceOf compares a sub-field: 1 it is what it should be, 0 it is not, -1 not known.
func (c *encCase) pieceOf(st *State, w encPiece, as []encAtom) (int, string) {
	if w.path == "" {
		return 1, ""
	}
	var deps []string
	bytes := true
	for _, a := range as {
		deps = unionDeps(deps, a.deps)
		if a.t != nil {
			bytes = false
		}
	}
	for _, d := range deps {
		if d != w.path {
			return 0, "is made from " + d
		}
	}
	if len(deps) == 0 {
		return 0, "does not contain it"
	}
	switch w.kind {
	case 's':
		if !bytes {
			return -1, "may be another text"
		}
		for i, a := range as {
			if i >= 7 || a.b == nil || st.eval(cEQ(a.b.sub(LS(keyedSym(fmt.Sprintf("%s.%d", w.path, i), 33, 126))))) != 1 {
				return 0, "is not that text"
			}
		}
		if len(as) != 7 {
			return 0, "is only a part of that text"
		}
	case 'n', 'd':
		unit := int64(1)
		hi := int64(59)
		if c.hi != 0 {
			hi = c.hi
		} else if w.kind == 'd' {
			hi = 19
		}
		v := keyedSym(fmt.Sprintf("enc:%s:%d", w.path, hi), 0, 1)
		if w.kind == 'd' {
			unit = 1e9
			if n := len(as); n > 0 && as[n-1].c != 0 {
				if u, ok := unitOf[as[n-1].c]; ok && as[n-1].c != '9' {
					unit = u
					as = as[:n-1]
				}
			}
		}
		got := K(0)
		if len(as) == 1 && as[0].t != nil && as[0].t.op == "int" && len(as[0].t.lins) > 0 {
			got = as[0].t.lins[0]
		} else if !bytes || len(as) > 4 {
			return -1, "may be another number"
		} else {
			for _, a := range as {
				x := K(int64(a.c))
				if a.b != nil {
					x = *a.b
				}
				got = got.scale(10).add(x.addK(-'0'))
			}
		}
		want := LS(v)
		if w.kind == 'd' {
			want = want.scale(c.unit)
		}
		return st.eval(cEQ(got.scale(unit).sub(want))), "may be another number"
	}
	return 1, ""
}

// split cuts a line at the separators of its sub-fields.
func (w *encWant) split(as []encAtom) (out [][]encAtom, ok bool) {
	for k := range w.pieces {
		if k+1 == len(w.pieces) {
			return append(out, as), true
		}
		sep := w.pieces[k+1].sep[0]
		i := 0
		for i < len(as) && as[i].c != sep {
			i++
		}
		if i == len(as) {
			return out, false
		}
		out = append(out, as[:i])
		as = as[i+1:]
	}
	return out, len(as) == 0
}

func (p *Prog) encodings() []*encRun {
	if p.sdpEnc == nil {
		for _, c := range encCases() {
			p.sdpEnc = append(p.sdpEnc, followEncode(p, c))
		}
	}
	return p.sdpEnc
}

func checkEncoded(p *Prog, r *Result, order bool) {
	fn := p.encoderFn()
	if fn == nil {
		r.report("undecided", "sdp", "-", "Message.Append not found")
		return
	}
	pos := p.pos(fn.Pos())
	paths, lines, steps := 0, 0, 0
	for _, run := range p.encodings() {
		steps += run.steps
		if run.gaveUp != "" {
			r.report("undecided", run.c.name, pos, "encoding a message (%s): %s", run.c.name, run.gaveUp)
		}
		if run.died != "" && order {
			r.report("encoding-fails", "Message.Append", pos, "a message cannot be encoded (%s): %s", run.c.name, run.died)
		}
		ws := run.c.wants()
		var want []string
		for _, w := range ws {
			want = append(want, string(w.typ))
		}
		for i, ls := range run.lines {
			paths++
			lines += len(ls)
			st := run.st[i]
			var got []string
			for _, l := range ls {
				switch {
				case l.typ.isK():
					got = append(got, string(rune(l.typ.c)))
				default:
					got = append(got, "?")
				}
			}
			r.obligations++
			if g, w := strings.Join(got, ""), strings.Join(want, ""); g != w {
				if strings.Contains(g, "?") {
					r.report("undecided", run.c.name, pos, "encoding a message (%s): a line of unknown type is made", run.c.name)
				} else if order {
					r.report("other-lines", "Message.Append", pos, "encoding a message (%s) makes the lines %s, not %s", run.c.name, g, w)
				} else if missing := lacks(want, got); missing != "" {
					r.report("field-not-written", "Message.Append", pos, "encoding a message (%s) makes no %s= line for a part that is set: %s, not %s", run.c.name, missing, g, w)
				}
				continue
			}
			if order {
				continue
			}
			for k, w := range ws {
				r.obligations++
				ps, ok := w.split(encAtoms(st, ls[k].txt))
				where := fmt.Sprintf("%c= line", w.typ)
				if !ok {
					r.report("sub-field-lost", where, pos, "encoding a message (%s): the %c= line has %d sub-fields, not %d: %s", run.c.name, w.typ, len(ps)+1, len(w.pieces), ls[k].txt)
					continue
				}
				for j, x := range w.pieces {
					r.obligations++
					switch v, why := run.c.pieceOf(st, x, ps[j]); v {
					case 0:
						r.report("other-sub-field", where+" "+x.path, pos, "encoding a message (%s): sub-field %d of the %c= line is not %s: it %s", run.c.name, j, w.typ, x.path, why)
					case -1:
						r.report("undecided", where+" "+x.path, pos, "encoding a message (%s): sub-field %d of the %c= line %s", run.c.name, j, w.typ, why)
					}
				}
			}
		}
	}
	r.coverage["encoder_runs"] = len(p.encodings())
	r.coverage["encoder_paths"] = paths
	r.coverage["encoded_lines"] = lines
	r.coverage["encoder_steps"] = steps
	r.require("encoded lines", lines, 300)
}

// lacks names a line type of which fewer were made than wanted.
func lacks(want, got []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	for _, g := range got {
		n[g]--
	}
	for _, w := range want {
		if n[w] > 0 {
			return w
		}
	}
	return ""
}

func init() {
	checks["S08"] = func(p *Prog, r *Result) {
		r.explanation = "Message.Append is followed, every path on its own, on messages of which each part is set to an arbitrary value or left blank (everything, nothing, each part alone, each part missing, two time descriptions, two media): the types of the lines made must be exactly those of the parts that are set, in the order of the standard, and v, o and s always."
		checkEncoded(p, r, true)
	}
	checks["S09"] = func(p *Prog, r *Result) {
		checkStored(p, r, false)
		checkEncoded(p, r, false)
		r.explanation = decExpl + "On every accepting path every part of the message must come from the sub-field of the line the format gives it. Then Message.Append is followed, every path on its own, on messages whose parts are arbitrary: every sub-field of every line made must be exactly the part of the message that the decoder restores from there, and every part that is set must be written."
	}
}

func debugEnc(p *Prog) {
	for _, c := range encCases() {
		if x := os.Getenv("CASE"); x != "" && !strings.Contains(c.name, x) {
			continue
		}
		r := followEncode(p, c)
		fmt.Printf("%s: %d paths, %d steps %s\n", c.name, len(r.lines), r.steps, r.gaveUp)
		for _, ls := range r.lines {
			for _, l := range ls {
				fmt.Printf("   %s %s\n", l.typ, l.txt)
			}
			fmt.Println()
		}
	}
	sort.Strings(nil)
}
