package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The media model interprets the path of one received packet - from the bytes
// delivered by the connection to the data callback - for every codec, every
// packet kind and every length, over a parser that already holds any amount
// of an unfinished frame. What is delivered and what stays pending is compared
// with what the payload formats (RFC 6184, RFC 7798) prescribe. M01, M02, M03,
// M04 and parts of T02, R12, R14 and R15 are rules over these runs.

// ---------------------------------------------------------------- content

// span is a part of the content of a text: bytes [lo,hi) of src, or one byte.
type span struct {
	src    *Term // nil: single byte b
	lo, hi Lin
	b      Lin
}

func (s span) String() string {
	if s.src == nil {
		return "{" + s.b.String() + "}"
	}
	return fmt.Sprintf("%s[%s:%s]", s.src, s.lo, s.hi)
}

func showSpans(ss []span) string {
	var o []string
	for _, s := range ss {
		o = append(o, s.String())
	}
	return strings.Join(o, " ")
}

// spans takes bytes [lo,hi) of t apart. ok is false if the cuts of a
// concatenation cannot be placed.
func spans(st *State, t *Term, lo, hi Lin) (out []span, ok bool) {
	if st.poly.entailsEq(lo, hi) {
		return nil, true
	}
	switch t.op {
	case "sub":
		return spans(st, t.args[0], t.lins[0].add(lo), t.lins[0].add(hi))
	case "const":
		if lo.isK() && hi.isK() && hi.c-lo.c <= 64 && lo.c >= 0 && hi.c <= int64(len(t.s)) {
			for i := lo.c; i < hi.c; i++ {
				out = append(out, span{b: K(int64(t.s[i]))})
			}
			return out, true
		}
	case "fn":
		if t.s == "byte" {
			return []span{{b: t.lins[0]}}, true
		}
	case "cat":
		pos := K(0)
		for _, a := range t.args {
			end := pos.add(a.n)
			if st.poly.entails(lo.sub(end)) { // piece lies before
				pos = end
				continue
			}
			if st.poly.entails(pos.sub(hi)) { // piece lies behind
				break
			}
			l, h := K(0), a.n
			if !st.poly.entails(pos.sub(lo)) {
				if !st.poly.entails(lo.sub(pos)) {
					return nil, false
				}
				l = lo.sub(pos)
			}
			if !st.poly.entails(hi.sub(end)) {
				if !st.poly.entails(end.sub(hi)) {
					return nil, false
				}
				h = hi.sub(pos)
			}
			x, k := spans(st, a, l, h)
			if !k {
				return nil, false
			}
			out = append(out, x...)
			pos = end
		}
		return out, true
	}
	return []span{{src: t, lo: lo, hi: hi}}, true
}

func opaqueSrc(t *Term) bool {
	return t.op != "sym" || strings.ContainsRune(t.s, '\'') || strings.HasPrefix(t.s, "havoc")
}

// sameSpans: 1 equal, 0 different, -1 not known.
func sameSpans(st *State, a, b []span) (int, string) {
	a, b = append([]span(nil), a...), append([]span(nil), b...)
	empty := func(s span) bool { return s.src != nil && st.poly.entailsEq(s.lo, s.hi) }
	for n := 0; n < 400; n++ {
		for len(a) > 0 && empty(a[0]) {
			a = a[1:]
		}
		for len(b) > 0 && empty(b[0]) {
			b = b[1:]
		}
		if len(a) == 0 && len(b) == 0 {
			return 1, ""
		}
		if len(a) == 0 || len(b) == 0 {
			r := a
			if len(a) == 0 {
				r = b
			}
			// the rest may all be empty in this state
			return 0, "one side goes on with " + showSpans(r)
		}
		x, y := a[0], b[0]
		switch {
		case x.src == nil && y.src == nil:
			if !st.poly.entailsEq(x.b, y.b) {
				return 0, x.String() + " instead of " + y.String()
			}
			a, b = a[1:], b[1:]
		case x.src == nil || y.src == nil:
			s, by := x, y
			if x.src == nil {
				s, by = y, x
			}
			if !st.poly.entails(s.hi.sub(s.lo).addK(-1)) {
				return -1, "perhaps empty " + s.String()
			}
			if opaqueSrc(s.src) {
				return -1, "unknown content " + s.String()
			}
			if !st.poly.entailsEq(st.byteAt(s.src, s.lo), by.b) {
				return 0, x.String() + " instead of " + y.String()
			}
			s.lo = s.lo.addK(1)
			if x.src == nil {
				a = a[1:]
				b[0] = s
			} else {
				b = b[1:]
				a[0] = s
			}
		default:
			if x.src != y.src {
				if opaqueSrc(x.src) || opaqueSrc(y.src) {
					return -1, "unknown content " + x.String()
				}
				return 0, x.String() + " instead of " + y.String()
			}
			if !st.poly.entailsEq(x.lo, y.lo) {
				return 0, x.String() + " instead of " + y.String()
			}
			switch {
			case st.poly.entailsEq(x.hi, y.hi):
				a, b = a[1:], b[1:]
			case st.poly.entails(y.hi.sub(x.hi)):
				y.lo = x.hi
				a = a[1:]
				b[0] = y
			case st.poly.entails(x.hi.sub(y.hi)):
				x.lo = y.hi
				b = b[1:]
				a[0] = x
			default:
				return 0, x.String() + " instead of " + y.String()
			}
		}
	}
	return -1, "too long"
}

// compareContent compares the text t with the expected spans.
func compareContent(st *State, t *Term, want []span) (int, string) {
	got, ok := spans(st, t, K(0), t.n)
	if !ok {
		return -1, "content not known: " + t.String()
	}
	r, why := sameSpans(st, got, want)
	if r != 1 {
		why += " (got " + showSpans(got) + ", expected " + showSpans(want) + ")"
	}
	return r, why
}

// ---------------------------------------------------------------- the model

type mediaModel struct {
	p        *Prog
	found    map[string][]Found
	undec    map[string]bool
	runs     int
	steps    int
	delivers int
	exits    int
	obl      map[string]bool
	badObl   map[string]string
	samples  []string
	kinds    map[string]int
	parserT  types.Type
	dataT    types.Type
	ctor     *ssa.Function
	root     *ssa.Function
	max      int64
	loops    int
	raws     int
	undecR12 []string
	fns      map[*ssa.Function]bool
	cur      *mcase
	before   map[ObjID]bool // objects that were there before the packet
	msgObj   ObjID
	bufObj   ObjID
}

var theMedia *mediaModel

type mcase struct {
	codec string // as given in the description
	std   string // h264 h265 mark other
	typ   int64  // unit type, -1: none
	start int    // fragment bits, -1: not one
	end   int
	n     int64  // payload length, or
	more  bool   // at least n
	raw   string // only that nothing panics
	unreg int    // the only parser is registered for a smaller (-1) or greater (1) channel number
	name  string
}

func (m *mediaModel) add(prop, rule, where string, pos token.Pos, format string, a ...any) {
	for _, f := range m.found[prop] {
		if f.rule == rule && f.where == where {
			return
		}
	}
	m.found[prop] = append(m.found[prop], Found{rule: rule, where: where, pos: pos, msg: fmt.Sprintf(format, a...)})
}

func mediaOf(p *Prog) *mediaModel {
	if theMedia != nil {
		return theMedia
	}
	m := &mediaModel{p: p, found: map[string][]Found{}, undec: map[string]bool{}, obl: map[string]bool{}, badObl: map[string]string{}, kinds: map[string]int{}, fns: map[*ssa.Function]bool{}}
	theMedia = m
	m.parserT = p.typeOf(modPath, "RtpParser")
	m.dataT = p.typeOf(modPath, "RtspData")
	if m.parserT == nil || m.dataT == nil {
		m.undec["the types RtpParser and RtspData were not found"] = true
		return m
	}
	for _, f := range p.funcs {
		res := f.Signature.Results()
		if f.Parent() == nil && f.Signature.Recv() == nil && res.Len() == 1 && types.Identical(deref2(res.At(0).Type()), m.parserT) && pkgOf(f) == modPath {
			m.ctor = f
		}
	}
	m.root = m.findRoot()
	if m.ctor == nil || m.root == nil {
		m.undec["the constructor of RtpParser or the packet dispatch was not found"] = true
		return m
	}
	m.max = 0
	only := os.Getenv("MEDIA_CASE")
	for _, c := range m.cases() {
		if only != "" && !strings.Contains(c.name, only) {
			continue
		}
		m.run(c)
	}
	return m
}

// findRoot: the outermost function under HandleConn that is given the bytes
// of a message and leads to the payload parsers.
func (m *mediaModel) findRoot() *ssa.Function {
	var start *ssa.Function
	sess := m.p.typeOf(modPath, "RtspClientSession")
	for _, f := range m.p.apiRoots() {
		if r := f.Signature.Recv(); r != nil && sess != nil && types.Identical(deref2(r.Type()), sess) && f.Name() == "HandleConn" {
			start = f
		}
	}
	if start == nil {
		return nil
	}
	leads := func(f *ssa.Function) bool {
		for g := range m.p.reachable([]*ssa.Function{f}) {
			if g.Name() == "SplitHeader" {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{start: true}
	q := []*ssa.Function{start}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, pr := range f.Params {
			if s, ok := pr.Type().Underlying().(*types.Slice); ok && isByteType(s.Elem()) && leads(f) {
				return f
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range m.p.callees(in) {
					if !seen[g] && g.Blocks != nil && m.p.inModule(g) {
						seen[g] = true
						q = append(q, g)
					}
				}
			}
		}
	}
	return nil
}

func (m *mediaModel) cases() []*mcase {
	var out []*mcase
	add := func(c mcase) {
		l := fmt.Sprintf("%d bytes", c.n)
		if c.more {
			l = "at least " + l
		}
		c.name = fmt.Sprintf("%s type %d start %d end %d, payload of %s", c.codec, c.typ, c.start, c.end, l)
		if c.unreg != 0 {
			c.name = fmt.Sprintf("packet on an unregistered channel (%+d)", c.unreg)
		}
		x := c
		out = append(out, &x)
	}
	lens := func(c mcase, from, to int64) {
		for n := from; n < to; n++ {
			c.n, c.more = n, false
			add(c)
		}
		c.n, c.more = to, true
		add(c)
	}
	for _, cd := range []string{"H264", "H265", "HEVC", "bbw", "*"} {
		c := mcase{codec: cd, typ: -1, start: -1, end: -1}
		switch cd {
		case "H264":
			c.std = "h264"
			c.n = 0
			add(c)
			for t := int64(0); t < 32; t++ {
				c.typ, c.start, c.end = t, -1, -1
				if t == 28 || t == 29 {
					c.n, c.more = 1, false
					add(c)
					for k := 0; k < 4; k++ {
						c.start, c.end = k&1, k>>1
						lens(c, 2, 3)
					}
					continue
				}
				if t >= 24 && t <= 27 {
					// so many lengths that every header is whole or cut
					lens(c, 1, 9)
					continue
				}
				lens(c, 1, 1)
			}
		case "H265", "HEVC":
			c.std = "h265"
			c.n = 0
			add(c)
			c.n = 1
			add(c)
			for t := int64(0); t < 64; t++ {
				if cd == "HEVC" && t > 1 && t < 47 {
					continue
				}
				c.typ, c.start, c.end = t, -1, -1
				if t == 49 {
					c.n, c.more = 2, false
					add(c)
					for k := 0; k < 4; k++ {
						c.start, c.end = k&1, k>>1
						lens(c, 3, 4)
					}
					continue
				}
				if t == 48 {
					lens(c, 2, 6)
					continue
				}
				lens(c, 2, 2)
			}
		case "bbw":
			c.std = "mark"
			for c.end = 0; c.end < 2; c.end++ {
				lens(c, 0, 1)
			}
		default:
			c.std = "other"
			for _, raw := range []string{"short", "text", "unheard"} {
				out = append(out, &mcase{codec: c.codec, std: "other", raw: raw, name: "a message that is " + map[string]string{"short": "shorter than the headers of a packet", "text": "not an interleaved packet", "unheard": "a packet nobody may be listening to"}[raw]})
			}
			lens(c, 0, 1)
			c.more, c.n = true, 0
			c.unreg = -1
			add(c)
			c.unreg = 1
			add(c)
		}
	}
	return out
}

// expectation of a case, over the packet text.
type mexp struct {
	contrib  []span
	complete int // 1 0, -1: either
	either   bool
	// aggregation: units start at base, with a header of hs bytes in front of each
	agg  bool
	base int64
	hs   int64
}

const rtpOff = 16 // interleaved header and RTP header

func (m *mediaModel) expect(c *mcase, st *State, pkt *Term, n Lin, bit func(off int64, i int) Lin) mexp {
	rest := func(from int64) span { return span{src: pkt, lo: K(from), hi: n} }
	by := func(bits ...Lin) Lin { return fromBits(bits) } // lowest first
	switch c.std {
	case "h264":
		switch {
		case c.typ < 0:
			return mexp{complete: -1, either: true}
		case c.typ == 24:
			return mexp{agg: true, base: rtpOff + 1, hs: 2, complete: 1}
		case c.typ == 25:
			return mexp{agg: true, base: rtpOff + 3, hs: 2, complete: 1}
		case c.typ == 26:
			return mexp{agg: true, base: rtpOff + 3, hs: 5, complete: 1}
		case c.typ == 27:
			return mexp{agg: true, base: rtpOff + 3, hs: 6, complete: 1}
		case c.typ == 28 || c.typ == 29:
			if c.start < 0 { // no fragment header
				return mexp{complete: 0, either: true, contrib: []span{rest(rtpOff)}}
			}
			e := mexp{complete: c.end}
			if c.start == 1 {
				h := by(bit(rtpOff+1, 0), bit(rtpOff+1, 1), bit(rtpOff+1, 2), bit(rtpOff+1, 3), bit(rtpOff+1, 4), bit(rtpOff, 5), bit(rtpOff, 6), bit(rtpOff, 7))
				e.contrib = append(e.contrib, span{b: h})
			}
			e.contrib = append(e.contrib, rest(rtpOff+2))
			return e
		}
		return mexp{complete: 1, contrib: []span{rest(rtpOff)}}
	case "h265":
		switch {
		case c.typ < 0:
			return mexp{complete: -1, either: true, contrib: []span{rest(rtpOff)}}
		case c.typ == 48:
			return mexp{agg: true, base: rtpOff + 2, hs: 2, complete: 1}
		case c.typ == 49:
			if c.start < 0 {
				return mexp{complete: 0, either: true, contrib: []span{rest(rtpOff)}}
			}
			e := mexp{complete: c.end}
			if c.start == 1 {
				h := by(bit(rtpOff, 0), bit(rtpOff+2, 0), bit(rtpOff+2, 1), bit(rtpOff+2, 2), bit(rtpOff+2, 3), bit(rtpOff+2, 4), bit(rtpOff+2, 5), bit(rtpOff, 7))
				e.contrib = append(e.contrib, span{b: h}, span{src: pkt, lo: K(rtpOff + 1), hi: K(rtpOff + 2)})
			}
			e.contrib = append(e.contrib, rest(rtpOff+3))
			return e
		}
		return mexp{complete: 1, contrib: []span{rest(rtpOff)}}
	case "mark":
		return mexp{complete: c.end, contrib: []span{rest(rtpOff)}}
	}
	return mexp{complete: 1, contrib: []span{rest(rtpOff)}}
}

// joined: l stands for several values brought together by the analysis.
func joined(l Lin) bool {
	for _, t := range l.t {
		if n := t.s.info().name; n == "j" || strings.HasPrefix(n, "pos?") {
			return true
		}
		if p := t.s.info().pos; p != nil && joined(*p) {
			return true
		}
	}
	return false
}

func lenOfSpans(ss []span) Lin {
	n := K(0)
	for _, s := range ss {
		if s.src == nil {
			n = n.addK(1)
		} else {
			n = n.add(s.hi.sub(s.lo))
		}
	}
	return n
}

// ---------------------------------------------------------------- running

func (m *mediaModel) run(c *mcase) {
	m.cur = c
	h := &Hooks{}
	in := newInterp(m.p, h)
	in.mergeN = 4
	in.debug = os.Getenv("MEDIA_CASE") != ""
	defer func() {
		m.steps += in.steps
		for f := range in.fnSeen {
			m.fns[f] = true
		}
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				m.undec[c.name+": "+g.why] = true
				return
			}
			if verbose {
				panic(e)
			}
			m.undec[fmt.Sprintf("%s: %v", c.name, e)] = true
		}
	}()
	// the parser as the library makes it
	st := newState(in)
	codec := tConst(c.codec)
	if c.codec == "*" {
		codec = tSym("codec", nil)
	}
	var args []Val
	for _, pr := range m.ctor.Params {
		if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			args = append(args, Str{codec})
		} else {
			args = append(args, st.expand(Opaque{T: pr.Type(), Label: "ctor." + pr.Name()}))
		}
	}
	in.push(st, m.ctor, args, nil, "ctor")
	for _, o := range in.runFn(st) {
		if o.panicked {
			m.add("R12", "panic", fname(m.ctor), m.ctor.Pos(), "making a parser for codec %q panics", c.codec)
			continue
		}
		pp, ok := o.vals[0].(Ptr)
		if !ok || len(pp.Locs) != 1 {
			m.undec[c.name+": the parser is not one object"] = true
			continue
		}
		if c.codec == "*" {
			known := false
			for _, s := range []string{"H264", "H265", "HEVC", "bbw"} {
				if st := o.st; st.eval(st.strCond(codec, tConst(s))) == 1 {
					known = true
				}
			}
			if known {
				continue
			}
		}
		m.packet(in, o.st, pp.Locs[0], c)
	}
}

// fieldLocs calls f for every field of the module's structures reachable
// from v.
func (m *mediaModel) fields(st *State, v Val, T types.Type, depth int, f func(l Loc, T types.Type)) {
	p, ok := v.(Ptr)
	if !ok || depth > 3 {
		return
	}
	et := deref2(T)
	u, ok := et.Underlying().(*types.Struct)
	if !ok || !m.p.isModType(et) || pkgOf2(et) != modPath {
		return
	}
	for _, l := range p.Locs {
		for i := 0; i < u.NumFields(); i++ {
			fl := l.sub(Step{field: i})
			f(fl, u.Field(i).Type())
			if _, isp := u.Field(i).Type().Underlying().(*types.Pointer); isp {
				m.fields(st, st.load(fl, u.Field(i).Type()), u.Field(i).Type(), depth+1, f)
			}
		}
	}
}

// buffer describes the pending data of a parser.
type mbuf struct {
	sl     Slice
	pend   Lin
	pendAt Loc
	bufAt  Loc
	hasInt bool
}

func (m *mediaModel) buffer(st *State, pl Loc) (mbuf, string) {
	u := m.parserT.Underlying().(*types.Struct)
	var b mbuf
	nb, ni := 0, 0
	for i := 0; i < u.NumFields(); i++ {
		l := pl.sub(Step{field: i})
		switch x := u.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if isByteType(x.Elem()) {
				nb++
				b.bufAt = l
				b.sl, _ = st.load(l, u.Field(i).Type()).(Slice)
			}
		case *types.Basic:
			if x.Info()&types.IsInteger != 0 {
				ni++
				b.pendAt = l
				iv, _ := st.load(l, u.Field(i).Type()).(Int)
				b.pend = iv.L
			}
		}
	}
	if nb != 1 || ni != 1 || len(b.sl.Objs) != 1 {
		return b, fmt.Sprintf("the parser keeps its pending data in an unknown way (%d byte slices, %d numbers)", nb, ni)
	}
	return b, ""
}

func (m *mediaModel) packet(in *Interp, st *State, pl Loc, c *mcase) {
	b, why := m.buffer(st, pl)
	if why != "" {
		m.undec[why] = true
		return
	}
	bufObj := st.objOf(b.sl.Objs[0])
	if bufObj == nil || bufObj.input || in.isGlobal(bufObj.id) {
		m.add("M03", "shared-buffer", fname(m.ctor), m.ctor.Pos(), "the reassembly buffer of a new parser is not its own: %s", showVal(b.sl))
		return
	}
	if !b.sl.Cap.isK() || !b.sl.Off.isK() || b.sl.Off.c != 0 {
		m.undec["the size of the reassembly buffer is not a constant"] = true
		return
	}
	max := b.sl.Cap.c
	m.max = max
	// any amount pending
	P := keyedSym("pending", 0, max)
	pend := tSym("pend", nil)
	st.addEQ(pend.n.addK(-max))
	st.addGE(LS(P))
	st.addGE(LS(P).neg().addK(max))
	st.store(b.pendAt, Int{LS(P)}, types.Typ[types.Int])
	{
		o := *st.objOf(b.sl.Objs[0])
		a := o.arr.clone()
		a.ents = nil
		a.segs = []Seg{{K(0), K(max), pend, K(0)}}
		a.def = topByte
		o.arr = a
		st.setObj(&o)
	}
	// other flags are arbitrary
	u := m.parserT.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if x, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && x.Info()&types.IsBoolean != 0 {
			st.store(pl.sub(Step{field: i}), Bool{cAtom("in:parser." + u.Field(i).Name())}, u.Field(i).Type())
		}
	}
	// the message
	pv := st.expand(Opaque{T: types.NewSlice(types.Typ[types.Byte]), Label: "pkt", NN: true}).(Slice)
	po := st.objOf(pv.Objs[0])
	if po == nil || len(po.arr.segs) != 1 {
		m.undec["engine: no packet text"] = true
		return
	}
	pkt := po.arr.segs[0].src
	n := pv.Len
	st.addGE(n.neg().addK(4 + 65535))
	if c.raw == "short" {
		st.addGE(n.neg().addK(rtpOff - 1))
	} else if c.raw == "unheard" {
		st.addGE(n.addK(-(rtpOff + 64)))
	} else if c.raw == "text" {
		st.addGE(n.addK(-1))
	} else if c.more {
		st.addGE(n.addK(-(rtpOff + c.n)))
	} else {
		st.addEQ(n.addK(-(rtpOff + c.n)))
		n = K(rtpOff + c.n)
		pv.Len = n
		o := *po
		a := o.arr.clone()
		a.segs[0].hi = n
		o.arr = a
		st.setObj(&o)
	}
	chn := LS(keyedSym("any channel", 0, 255))
	if c.raw == "" || c.raw == "unheard" {
		st.addEQ(st.byteAt(pkt, K(0)).addK(-'$'))
		chn = st.byteAt(pkt, K(1))
	}
	st.setGhost("chn", Int{chn})
	key := chn
	if c.unreg != 0 {
		key = LS(keyedSym("other channel", 0, 255))
		d := key.sub(chn)
		if c.unreg < 0 {
			d = d.neg()
		}
		st.addGE(d.addK(-1))
	}
	bit := func(off int64, i int) Lin {
		bs, ok := bitsOf(st, st.byteAt(pkt, K(off)))
		if !ok {
			in.fail("bits of %d", off)
		}
		return bitAt(bs, i)
	}
	set := func(off int64, i int, v int64) { st.addEQ(bit(off, i).addK(-v)) }
	tieByte := func(off int64) {
		if !st.poly.entails(n.addK(-off - 1)) {
			return
		}
		v := st.byteAt(pkt, K(off))
		bs, _ := bitsOf(st, v)
		for i, x := range bs {
			st.setGhost(fmt.Sprintf("bit%d.%d", off, i), Int{x})
		}
		st.setGhost(fmt.Sprintf("byte%d", off), Int{v})
		st.addEQ(v.sub(fromBits(bs)))
	}
	for o := int64(rtpOff); o < rtpOff+3 && c.raw == ""; o++ {
		tieByte(o)
	}
	switch c.std {
	case "mark":
		tieByte(5)
		set(5, 7, int64(c.end))
	case "h264":
		if c.typ >= 0 {
			for i := 0; i < 5; i++ {
				set(rtpOff, i, c.typ>>i&1)
			}
			if c.start >= 0 {
				set(rtpOff+1, 7, int64(c.start))
				set(rtpOff+1, 6, int64(c.end))
			}
		}
	case "h265":
		if c.typ >= 0 {
			for i := 0; i < 6; i++ {
				set(rtpOff, i+1, c.typ>>i&1)
			}
			if c.start >= 0 {
				set(rtpOff+2, 7, int64(c.start))
				set(rtpOff+2, 6, int64(c.end))
			}
		}
	}
	if st.poly.bot {
		return
	}
	var e mexp
	if c.raw == "" {
		e = m.expect(c, st, pkt, n, bit)
		m.kinds[c.std]++
	} else {
		m.kinds["raw"]++
	}

	// the receiving side: one parser is registered, for the packet's channel
	mapT := types.NewMap(types.Typ[types.Int], types.NewPointer(m.parserT))
	maps := 0
	var args []Val
	for _, pr := range m.root.Params {
		if s, ok := pr.Type().Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
			args = append(args, pv)
			continue
		}
		v := st.expand(Opaque{T: pr.Type(), Label: "root." + pr.Name(), NN: true})
		args = append(args, v)
		m.fields(st, v, pr.Type(), 0, func(l Loc, T types.Type) {
			switch x := T.Underlying().(type) {
			case *types.Map:
				if !types.Identical(deref2(x.Elem()), m.parserT) {
					return
				}
				maps++
				id := ObjID(fmt.Sprintf("parsers%d", maps))
				st.setObj(&Obj{id: id, T: T, kind: 'm', mp: &MapC{kt: x.Key(), vt: x.Elem(), n: K(1), ents: []MEnt{{Int{key}, Ptr{N: nonNil, Locs: []Loc{pl}}}}}})
				st.store(l, Ptr{N: nonNil, Locs: []Loc{{obj: id}}}, T)
			case *types.Signature:
				if c.raw == "unheard" {
					return
				}
				st.store(l, Func{N: nonNil, Unknown: true, Label: l.key()}, T)
			case *types.Pointer:
				if types.Identical(x.Elem(), m.parserT) {
					st.store(l, Ptr{N: isNil}, T)
				}
			}
		})
	}
	_ = mapT
	if maps == 0 {
		m.undec["no table of parsers by channel was found"] = true
		return
	}
	st.setTag("ndel", "0")
	st.setTag("unit", "")
	st.setTag("ps", "P")
	st.setGhost("P", Int{LS(P)})
	st.setGhost("pos", Int{K(0)})
	st.setGhost("pn", Int{n})

	in.hooks.inline = func(in *Interp, st *State, f *ssa.Function) bool { return true }
	in.hooks.oblige = func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string) {
		k := fmt.Sprintf("%s|%s|%s", kind, m.p.pos(at.Pos()), at)
		m.obl[k] = true
		if !ok {
			if _, have := m.badObl[k]; !have {
				m.badObl[k] = fmt.Sprintf("%s: %s may fail for %s (%s)", m.p.pos(at.Pos()), kind, c.name, detail)
				if st.inexact || imprecise(detail) {
					m.undecR12 = append(m.undecR12, fmt.Sprintf("%s at %s: not proved absent for %s: %s", kind, m.p.pos(at.Pos()), c.name, detail))
					return
				}
				m.add("R12", "panic "+kind, fname(at.Parent())+" "+at.String(), at.Pos(), "%s may fail for %s: %s", kind, c.name, detail)
			}
		}
	}
	in.hooks.write = func(in *Interp, st *State, o *Obj, lo, hi Lin, at ssa.Instruction) {
		if o.flags["delivered"] {
			p := token.NoPos
			w := ""
			if at != nil {
				p, w = at.Pos(), fname(at.Parent())
			}
			m.add("T02", "write-after-delivery", w, p, "a frame is written to after it was delivered (%s)", c.name)
		}
	}
	in.hooks.prePart = func(in *Interp, st *State) {
		if st.objOf(pl.obj) == nil {
			return
		}
		bb, why := m.buffer(st, pl)
		if why != "" {
			return
		}
		switch {
		case st.poly.entailsEq(bb.pend, K(0)):
			st.setTag("ps", "0")
		case st.poly.entailsEq(bb.pend, LS(P)):
			st.setTag("ps", "P")
		default:
			st.setTag("ps", "x")
		}
	}
	in.hooks.call = func(in *Interp, st *State, ev *CallEv) ([]outcome, bool) {
		if ev.fn == nil && ev.unk != nil && len(ev.args) == 1 && types.Identical(deref2(ev.common.Args[0].Type()), m.dataT) {
			m.onData(in, st, ev, c, e, pl, pkt, pend, P, n, max)
			return []outcome{{st: st}}, true
		}
		return nil, false
	}
	in.hooks.loopDone = func(in *Interp, l *Loop, head *State, backs []*State) { m.loops++ }
	if c.raw != "" {
		in.hooks.call = nil
		in.hooks.prePart = nil
		in.push(st, m.root, args, nil, "media")
		m.raws++
		for range in.runFn(st) {
		}
		for _, f := range in.found {
			m.add("R14", f.rule, f.where, f.pos, "%s (%s)", f.msg, c.name)
		}
		return
	}
	m.before, m.msgObj, m.bufObj = map[ObjID]bool{}, pv.Objs[0], b.sl.Objs[0]
	for id := range st.heap {
		m.before[id] = true
	}
	in.push(st, m.root, args, nil, "media")
	m.runs++
	for _, o := range in.runFn(st) {
		m.exits++
		if o.panicked {
			continue
		}
		m.atExit(in, o.st, c, e, pl, pkt, pend, P, n, max)
	}
	for _, f := range in.found {
		m.add("R14", f.rule, f.where, f.pos, "%s (%s)", f.msg, c.name)
	}
}

func (m *mediaModel) where() string { return fname(m.root) }

// onData: a frame is given to the application.
func (m *mediaModel) onData(in *Interp, st *State, ev *CallEv, c *mcase, e mexp, pl Loc, pkt, pend *Term, P Sym, n Lin, max int64) {
	m.delivers++
	if c.unreg != 0 {
		m.add("R15", "unregistered-channel", m.where(), ev.instr.Pos(), "a packet on a channel no stream was set up for is delivered")
		return
	}
	switch st.tag("ndel") {
	case "0":
		st.setTag("ndel", "1")
	case "1":
		st.setTag("ndel", "2")
	default:
		if !e.agg {
			st.setTag("ndel", "3")
		}
	}
	p, ok := ev.args[0].(Ptr)
	if !ok || len(p.Locs) != 1 {
		m.undec["delivered data not known"] = true
		return
	}
	u := m.dataT.Underlying().(*types.Struct)
	var data Slice
	for i := 0; i < u.NumFields(); i++ {
		v := st.load(p.Locs[0].sub(Step{field: i}), u.Field(i).Type())
		switch x := v.(type) {
		case Slice:
			data = x
		case Int:
			if isInt(u.Field(i).Type()) && !st.poly.entailsEq(x.L, ghostInt(st, "chn")) {
				m.add("R15", "delivered-channel", m.where(), ev.instr.Pos(), "a frame of the packet's channel (second header byte) is delivered under channel %s", x.L)
			}
		}
	}
	if len(data.Objs) != 1 {
		if st.isNil(data.N) == triNil || st.poly.entailsEq(data.Len, K(0)) {
			return
		}
		m.undec["delivered memory not known"] = true
		return
	}
	o := st.objOf(data.Objs[0])
	if bb, why := m.buffer(st, pl); why == "" && len(bb.sl.Objs) == 1 && bb.sl.Objs[0] == data.Objs[0] {
		m.add("T02", "buffer-delivered", m.where(), ev.instr.Pos(), "the parser's own buffer is handed to the application (%s)", c.name)
	}
	if o.id != m.msgObj && o.id != m.bufObj && (m.before[o.id] || o.input || in.isGlobal(o.id)) {
		m.add("T02", "kept-memory", m.where(), ev.instr.Pos(), "memory that was there before the packet arrived is handed to the application (%s)", c.name)
	}
	if o.flags["delivered"] && !o.input {
		m.add("T02", "delivered-twice", m.where(), ev.instr.Pos(), "the same memory is handed out twice (%s)", c.name)
	}
	if !o.input {
		st.setObj(o.with("delivered"))
	}
	t := in.sliceTerm(st, data)
	pendS := span{src: pend, lo: K(0), hi: LS(P)}
	if !e.agg {
		// remembered for the end
		st.setGhost("del"+st.tag("ndel"), Str{t})
		return
	}
	pos := ghostInt(st, "pos")
	ps := st.tag("del-ps")
	if ps == "" {
		ps = "P"
	}
	type cand struct {
		name  string
		conds []Cond
		unit  []span
		next  Lin
	}
	at := pos.addK(e.base)
	avail := n.sub(at)
	size := st.byteAt(pkt, at).scale(256).add(st.byteAt(pkt, at.addK(1)))
	cands := []cand{
		{"no room for a unit", []Cond{cGE(avail.neg().addK(e.hs - 1))}, nil, n.addK(-e.base)},
		{"whole unit", []Cond{cGE(avail.addK(-e.hs)), cGE(avail.addK(-e.hs).sub(size))}, []span{{src: pkt, lo: at.addK(e.hs), hi: at.addK(e.hs).add(size)}}, pos.addK(e.hs).add(size)},
		{"cut unit", []Cond{cGE(avail.addK(-e.hs)), cGE(size.sub(avail.addK(-e.hs)).addK(-1))}, []span{{src: pkt, lo: at.addK(e.hs), hi: n}}, n.addK(-e.base)},
	}
	next, many, kind := K(0), 0, ""
	for _, cd := range cands {
		s := st.clone()
		bad := false
		for _, k := range cd.conds {
			if !s.assume(k) {
				bad = true
			}
		}
		if bad || s.poly.bot || s.poly.unsat() {
			continue
		}
		many++
		next = cd.next
		kind = cd.name
		var forms [][]span
		switch ps {
		case "P":
			forms = append(forms, append([]span{pendS}, cd.unit...))
			// no room: what is pending goes first, the unit stays
			if s.poly.entails(LS(P).add(lenOfSpans(cd.unit)).addK(-max - 1)) {
				forms = append(forms, []span{pendS})
			}
		case "0":
			forms = append(forms, cd.unit)
		default:
			// after an overflow: what was kept comes first
			l := lenOfSpans(cd.unit)
			g, k := spans(s, t, t.n.sub(l), t.n)
			if k {
				if r, _ := sameSpans(s, g, cd.unit); r == 1 {
					continue
				}
			}
		}
		best, why := 0, ""
		for _, f := range forms {
			r, w := compareContent(s, t, f)
			if r == 1 {
				best, why = 1, ""
				break
			}
			if r == -1 {
				best = -1
			}
			if why == "" {
				why = w
			}
		}
		switch best {
		case -1:
			m.undec[c.name+": "+why] = true
		case 0:
			if joined(pos) {
				m.undec[c.name+", "+cd.name+": "+why] = true
				break
			}
			m.add("M02", "unit-content", m.where()+" "+c.std, ev.instr.Pos(), "%s, %s: a unit of an aggregation packet is not delivered as it was declared: %s", c.name, cd.name, why)
		}
	}
	if st.tag("ndel") == "1" {
		st.setTag("unit", kind)
	} else {
		st.setTag("unit", "")
	}
	if many != 1 {
		if joined(pos) {
			m.undec[c.name+": whether a unit fits is not known"] = true
		} else {
			m.add("M02", "unit-size", m.where()+" "+c.std, ev.instr.Pos(), "%s: a unit is delivered without regard to whether its declared size fits", c.name)
		}
		next = LS(newSym("pos?", 0, maxLen))
	}
	st.setGhost("pos", Int{next})
	st.setTag("del-ps", "0")
	if bb, why := m.buffer(st, pl); why == "" && !st.poly.entailsEq(bb.pend, K(0)) {
		st.setTag("del-ps", "x")
	}
}

func (m *mediaModel) atExit(in *Interp, st *State, c *mcase, e mexp, pl Loc, pkt, pend *Term, P Sym, n Lin, max int64) {
	bb, why := m.buffer(st, pl)
	if why != "" {
		m.undec[why] = true
		return
	}
	// M04
	if !st.poly.entails(bb.pend) || !st.poly.entails(bb.pend.neg().addK(max)) {
		m.add("M04", "pending-length", m.where(), m.root.Pos(), "%s: the pending length %s is not known to stay between 0 and %d", c.name, bb.pend, max)
		return
	}
	o := st.objOf(bb.sl.Objs[0])
	if o != nil && o.flags["delivered"] {
		m.add("T02", "buffer-delivered", m.where(), m.root.Pos(), "the parser goes on with memory that was handed to the application (%s)", c.name)
	}
	if !st.poly.entailsEq(bb.sl.Cap, K(max)) || o == nil || !st.poly.entailsEq(o.arr.n, K(max)) {
		m.undec[c.name+": the size of the reassembly buffer afterwards is not known"] = true
		return
	}
	nd := st.tag("ndel")
	if c.unreg != 0 {
		if !st.poly.entailsEq(bb.pend, LS(P)) {
			m.add("M03", "other-channel", m.where(), m.root.Pos(), "a packet on another channel changes what is pending on a channel: %s", bb.pend)
		}
		left := in.sliceTerm(st, Slice{N: nonNil, Objs: bb.sl.Objs, Off: bb.sl.Off, Len: bb.pend, Cap: bb.pend})
		if r, why := compareContent(st, left, []span{{src: pend, lo: K(0), hi: LS(P)}}); r == 0 {
			m.add("M03", "other-channel", m.where(), m.root.Pos(), "a packet on another channel changes what is pending on a channel: %s", why)
		} else if r < 0 {
			m.undec[c.name+": "+why] = true
		}
		return
	}
	if e.agg {
		pos := ghostInt(st, "pos")
		at := pos.addK(e.base)
		avail := n.sub(at)
		size := st.byteAt(pkt, at).scale(256).add(st.byteAt(pkt, at.addK(1)))
		s := st.clone()
		if s.assume(cGE(avail.addK(-e.hs))) && s.assume(cGE(avail.addK(-e.hs).sub(size))) && !s.poly.bot && !s.poly.unsat() {
			if joined(pos) {
				m.undec[c.name+": whether a unit remains at the end is not known"] = true
				return
			}
			m.add("M02", "unit-lost", m.where()+" "+c.std, m.root.Pos(), "%s: processing ends although a whole unit remains (at offset %s of %s)", c.name, at, n)
		}
		return
	}
	left := in.sliceTerm(st, Slice{N: nonNil, Objs: bb.sl.Objs, Off: bb.sl.Off, Len: bb.pend, Cap: bb.pend})
	leftS, ok := spans(st, left, K(0), left.n)
	if !ok {
		m.undec[c.name+": pending content not known"] = true
		return
	}
	var got []span
	for i := 1; i <= 3; i++ {
		if t, ok := st.ghost[fmt.Sprintf("del%d", i)].(Str); ok {
			x, k := spans(st, t.T, K(0), t.T.n)
			if !k {
				m.undec[c.name+": delivered content not known"] = true
				return
			}
			got = append(got, x...)
		}
	}
	pendS := span{src: pend, lo: K(0), hi: LS(P)}
	all := append(append([]span{}, got...), leftS...)
	forms := [][]span{append([]span{pendS}, e.contrib...)}
	if e.either {
		forms = append(forms, []span{pendS})
	}
	dropped := false
	if st.poly.entails(lenOfSpans(e.contrib).addK(-max)) {
		dropped = true
		forms = append(forms, []span{pendS})
	}
	best, msg := 0, ""
	for _, f := range forms {
		r, w := sameSpans(st, all, f)
		if r == 1 {
			best = 1
			break
		}
		if r == -1 {
			best = -1
		}
		if msg == "" {
			msg = w + " (delivered and pending: " + showSpans(all) + ", expected " + showSpans(f) + ")"
		}
	}
	switch best {
	case -1:
		m.undec[c.name+": "+msg] = true
		return
	case 0:
		rule, prop := "content", "M03"
		if c.std == "h264" || c.std == "h265" {
			prop = "M01"
		}
		m.add(prop, rule, m.where()+" "+c.std, m.root.Pos(), "%s: what is delivered and kept is not what was pending followed by what the packet contributes: %s", c.name, msg)
		if prop == "M01" && !isPart(st, all, pkt, pend) {
			m.add("M03", rule, m.where()+" "+c.std, m.root.Pos(), "%s: bytes that were not received on the channel, or not in order: %s", c.name, msg)
		}
		return
	}
	if len(m.samples) < 30 && m.exits%29 == 0 {
		m.samples = append(m.samples, fmt.Sprintf("%s: delivered %s, kept %s", c.name, showSpans(got), showSpans(leftS)))
	}
	total := LS(P).add(lenOfSpans(e.contrib))
	fits := st.poly.entails(total.neg().addK(max))
	if !fits || dropped || e.complete < 0 {
		return
	}
	prop := "M03"
	if c.std != "other" {
		prop = "M01"
	}
	if e.complete == 1 && !st.poly.entailsEq(bb.pend, K(0)) {
		m.add(prop, "not-completed", m.where()+" "+c.std, m.root.Pos(), "%s: the unit is complete but %s bytes stay pending", c.name, bb.pend)
	}
	if e.complete == 0 && nd != "0" {
		m.add(prop, "completed-early", m.where()+" "+c.std, m.root.Pos(), "%s: a frame is delivered although the unit is not complete", c.name)
	}
}

// isPart: all spans are in-order parts of pending data followed by the packet
// (with rebuilt header bytes).
func isPart(st *State, ss []span, pkt, pend *Term) bool {
	stage := 0
	var last Lin
	for _, s := range ss {
		if s.src == nil {
			continue
		}
		if st.poly.entailsEq(s.lo, s.hi) {
			continue
		}
		k := -1
		if s.src == pend {
			k = 0
		} else if s.src == pkt {
			k = 1
		}
		if k < stage {
			return false
		}
		if k > stage {
			last = K(0)
		}
		if !st.poly.entails(s.lo.sub(last)) {
			return false
		}
		stage, last = k, s.hi
	}
	return true
}

func init() {
	reg := func(id, expl string, min map[string]int) {
		checks[id] = func(p *Prog, r *Result) {
			m := mediaOf(p)
			r.explanation = "Abstract interpretation of the path of one received packet, from the delivered message to the data callback, run once per codec, unit type, fragment bits and length class (bytes as bit vectors, lengths and offsets as linear constraints, any pending data). " + expl
			r.assume = []string{"a message handed to the RTSP layer is one framed unit (T01): an interleaved message is at most 4+65535 bytes long",
				"the application's data callback does not call back into the parser"}
			m.report(id, r)
			var us []string
			for u := range m.undec {
				us = append(us, u)
			}
			sort.Strings(us)
			r.coverage["undecided"] = us
			for _, u := range us {
				fmt.Println("UNDECIDED property=" + id + " " + u)
			}
			if len(us) > 0 {
				return
			}
			for _, f := range m.found {
				if len(f) > 0 {
					return // what was found may have kept the runs from going on
				}
			}
			r.require("packet kinds", m.runs, 100)
			r.require("deliveries", m.delivers, 50)
			r.require("exit states", m.exits, 100)
		}
	}
	reg("M01", "Rule: for every H.264 and H.265 packet that is not an aggregation, what is delivered and kept afterwards is what was pending followed by the contribution the payload format prescribes, bit for bit; the frame is delivered exactly when the unit is complete.", nil)
	reg("M02", "Rule: in an aggregation packet every unit delivered is exactly the bytes the big-endian size in front of it declares, the next one starts right behind it, and none is left over.", nil)
	reg("M03", "Rule: delivered frames and the bytes kept are together what was pending followed by the packet's bytes in order; every parser is made with a buffer of its own.", nil)
	reg("M04", "Rule: the pending length stays between 0 and the fixed size of the buffer, and the buffer is never replaced by one of another size.", nil)
}

func (m *mediaModel) report(id string, r *Result) {
	r.obligations += m.exits + m.delivers + len(m.obl)
	r.coverage["packet_kinds"] = m.kinds
	r.coverage["interpreted_steps"] = m.steps
	r.coverage["functions"] = len(m.fns)
	for _, s := range m.samples {
		r.sample("%s", s)
	}
	for _, f := range m.found[id] {
		r.report(f.rule, f.where, m.p.pos(f.pos), "%s", f.msg)
	}
}

var _ = constant.Int64Val
