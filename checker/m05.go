package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// M05 and M06: what is published of a media stream's format.
//
// The function that makes the published description from a text is followed,
// path by path, on descriptions with one or two media streams whose formats,
// rtpmap and fmtp attributes have symbolic parts.

// describeFns make the published description from a text.
func (p *Prog) describeFns() (fs []*ssa.Function) {
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath || f.Blocks == nil || f.Parent() != nil || f.Synthetic != "" || f.Signature.Recv() != nil || len(f.Params) != 1 {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 || structFieldIdx(deref(res.At(0).Type()), "Medias") < 0 {
			continue
		}
		if n, ok := deref(res.At(0).Type()).(*types.Named); !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
			continue
		}
		switch u := f.Params[0].Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString == 0 {
				continue
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Byte {
				continue
			}
		default:
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return
}

// A descCase is a description and what must be published of its streams.
type descCase struct {
	name   string
	medias []descMedia
}

type descMedia struct {
	format string   // F: any text without blanks, separators and control characters
	attrs  []string // the same
	want   wantMedia
}

type wantMedia struct {
	format   *int64 // the payload number
	notZero  bool
	codec    string // pattern; "" none
	anyCodec bool
	notCodec string
	rate     int64 // 0: not compared
	channels int64 // 0: not compared
	params   [][2]string
	fmtp     bool
}

type descExit struct {
	st    *State
	v     Val // of the description
	media []Val
	none  bool // no description
	mt    types.Type
}

type descRun struct {
	c      descCase
	exits  []descExit
	steps  int
	gaveUp string
	fields map[string]*Term
}

// patTerm makes the text of a pattern; the n-th F of a description is field n.
func (d *descRun) patTerm(st *State, pat string, n *int) *Term {
	var ps []*Term
	for _, r := range pat {
		if r == 'F' {
			ps = append(ps, d.field(st, *n))
			*n++
		} else {
			ps = append(ps, tConst(string(r)))
		}
	}
	return tCat(ps...)
}

func (d *descRun) field(st *State, n int) *Term {
	k := fmt.Sprintf("field%d", n)
	if d.fields[k] == nil {
		d.fields[k] = wordTerm(st, k)
	}
	return d.fields[k]
}

// wordTerm is any word of characters beyond the digits; no two are equal.
func wordTerm(st *State, name string) *Term {
	ps := []*Term{tConst(string(rune('A' + name[len(name)-1] - '0')))}
	for i := 1; i < 7; i++ {
		b := keyedSym(fmt.Sprintf("word:%s.%d", name, i), 63, 126)
		b.info().deps = []string{name}
		ps = append(ps, tByte(LS(b)))
	}
	return tCat(ps...)
}

func followDescribe(p *Prog, f *ssa.Function, c descCase) (r *descRun) {
	r = &descRun{c: c, fields: map[string]*Term{}}
	in := newInterp(p, &Hooks{})
	in.ff = p.fieldFacts()
	in.maxStep = 200000
	in.deadline = time.Now().Add(10 * time.Second)
	in.modular = true
	in.exactCap = 60
	in.exact = 10
	defer func() {
		r.steps = in.steps
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				r.gaveUp = g.why
				return
			}
			r.gaveUp = fmt.Sprint(e)
		}
	}()
	st := newState(in)
	n := 0
	ps := []*Term{tConst("v=0\r\n")}
	for _, m := range c.medias {
		ps = append(ps, tConst("m=video 0 RTP/AVP "), r.patTerm(st, m.format, &n), tConst("\r\n"))
		for _, a := range m.attrs {
			ps = append(ps, tConst("a="), r.patTerm(st, a, &n), tConst("\r\n"))
		}
	}
	t := tCat(ps...)
	var arg Val = Str{t}
	if s, ok := f.Params[0].Type().Underlying().(*types.Slice); ok {
		a := &Arr{elem: s.Elem(), n: t.n, bytes: true, deps: t.deps, def: topByte, label: "text", segs: []Seg{{K(0), t.n, t, K(0)}}}
		st.setObj(&Obj{id: "text", T: s.Elem(), kind: 'a', arr: a, site: "the text", flags: map[string]bool{"input": true}})
		arg = Slice{N: nonNil, Objs: []ObjID{"text"}, Off: K(0), Len: t.n, Cap: t.n}
	}
	T := f.Signature.Results().At(0).Type()
	in.push(st, f, []Val{arg}, nil, "root:describe")
	for _, o := range in.runFn(st) {
		if o.panicked || o.st.inexact || len(o.vals) == 0 {
			continue
		}
		x := descExit{st: o.st, v: o.vals[0]}
		v := o.vals[0]
		if q, ok := v.(Ptr); ok {
			if o.st.isNil(q.N) == triNil {
				x.none = true
				r.exits = append(r.exits, x)
				continue
			}
			if len(q.Locs) != 1 || o.st.isNil(q.N) != triNon {
				r.gaveUp = "the published description is not known"
				continue
			}
			v = o.st.load(q.Locs[0], deref(T))
		}
		s, ok := o.st.expandAll(v).(Struct)
		i := structFieldIdx(deref(T), "Medias")
		if !ok || i >= len(s.F) {
			r.gaveUp = "the published description is not known"
			continue
		}
		l, ok := s.F[i].(Slice)
		if !ok || !l.Len.isK() || len(l.Objs) > 1 {
			r.gaveUp = "the published streams are not known"
			continue
		}
		ET := deref(T).Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice).Elem()
		for k := int64(0); k < l.Len.c; k++ {
			ob := o.st.objOf(l.Objs[0])
			if ob == nil || ob.arr == nil {
				r.gaveUp = "the published streams are not known"
				break
			}
			m := o.st.expandAll(o.st.readElem(ob, l.Off.addK(k)))
			if q, ok := m.(Ptr); ok && len(q.Locs) == 1 {
				ET = deref(ET)
				m = o.st.expandAll(o.st.load(q.Locs[0], ET))
			}
			x.media = append(x.media, m)
		}
		x.mt = ET
		r.exits = append(r.exits, x)
	}
	return
}

// rfc3551 are the statically assigned payload types of RFC 3551, table 4 and 5.
var rfc3551 = map[int64]struct {
	codec          string
	rate, channels int64
}{
	0: {"PCMU", 8000, 1}, 3: {"GSM", 8000, 1}, 4: {"G723", 8000, 1}, 5: {"DVI4", 8000, 1}, 6: {"DVI4", 16000, 1}, 7: {"LPC", 8000, 1},
	8: {"PCMA", 8000, 1}, 9: {"G722", 8000, 1}, 10: {"L16", 44100, 2}, 11: {"L16", 44100, 1}, 12: {"QCELP", 8000, 1}, 13: {"CN", 8000, 1},
	14: {"MPA", 90000, 0}, 15: {"G728", 8000, 1}, 16: {"DVI4", 11025, 1}, 17: {"DVI4", 22050, 1}, 18: {"G729", 8000, 1},
	25: {"CelB", 90000, 0}, 26: {"JPEG", 90000, 0}, 28: {"nv", 90000, 0}, 31: {"H261", 90000, 0}, 32: {"MPV", 90000, 0}, 33: {"MP2T", 90000, 0}, 34: {"H263", 90000, 0},
}

func payloadCases() (cs []descCase) {
	add := func(name string, ms ...descMedia) { cs = append(cs, descCase{name, ms}) }
	for n := int64(0); n <= 127; n++ {
		n := n
		num := fmt.Sprint(n)
		if w, ok := rfc3551[n]; ok {
			want := wantMedia{format: &n, codec: w.codec, rate: w.rate, channels: w.channels}
			add(num, descMedia{num, nil, want})
			add(num+" with rtpmap", descMedia{num, []string{"rtpmap:" + num + " F/12345"}, want})
			add(num+" first of several", descMedia{num + " 96 3", nil, want})
			add(num+" in the second stream", descMedia{"96", []string{"rtpmap:96 F/12345/6"}, wantMedia{codec: "$0", rate: 12345, channels: 6}}, descMedia{num, nil, want})
			continue
		}
		add(num, descMedia{num, nil, wantMedia{format: &n}})
		add(num+" with rtpmap", descMedia{num, []string{"rtpmap:" + num + " F/12345"}, wantMedia{format: &n, codec: "$0", rate: 12345}})
		if n == 1 || n == 19 || n == 35 || n == 72 || n == 96 || n == 127 {
			add(num+" with rtpmap and channels", descMedia{num, []string{"rtpmap:" + num + " F/12345/6"}, wantMedia{format: &n, codec: "$0", rate: 12345, channels: 6}})
			add(num+" with rtpmap without rate", descMedia{num, []string{"rtpmap:" + num + " F"}, wantMedia{format: &n, codec: "$0"}})
			add(num+" with another attribute", descMedia{num, []string{"F", "F:F", "rtpmap:" + num + " F/90000"}, wantMedia{format: &n, codec: "$3", rate: 90000}})
			add(num+" first of two with rtpmap", descMedia{num + " 121", []string{"rtpmap:" + num + " F/12345", "rtpmap:121 F/8000"}, wantMedia{format: &n, codec: "$0", rate: 12345}})
			add(num+" first of two with rtpmap in the other order", descMedia{num + " 121", []string{"rtpmap:121 F/8000", "rtpmap:" + num + " F/12345"}, wantMedia{format: &n, codec: "$1", rate: 12345}})
			add(num+" then 0", descMedia{num, []string{"rtpmap:" + num + " F/12345/6"}, wantMedia{format: &n, codec: "$0", rate: 12345, channels: 6}}, descMedia{"0", nil, wantMedia{codec: "PCMU", rate: 8000, channels: 1}})
			add(num+" twice, the second without rtpmap", descMedia{num, []string{"rtpmap:" + num + " F/12345/6"}, wantMedia{format: &n, codec: "$0", rate: 12345, channels: 6}}, descMedia{num, nil, wantMedia{format: &n}})
		}
	}
	x := wantMedia{codec: "$0", rate: 12345}
	y := wantMedia{codec: "$1", rate: 8000, channels: 2}
	add("two with rtpmap", descMedia{"96", []string{"rtpmap:96 F/12345"}, x}, descMedia{"97", []string{"rtpmap:97 F/8000/2"}, y})
	add("two of the same number", descMedia{"96", []string{"rtpmap:96 F/12345"}, x}, descMedia{"96", []string{"rtpmap:96 F/8000/2"}, y})
	add("three", descMedia{"96", []string{"rtpmap:96 F/12345"}, x}, descMedia{"8", nil, wantMedia{codec: "PCMA", rate: 8000, channels: 1}}, descMedia{"97", []string{"rtpmap:97 F/8000/2"}, y})
	add("three, the first without rtpmap", descMedia{"95", nil, wantMedia{}}, descMedia{"96", []string{"rtpmap:96 F/12345"}, x}, descMedia{"97", []string{"rtpmap:97 F/8000/2"}, y})
	for _, n := range []int64{128, 255, 256, 259, 264, 1000, 65536, 65544} {
		n := n
		add(fmt.Sprint(n), descMedia{fmt.Sprint(n), nil, wantMedia{format: &n}})
	}
	for _, f := range []string{"F", "-", "F 0", "x0", "0x", "0F", "8.", "8F"} {
		add("format "+f, descMedia{f, nil, wantMedia{notZero: true}})
		add("format "+f+" after 0", descMedia{"0", nil, wantMedia{codec: "PCMU"}}, descMedia{f, nil, wantMedia{notZero: true}})
	}
	return
}

func paramCases() (cs []descCase) {
	w := func(l ...string) (w wantMedia) {
		w.fmtp, w.anyCodec = true, true
		for i := 0; i+1 < len(l); i += 2 {
			w.params = append(w.params, [2]string{l[i], l[i+1]})
		}
		return
	}
	one := func(text string, want wantMedia) {
		cs = append(cs, descCase{"fmtp:" + text, []descMedia{{"96", []string{"fmtp:" + text}, want}}})
	}
	seps := []string{";", "; ", " ", " ;", " ; ", ";;", "  ", "; ; "}
	one("96 F=F", w("$0", "$1"))
	one("96 F", w("$0", ""))
	one("96 F=", w("$0", ""))
	one("96 F=F=F", w("$0", "$1=$2"))
	one("96 F=F==", w("$0", "$1=="))
	one("96  F=F", w("$0", "$1"))
	one("96 F=F;", w("$0", "$1"))
	one("96 F=F; ", w("$0", "$1"))
	one("96 ;F=F", w("$0", "$1"))
	one("96 F=F,F", w("$0", "$1,$2"))
	one("96 F=F:F/F", w("$0", "$1:$2/$3"))
	one("96 F-F=F", w("$0-$1", "$2"))
	for _, s := range seps {
		one("96 F=F"+s+"F=F", w("$0", "$1", "$2", "$3"))
		one("96 F=F"+s+"F", w("$0", "$1", "$2", ""))
		one("96 F"+s+"F=F", w("$0", "", "$1", "$2"))
		one("96 F=F=="+s+"F=F=", w("$0", "$1==", "$2", "$3="))
		one("96 F=F"+s+"F="+s+"F=F", w("$0", "$1", "$2", "", "$3", "$4"))
		for _, s2 := range seps {
			one("96 F=F"+s+"F=F"+s2+"F=F", w("$0", "$1", "$2", "$3", "$4", "$5"))
		}
	}
	cs = append(cs, descCase{"fmtp of two streams", []descMedia{{"96", []string{"fmtp:96 F=F;F=F"}, w("$0", "$1", "$2", "$3")}, {"97", []string{"fmtp:97 F=F"}, w("$4", "$5")}}})
	cs = append(cs, descCase{"fmtp and other attributes", []descMedia{{"96", []string{"rtpmap:96 F/90000", "fmtp:96 F=F;F=F", "control:F"}, w("$1", "$2", "$3", "$4")}}})
	return
}

// refTerm makes the text of a wanted value; $n is field n.
func (d *descRun) refTerm(st *State, pat string) *Term {
	var ps []*Term
	for i := 0; i < len(pat); i++ {
		if pat[i] == '$' {
			i++
			ps = append(ps, d.field(st, int(pat[i]-'0')))
		} else {
			ps = append(ps, tConst(pat[i:i+1]))
		}
	}
	return tCat(ps...)
}

func checkDescribed(p *Prog, r *Result, cs []descCase) {
	fs := p.describeFns()
	r.require("functions publishing a description", len(fs), 1)
	accepted, steps := 0, 0
	for _, f := range fs {
		pos := p.pos(f.Pos())
		for _, c := range cs {
			d := followDescribe(p, f, c)
			steps += d.steps
			if d.gaveUp != "" {
				r.report("undecided", fname(f), pos, "%s: %s", c.name, d.gaveUp)
			}
			for _, x := range d.exits {
				if x.none {
					continue
				}
				accepted++
				if len(x.media) != len(c.medias) {
					r.obligations++
					r.report("streams-lost", fname(f), pos, "%d streams are published for %d described ones (%s)", len(x.media), len(c.medias), c.name)
					continue
				}
				for i, m := range x.media {
					d.compareMedia(r, x, c.medias[i], m, fname(f), pos)
				}
			}
		}
	}
	if len(fs) > 0 {
		r.sample("%s followed on %d descriptions", fs[0], len(cs))
	}
	r.coverage["descriptions"] = len(cs)
	r.coverage["accepting_paths"] = accepted
	r.coverage["interpreted_steps"] = steps
	r.require("paths on which a description is published", accepted, len(cs)*3/4)
}

func (d *descRun) compareMedia(r *Result, x descExit, m descMedia, v Val, where, pos string) {
	s, ok := v.(Struct)
	get := func(name string) Val {
		i := structFieldIdx(x.mt, name)
		if !ok || i < 0 || i >= len(s.F) {
			r.report("undecided", where, pos, "the published %s is not known (%s)", name, d.c.name)
			return nil
		}
		return x.st.expandAll(s.F[i])
	}
	num := func(name string, want int64) {
		v := get(name)
		if v == nil {
			return
		}
		r.obligations++
		n, ok := v.(Int)
		if !ok || x.st.eval(cEQ(n.L.addK(-want))) == -1 {
			r.report("undecided", where, pos, "%s is not known (%s)", name, d.c.name)
		} else if x.st.eval(cEQ(n.L.addK(-want))) == 0 {
			r.report("wrong-format", where, pos, "%s is %s, not %d (%s)", name, n.L, want, d.c.name)
		}
	}
	w := m.want
	if w.fmtp {
		d.compareParams(r, x, w, get("Fmtp"), where, pos)
		return
	}
	if w.format != nil {
		num("PayloadFormat", *w.format)
	}
	v = get("CodecName")
	if v == nil {
		return
	}
	t, isStr := v.(Str)
	if !isStr {
		r.report("undecided", where, pos, "CodecName is not known (%s)", d.c.name)
		return
	}
	r.obligations++
	if w.notZero {
		if k, ok := constText(x.st, t.T); ok && k == "PCMU" {
			r.report("wrong-format", where, pos, "a format that is not a number is taken for payload type 0 (%s)", d.c.name)
		} else if ok && k != "" {
			r.report("wrong-format", where, pos, "a format that is not a number gets the codec %q (%s)", k, d.c.name)
		}
		if n, ok := get("PayloadFormat").(Int); ok && n.L.isK() && n.L.c >= 0 {
			r.report("wrong-format", where, pos, "a format that is not a number is published as payload type %d (%s)", n.L.c, d.c.name)
		}
		return
	}
	switch x.st.eval(x.st.strCond(t.T, d.refTerm(x.st, w.codec))) {
	case 0:
		r.report("wrong-format", where, pos, "CodecName is %s, not %q (%s)", showVal(t), w.codec, d.c.name)
	case -1:
		r.report("undecided", where, pos, "CodecName is %s (%s)", showVal(t), d.c.name)
	}
	if w.rate != 0 {
		num("RtpTimestampFrequency", w.rate)
	}
	if w.channels != 0 {
		num("Channels", w.channels)
	}
}

func (d *descRun) compareParams(r *Result, x descExit, w wantMedia, v Val, where, pos string) {
	q, ok := v.(Ptr)
	if !ok {
		return
	}
	und := func(what string) { r.report("undecided", where, pos, "%s (%s)", what, d.c.name) }
	var ents []MEnt
	switch {
	case x.st.isNil(q.N) == triNil:
	case x.st.isNil(q.N) == triNon && len(q.Locs) == 1:
		o := x.st.objOf(q.Locs[0].obj)
		if o == nil || o.mp == nil || o.mp.vdef != nil || o.summ {
			und("the published parameters are not known")
			return
		}
		ents = o.mp.ents
	default:
		und("the published parameters are not known")
		return
	}
	seen := make([]bool, len(w.params))
next:
	for _, e := range ents {
		r.obligations++
		k, ok1 := e.k.(Str)
		val, ok2 := e.v.(Str)
		if !ok1 || !ok2 {
			und("a published parameter is not known")
			continue
		}
		if t, ok := constText(x.st, k.T); ok && (t == "96" || t == "97") {
			if c, ok := constText(x.st, val.T); ok && c == "" {
				continue // the payload type
			}
		}
		if t, ok := constText(x.st, k.T); ok && t == "" {
			if c, ok := constText(x.st, val.T); ok && c == "" {
				continue
			}
		}
		maybe := false
		for i, p := range w.params {
			a, b := x.st.eval(x.st.strCond(k.T, d.refTerm(x.st, p[0]))), x.st.eval(x.st.strCond(val.T, d.refTerm(x.st, p[1])))
			if a == 1 && b == 1 {
				seen[i] = true
				continue next
			}
			if a != 0 && b != 0 {
				maybe = true
			}
		}
		if maybe {
			und(fmt.Sprintf("parameter %s = %s", showVal(k), showVal(val)))
		} else {
			r.report("wrong-parameter", where, pos, "parameter %s with value %s is not the text between separators (%s)", showVal(k), showVal(val), d.c.name)
		}
	}
	for i, ok := range seen {
		r.obligations++
		if !ok && !r.seen["undecided "+where] {
			r.report("parameter-lost", where, pos, "parameter %s is not published with the value %s (%s)", w.params[i][0], w.params[i][1], d.c.name)
		}
	}
}

func init() {
	checks["M05"] = func(p *Prog, r *Result) {
		r.explanation = "The function publishing a description is followed, path by path, on descriptions announcing every payload type number from 0 to 127 and other formats, with and without rtpmap attributes whose codec is symbolic; codec, clock rate and channels are compared with the table of RFC 3551 or the parts of the stream's rtpmap attribute."
		checkDescribed(p, r, payloadCases())
	}
	checks["M06"] = func(p *Prog, r *Result) {
		r.explanation = "The function publishing a description is followed, path by path, on descriptions whose fmtp attribute has up to three parameters with symbolic names and values and every mixture of separators; the published table is compared entry by entry."
		checkDescribed(p, r, paramCases())
	}
}
