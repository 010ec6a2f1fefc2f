package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The decoder followed exactly on given lines with a message of known
// structure: S03, S04, S05, S09 and S11 are read off its exits.

type decExit struct {
	c      *decCase
	st     *State
	err    int // 1 no error, 0 an error, -1 not known
	raised string
	before Val
	after  Val
	mapUpd []mapUpdEv
	texts  []*Term
}

type mapUpdEv struct {
	obj  ObjID
	k, v Val
}

type decRun struct {
	c      decCase
	exits  []*decExit
	gaveUp string
	steps  int
	loops  []Found
}

type decModel struct {
	in   *Interp
	T    *types.Struct // Message
	MT   types.Type
	runs []*decRun
}

// known parts of the Message type
func structFieldIdx(T types.Type, name string) int {
	u, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// followDecode runs one case. fill builds the message before decoding.
func followDecode(p *Prog, c decCase, fill func(m *eqModel, st *State, T types.Type) Val) (r *decRun) {
	r = &decRun{c: c}
	h := &Hooks{}
	h.ret = func(in *Interp, st *State, fn *ssa.Function, vals []Val, panicked bool) {
		if panicked || pkgOf(fn) != sdpPath || len(vals) == 0 || st.fr.parent == nil {
			return
		}
		res := fn.Signature.Results()
		if !isErr(res.At(res.Len() - 1).Type()) {
			return
		}
		if st.fr.parent.fn == fn {
			return // a search calling itself
		}
		if e, ok := vals[len(vals)-1].(Iface); ok && st.isNil(e.N) == triNon {
			if _, ok := st.ghost["raised"]; !ok {
				st.setGhost("raised", Str{tConst(fname(fn))})
			}
		}
	}
	h.extern = func(in *Interp, st *State, c *CallEv, outs []outcome) {
		if c.T == nil || c.T.Len() == 0 || !isErr(c.T.At(c.T.Len()-1).Type()) || c.T.Len() == 1 {
			return // constructors and wrappers of errors
		}
		for _, o := range outs {
			if o.panicked {
				continue
			}
			if e, ok := o.vals[len(o.vals)-1].(Iface); ok && o.st.isNil(e.N) == triNon {
				if _, ok := o.st.ghost["raised"]; !ok {
					o.st.setGhost("raised", Str{tConst(c.name + " in " + fname(c.instr.Parent()))})
				}
			}
		}
	}
	h.mapUpd = func(in *Interp, st *State, m Val, k, v Val, at ssa.Instruction) {
		if q, ok := m.(Ptr); ok && len(q.Locs) == 1 {
			old, _ := st.ghost["maps"].(Tuple)
			st.setGhost("maps", Tuple{append(old.V[:len(old.V):len(old.V)], Tuple{[]Val{q, k, v}})})
		}
	}
	in := newInterp(p, h)
	in.ff = p.fieldFacts()
	in.maxStep = 200000
	in.deadline = time.Now().Add(10 * time.Second)
	in.modular = true
	in.exactCap = 80
	in.exact = 8
	m := &eqModel{in: in}
	defer func() {
		r.steps = in.steps
		r.loops = append(r.loops, in.found...)
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				r.gaveUp = g.why
				return
			}
			if os.Getenv("AI_PANIC") != "" {
				panic(e)
			}
			r.gaveUp = fmt.Sprint(e)
		}
	}()
	var before Val
	sts, texts, err := in.startDecode(p, c, func(st *State, T types.Type) Val {
		before = fill(m, st, deref(T))
		st.setObj(&Obj{id: "message", T: deref(T), kind: 'v', v: before, site: "the message"})
		return Ptr{N: nonNil, Locs: []Loc{{obj: "message"}}}
	})
	if err != "" {
		r.gaveUp = err
		return
	}
	for _, st := range sts {
		for _, o := range in.runFn(st) {
			if o.panicked || len(o.vals) == 0 {
				continue
			}
			x := &decExit{c: &r.c, st: o.st, err: -1, before: before, texts: texts}
			if e, ok := o.vals[len(o.vals)-1].(Iface); ok {
				switch o.st.isNil(e.N) {
				case triNil:
					x.err = 1
				case triNon:
					x.err = 0
				}
			}
			if s, ok := o.st.ghost["raised"].(Str); ok {
				x.raised, _ = constText(o.st, s.T)
			}
			if ob := o.st.objOf("message"); ob != nil {
				x.after = ob.v
			}
			if t, ok := o.st.ghost["maps"].(Tuple); ok {
				for _, e := range t.V {
					e := e.(Tuple)
					x.mapUpd = append(x.mapUpd, mapUpdEv{e.V[0].(Ptr).Locs[0].obj, e.V[1], e.V[2]})
				}
			}
			r.exits = append(r.exits, x)
		}
	}
	return
}

// leaves lists the parts of a value with their paths.
func (x *decExit) leaves(in *Interp, T types.Type, v Val, path string, f func(path string, T types.Type, v Val)) {
	v = x.st.expandAll(v)
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if s, ok := v.(Struct); ok && !hiddenStruct(T) && len(s.F) == u.NumFields() {
			for i := range s.F {
				x.leaves(in, u.Field(i).Type(), s.F[i], strings.TrimPrefix(path+"."+u.Field(i).Name(), "."), f)
			}
			return
		}
	case *types.Slice:
		if s, ok := v.(Slice); ok && !isByteType(u.Elem()) && s.Len.isK() && s.Len.c <= 8 && (len(s.Objs) == 1 || s.Len.c == 0) {
			f(path+".len", types.Typ[types.Int], Int{s.Len})
			for i := int64(0); i < s.Len.c; i++ {
				if o := x.st.objOf(s.Objs[0]); o != nil && o.arr != nil {
					x.leaves(in, u.Elem(), x.st.readElem(o, s.Off.addK(i)), fmt.Sprintf("%s[%d]", path, i), f)
				}
			}
			return
		}
	}
	f(path, T, v)
}

func blankMessage(m *eqModel, st *State, T types.Type) Val { return st.zero(T) }

// oldMessage: every part is something of its own, lists have one element.
func oldMessage(m *eqModel, st *State, T types.Type) Val { return m.build(st, T, "old", 1) }

// ---------------------------------------------------------------- what lines mean

// decWant: what a line stores where. Sources: sN the N-th field as text, nN as
// number, iN as address, tN as time, dN<unit> as duration; several texts are
// joined with a space. {k} is the value under a map key.
type decWant struct {
	line    string
	session map[string]string
	media   map[string]string
	pre     string // lines that go before: one letter each
}

var decWants = []decWant{
	{"v=F", map[string]string{"Version": "n0"}, nil, ""},
	{"o=F F F F F F", map[string]string{"Origin.Username": "s0", "Origin.SessionID": "n1", "Origin.SessionVersion": "n2", "Origin.NetworkType": "s3", "Origin.AddressType": "s4", "Origin.Address": "s5"}, nil, ""},
	{"s=F", map[string]string{"Name": "s0"}, nil, ""},
	{"i=F", map[string]string{"Info": "s0"}, map[string]string{"Title": "s0"}, ""},
	{"u=F", map[string]string{"URI": "s0"}, nil, ""},
	{"e=F", map[string]string{"Email": "s0"}, nil, ""},
	{"p=F", map[string]string{"Phone": "s0"}, nil, ""},
	{"c=F F F", map[string]string{"Connection.NetworkType": "s0", "Connection.AddressType": "s1", "Connection.IP": "i2", "Connection.TTL": "0", "Connection.Addresses": "0"}, nil, ""},
	{"c=F F F/F", map[string]string{"Connection.NetworkType": "s0", "Connection.AddressType": "s1", "Connection.IP": "i2", "Connection.TTL": "4n3", "Connection.Addresses": "6n3"}, nil, ""},
	{"c=F F F/F/F", map[string]string{"Connection.NetworkType": "s0", "Connection.AddressType": "s1", "Connection.IP": "i2", "Connection.TTL": "n3", "Connection.Addresses": "n4"}, nil, ""},
	{"b=AS:F", map[string]string{"Bandwidths{AS}": "n0"}, nil, ""},
	{"b=CT:F", map[string]string{"Bandwidths{CT}": "n0"}, nil, ""},
	{"t=F F", map[string]string{"Timing[0].Start": "t0", "Timing[0].End": "t1"}, nil, ""},
	{"r=Fd Fd Fd Fd", map[string]string{"Timing[0].Repeat": "d0d", "Timing[0].Active": "d1d", "Timing[0].Offsets[0]": "d2d", "Timing[0].Offsets[1]": "d3d"}, nil, ""},
	{"r=Fh Fm Fs", map[string]string{"Timing[0].Repeat": "d0h", "Timing[0].Active": "d1m", "Timing[0].Offsets[0]": "d2s"}, nil, ""},
	{"r=Fs F9 Fs", map[string]string{"Timing[0].Repeat": "d0s", "Timing[0].Active": "d19", "Timing[0].Offsets[0]": "d2s"}, nil, ""},
	{"z=F Fh", map[string]string{"TZAdjustments[0].Start": "t0", "TZAdjustments[0].Offset": "d1h"}, nil, ""},
	{"z=F Fd F Fs", map[string]string{"TZAdjustments[0].Start": "t0", "TZAdjustments[0].Offset": "d1d", "TZAdjustments[1].Start": "t2", "TZAdjustments[1].Offset": "d3s"}, nil, ""},
	{"k=F:F", map[string]string{"Encryption.Method": "s0", "Encryption.Key": "s1"}, nil, ""},
	{"k=F", map[string]string{"Encryption.Method": "s0", "Encryption.Key": ""}, nil, ""},
	{"a=F:F", map[string]string{"Attributes{F}": "s1"}, nil, ""},
	{"a=F", map[string]string{"Attributes{F}": ""}, nil, ""},
	{"a=F:F:F", map[string]string{"Attributes{F}": "s1:s2"}, nil, ""},
	{"a=F:F F", map[string]string{"Attributes{F}": "s1 s2"}, nil, ""},
	{"k=F:F:F", map[string]string{"Encryption.Method": "s0", "Encryption.Key": "s1:s2"}, nil, ""},
	{"s=F F:F", map[string]string{"Name": "s0 s1:s2"}, nil, ""},
	{"i=F F:F", map[string]string{"Info": "s0 s1:s2"}, map[string]string{"Title": "s0 s1:s2"}, ""},
	{"m=F F F F", nil, map[string]string{"Description.Type": "s0", "Description.Port": "n1", "Description.PortsNumber": "0", "Description.Protocol": "s2", "Description.Format": "s3"}, ""},
	{"m=F F/F F F", nil, map[string]string{"Description.Type": "s0", "Description.Port": "n1", "Description.PortsNumber": "n2", "Description.Protocol": "s3", "Description.Format": "s4"}, ""},
	{"m=F F F F F", nil, map[string]string{"Description.Type": "s0", "Description.Port": "n1", "Description.Protocol": "s2", "Description.Format": "s3 s4"}, ""},
	{"t=F F", map[string]string{"Timing.len": "L2", "Timing[1].Start": "t0", "Timing[1].End": "t1"}, nil, "t"},
	{"r=Fs Fs Fs", map[string]string{"Timing.len": "L2", "Timing[1].Repeat": "d0s", "Timing[0].Repeat": "0"}, nil, "tt"},
	{"r=Fs Fs Fs Fs", map[string]string{"Timing.len": "L3", "Timing[2].Repeat": "d0s", "Timing[2].Active": "d1s", "Timing[2].Offsets[0]": "d2s", "Timing[2].Offsets[1]": "d3s", "Timing[0].Repeat": "0", "Timing[1].Active": "0"}, nil, "ttt"},
	{"r=Fs Fs Fs", map[string]string{"Timing[0].Offsets[1]": "d2s", "Timing[0].Offsets.len": "L2"}, nil, "tr"},
	{"m=F F F F", nil, map[string]string{"Medias.len": "L3", "Description.Type": "s0"}, "mm"},
	{"b=AS:F", map[string]string{"Bandwidths{AS}": "n0"}, nil, "b"},
	{"z=F Fs", map[string]string{"TZAdjustments.len": "L2", "TZAdjustments[1].Start": "t0", "TZAdjustments[1].Offset": "d1s"}, nil, "z"},
	{"a=x:F", map[string]string{"Attributes{x}": "s0", "Attributes{x}#": "L2"}, nil, "a"},
	{"a=x:F", map[string]string{"Attributes{x}": "s0", "Attributes{x}#": "L2"}, nil, "ma"},
	{"m=F F F F", nil, map[string]string{"Medias.len": "L2", "Description.Type": "s0"}, "m"},
}

const mediaTypes = "icbka"

// sectionFields: the parts a line of each type may change.
var sessionPart = map[rune]string{'v': "Version", 'o': "Origin", 's': "Name", 'i': "Info", 'u': "URI", 'e': "Email", 'p': "Phone", 'c': "Connection", 'b': "Bandwidths", 't': "Timing", 'r': "Timing", 'z': "TZAdjustments", 'k': "Encryption", 'a': "Attributes"}
var mediaPart = map[rune]string{'m': "Description", 'i': "Title", 'c': "Connection", 'b': "Bandwidths", 'k': "Encryption", 'a': "Attributes"}

// wantCases makes the runs on the lines of the table.
func wantCases() (cs []decCase, of []int) {
	media := decLine{typ: 'm', val: "audio 5004 RTP/AVP 0"}
	timing := decLine{typ: 't', val: "0 0"}
	for i, w := range decWants {
		l := decLine{typ: rune(w.line[0]), val: w.line[2:], pat: true}
		if w.pre != "" {
			c := decCase{name: w.line + " after " + w.pre}
			for _, t := range w.pre {
				c.lines = append(c.lines, goodLine(t))
			}
			c.lines = append(c.lines, l)
			cs, of = append(cs, c), append(of, i)
			continue
		}
		switch {
		case l.typ == 'm':
			cs, of = append(cs, decCase{w.line, []decLine{l}}, decCase{"m= before " + w.line, []decLine{media, l}}), append(of, i, i)
		case l.typ == 'r':
			cs, of = append(cs, decCase{w.line, []decLine{timing, l}}), append(of, i)
		default:
			cs, of = append(cs, decCase{w.line, []decLine{l}}), append(of, i)
		}
		if strings.ContainsRune("zka", l.typ) {
			cs, of = append(cs, decCase{w.line + " after t=", []decLine{timing, l}}), append(of, i)
		}
		if strings.ContainsRune(mediaTypes, l.typ) {
			cs, of = append(cs, decCase{w.line + " after m=", []decLine{media, l}}), append(of, i)
			cs, of = append(cs, decCase{w.line + " after two m=", []decLine{media, media, l}}), append(of, i)
			cs, of = append(cs, decCase{w.line + " between two m=", []decLine{media, l, media}}), append(of, i)
		}
		if l.typ != 'm' && l.typ != 'r' {
			cs, of = append(cs, decCase{w.line + " before m=", []decLine{l, media}}), append(of, i)
		}
	}
	return
}

// errorCases: an erroneous line may be followed by good ones.
func errorCases() (cs []decCase) {
	for _, c := range decCases() {
		cs = append(cs, c)
		l := c.lines[len(c.lines)-1]
		if !l.pat {
			continue
		}
		if strings.Contains(c.name, "after m=") || l.typ == 'm' {
			cs = append(cs, decCase{c.name + " and a=", append(c.lines[:len(c.lines):len(c.lines)], decLine{typ: 'a', val: "x:y"})})
		} else {
			cs = append(cs, decCase{c.name + " and m=", append(c.lines[:len(c.lines):len(c.lines)], decLine{typ: 'm', val: "audio 5004 RTP/AVP 0"})})
		}
	}
	// a line of any type with a value that suits some types
	media := decLine{typ: 'm', val: "audio 5004 RTP/AVP 0"}
	timing := decLine{typ: 't', val: "0 0"}
	for _, v := range []string{"0", "0 0", "0 0 0", "x"} {
		l := decLine{val: v}
		cs = append(cs, decCase{"any line " + v, []decLine{l}}, decCase{"any line " + v + " after m=", []decLine{media, l}}, decCase{"any line " + v + " after t=", []decLine{timing, l}})
	}
	// lines that cannot stand where they are
	for _, t := range sdpLetters {
		if !strings.ContainsRune("m"+mediaTypes, t) {
			cs = append(cs, decCase{string(t) + "= after m=", []decLine{media, goodLine(t)}})
			cs = append(cs, decCase{string(t) + "= after m= a=", []decLine{media, goodLine('a'), goodLine(t)}})
		}
		if strings.ContainsRune("vosuep", t) {
			cs = append(cs, decCase{string(t) + "= after t=", []decLine{timing, goodLine(t)}})
		}
	}
	for _, l := range []string{"vv", "vov", "vosv", "voso", "voss", "vosivi"} {
		c := decCase{name: l}
		for _, t := range l {
			c.lines = append(c.lines, goodLine(t))
		}
		cs = append(cs, c)
	}
	return
}

var goodValues = map[rune]string{'v': "0", 'o': "- 1 1 IN IP4 127.0.0.1", 's': "x", 'i': "x", 'u': "x", 'e': "x", 'p': "x", 'c': "IN IP4 127.0.0.1", 'b': "AS:1", 't': "0 0", 'r': "1 1 0", 'z': "0 0", 'k': "x:y", 'a': "x:y", 'm': "audio 5004 RTP/AVP 0"}

func goodLine(t rune) decLine { return decLine{typ: t, val: goodValues[t]} }

// misplaced: the last line, whose type is known, cannot stand where it is.
func (c *decCase) misplaced() bool {
	n := len(c.lines)
	if n < 2 {
		return false
	}
	last := c.lines[n-1].typ
	if last == 0 {
		return false
	}
	seen := ""
	for _, l := range c.lines[:n-1] {
		seen += string(l.typ)
	}
	switch {
	case strings.ContainsRune(seen, 'm'):
		return !strings.ContainsRune("m"+mediaTypes, last)
	case strings.ContainsRune(seen, 't'):
		return strings.ContainsRune("vosuep", last) // i, c and b are let through here
	}
	return strings.HasPrefix("vos", seen) && strings.ContainsRune(seen, last) || strings.HasPrefix(seen, "vos") && strings.ContainsRune("vos", last)
}

// sections tells for every line its section: -1 the session, or the number of
// the media description counted from the first decoded one.
func (c *decCase) sections() []int {
	cur := -1
	out := []int{}
	for _, l := range c.lines {
		if l.typ == 'm' {
			cur++
		}
		out = append(out, cur)
	}
	return out
}

type sdpDecode struct {
	want, old, errs []*decRun
	of              []int
	T               types.Type
	und             map[string]bool
}

func (p *Prog) sdpDecoded() *sdpDecode {
	if p.sdpDec != nil {
		return p.sdpDec
	}
	d := &sdpDecode{und: map[string]bool{}}
	p.sdpDec = d
	_, dec := p.decoderFns()
	if dec == nil || len(dec.Params) != 2 {
		d.und["NewDecoder or Decoder.Decode not found"] = true
		return d
	}
	d.T = deref(dec.Params[1].Type())
	cs, of := wantCases()
	d.of = of
	add := func(to *[]*decRun, c decCase, fill func(m *eqModel, st *State, T types.Type) Val) {
		r := followDecode(p, c, fill)
		if r.gaveUp != "" {
			d.und["decoding "+c.name+": "+r.gaveUp] = true
		}
		*to = append(*to, r)
	}
	for _, c := range cs {
		add(&d.want, c, blankMessage)
		add(&d.old, c, oldMessage)
	}
	for _, c := range errorCases() {
		add(&d.errs, c, blankMessage)
	}
	return d
}

func (d *sdpDecode) report(r *Result) {
	n, ok, steps := 0, 0, 0
	for _, l := range [][]*decRun{d.want, d.old, d.errs} {
		for _, x := range l {
			n++
			steps += x.steps
			for _, e := range x.exits {
				if e.err == 1 {
					ok++
				}
			}
		}
	}
	r.coverage["decoder_runs"] = n
	r.coverage["accepting_paths"] = ok
	r.coverage["interpreted_steps"] = steps
	for u := range d.und {
		r.report("undecided", "sdp", "-", "%s", u)
	}
	r.require("paths on which decoding succeeds", ok, 20)
}

const decExpl = "Decoder.Decode is followed, every path on its own, on descriptions made of one to three lines: every line type in every section it may stand in, its value arbitrary or made of the sub-fields the format gives it (each an arbitrary text), valid and invalid ones. "

func init() {
	checks["S03"] = checkS03
	checks["S04"] = checkS04
	checks["S05"] = func(p *Prog, r *Result) { checkStored(p, r, true) }
}

func checkS03(p *Prog, r *Result) {
	d := p.sdpDecoded()
	r.explanation = decExpl + "Before decoding every part of the message holds something of its own; afterwards every part the lines of a section do not belong to must be what it was, and the parts of a new media description its own lines do not set must be blank."
	d.report(r)
	ctor, dec := p.decoderFns()
	if ctor == nil || dec == nil {
		return
	}
	for _, run := range d.old {
		c := &run.c
		for _, x := range run.exits {
			if x.err == 0 || x.after == nil || x.st.inexact {
				continue
			}
			d.sectionsKept(p, r, c, x)
		}
	}
	r.require("parts compared", r.obligations, 500)
}

func (d *sdpDecode) sectionsKept(p *Prog, r *Result, c *decCase, x *decExit) {
	secs := c.sections()
	allowed := []string{}
	for i, l := range c.lines {
		if secs[i] < 0 {
			allowed = append(allowed, sessionPart[l.typ])
		} else {
			// one media description was there before
			allowed = append(allowed, fmt.Sprintf("Medias[%d].%s", secs[i]+1, mediaPart[l.typ]))
		}
		if l.typ == 'm' {
			allowed = append(allowed, "Medias.len")
		}
	}
	may := func(path string) bool {
		for _, a := range allowed {
			if strings.HasPrefix(path, a) {
				return true
			}
		}
		return false
	}
	m := &eqModel{in: x.st.in}
	type part struct {
		T types.Type
		v Val
	}
	before := map[string]part{}
	x.leaves(nil, d.T, x.before, "", func(path string, T types.Type, v Val) { before[path] = part{T, v} })
	holder := map[ObjID][]string{}
	last := c.lines[len(c.lines)-1]
	_, dec := p.decoderFns()
	where := fmt.Sprintf("%c= line", last.typ)
	bad := func(path, what string) {
		r.report("foreign-part", where, p.pos(dec.Pos()), "decoding %q: %s %s", c.name, path, what)
	}
	x.leaves(nil, d.T, x.after, "", func(path string, T types.Type, v Val) {
		if q, ok := v.(Ptr); ok {
			for _, l := range q.Locs {
				holder[l.obj] = append(holder[l.obj], path)
			}
		}
		if may(path) {
			return
		}
		r.obligations++
		b, ok := before[path]
		if !ok {
			// part of a new media description
			b = part{T, x.st.zero(T)}
			if strings.HasSuffix(path, ".len") {
				b.v = Int{K(0)}
			}
			if m.changed(x.st, T, b.v, v) == 1 {
				bad(path, "is not blank though no line of its section sets it")
			}
			return
		}
		if m.changed(x.st, T, b.v, v) == 1 {
			bad(path, "is changed though no line of its section sets it")
		}
	})
	for path, b := range before {
		if q, ok := b.v.(Ptr); ok {
			for _, l := range q.Locs {
				holder[l.obj] = append(holder[l.obj], path)
			}
		}
	}
	for _, e := range x.mapUpd {
		for _, h := range holder[e.obj] {
			r.obligations++
			if !may(h) {
				bad(h, "gets an entry though no line of its section sets it")
			}
		}
	}
}

// changed: 1 the value is certainly another one, 0 the same, -1 not known.
func (m *eqModel) changed(st *State, T types.Type, a, b Val) int {
	if fmt.Sprint(a) == fmt.Sprint(b) {
		return 0
	}
	switch x := a.(type) {
	case Int:
		if y, ok := b.(Int); ok {
			switch st.eval(cEQ(x.L.sub(y.L))) {
			case 1:
				return 0
			}
			return 1 // other numbers were possible as well
		}
	case Str:
		if y, ok := b.(Str); ok {
			if st.eval(st.strCond(x.T, y.T)) == 1 {
				return 0
			}
			return 1
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if st.isNil(x.N) == triNil && st.isNil(y.N) == triNil {
				return 0
			}
			if len(x.Objs) == 1 && len(y.Objs) == 1 && x.Objs[0] == y.Objs[0] && x.Off.eq(y.Off) && x.Len.eq(y.Len) {
				return 0
			}
			if x.Len.isK() && y.Len.isK() && x.Len.c == 0 && y.Len.c == 0 {
				return 0
			}
			return 1
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if st.isNil(x.N) == triNil && st.isNil(y.N) == triNil {
				return 0
			}
			if len(x.Locs) == 1 && len(y.Locs) == 1 && x.Locs[0].obj == y.Locs[0].obj {
				return 0
			}
			if st.isNil(x.N) == triNil && len(y.Locs) == 1 {
				if o := st.objOf(y.Locs[0].obj); o != nil && o.mp != nil && o.mp.vdef == nil && len(o.mp.ents) == 0 {
					return 0 // an empty map
				}
			}
			return 1
		}
	case Opaque:
		if _, ok := b.(Opaque); ok {
			return 1
		}
	}
	return -1
}

func checkS04(p *Prog, r *Result) {
	d := p.sdpDecoded()
	r.explanation = decExpl + "On every path on which a number does not parse, a decoding function of the package returns an error or a line is found unexpected, Decode has to return an error; and no path on which it returns none may begin with, or have in a time or media section, a line of a type that cannot stand there."
	d.report(r)
	_, dec := p.decoderFns()
	if dec == nil {
		return
	}
	raised := 0
	for _, l := range [][]*decRun{d.errs, d.want} {
		for _, run := range l {
			c := &run.c
			for _, x := range run.exits {
				if x.raised != "" {
					raised++
				}
				if x.err == 0 || x.st.inexact {
					continue
				}
				r.obligations++
				if x.raised != "" {
					if x.err == 1 {
						r.report("error-discarded", x.raised, p.pos(dec.Pos()), "decoding %q: an error returned by %s does not make decoding fail", c.name, x.raised)
					} else {
						r.report("undecided", x.raised, p.pos(dec.Pos()), "whether decoding fails is not known")
					}
				}
				if x.err == 1 && c.misplaced() {
					l := c.lines[len(c.lines)-1].typ
					r.report("unexpected-line-accepted", fmt.Sprintf("%q", l), p.pos(dec.Pos()), "decoding %q: the last line is accepted though it cannot stand there", c.name)
				}
				// the type of an arbitrary line is known to be one that may stand there
				for i, ln := range c.lines {
					if ln.typ != 0 || x.err != 1 {
						continue
					}
					ok := sdpLetters
					if i > 0 && c.lines[i-1].typ == 'm' {
						ok = "micbka"
					} else if i > 0 && c.lines[i-1].typ == 't' {
						ok = "trzkamicb"
					}
					t := x.lineType(i)
					for _, ch := range candidates(ok) {
						if x.st.eval(cEQ(t.addK(-ch))) != 0 {
							r.report("unexpected-line-accepted", fmt.Sprintf("%q", rune(ch)), p.pos(dec.Pos()), "decoding %q: a line of type %q is accepted", c.name, rune(ch))
						}
					}
				}
			}
		}
	}
	r.require("paths with an error", raised, 50)
}

// lineType is the number of the type of a line.
func (x *decExit) lineType(i int) Lin {
	v := x.st.expand(Opaque{T: types.Typ[types.Rune], Label: fmt.Sprintf("type%d", i)})
	if n, ok := v.(Int); ok {
		return n.L
	}
	return LS(newSym("type", 0, 0x10ffff))
}

func candidates(ok string) (out []int64) {
	for ch := int64(0); ch < 256; ch++ {
		if !strings.ContainsRune(ok, rune(ch)) {
			out = append(out, ch)
		}
	}
	return append(out, 0x100, 0x2028, 0xfffd, 0x10ffff)
}

// checkStored compares what is stored with the table: the numbers for S05,
// where it comes from for S09.
func checkStored(p *Prog, r *Result, numbers bool) {
	d := p.sdpDecoded()
	d.report(r)
	r.explanation = decExpl + "On every accepting path every numeric part of the message must be the number its sub-field holds (durations: times the unit), whatever that number is: a path on which a value is stored that went through a narrowing conversion or an overflowing multiplication, or is another number, is reported."
	for i, run := range d.want {
		w := decWants[d.of[i]]
		for _, x := range run.exits {
			if x.err == 0 || x.after == nil || x.st.inexact {
				continue
			}
			d.stored(p, r, w, &run.c, x, numbers)
		}
	}
	r.require("stored values compared", r.obligations, 50)
}

var unitOf = map[byte]int64{'d': 86400e9, 'h': 3600e9, 'm': 60e9, 's': 1e9, '9': 1e9}

func (d *sdpDecode) stored(p *Prog, r *Result, w decWant, c *decCase, x *decExit, numbers bool) {
	// which line, in which section
	li := -1
	for i, l := range c.lines {
		if l.pat {
			li = i
		}
	}
	if li < 0 {
		return
	}
	sec := c.sections()[li]
	want, prefix := w.session, ""
	if sec >= 0 {
		prefix = fmt.Sprintf("Medias[%d].", sec)
		if want = w.media; want == nil {
			want = w.session
		}
	}
	_, dec := p.decoderFns()
	// the fields of the line
	var fields []*Term
	for j, ch := range c.lines[li].val {
		if ch == 'F' {
			fields = append(fields, fieldTerm(x.st, fmt.Sprintf("field%d", j)))
		}
	}
	got := map[string]Val{}
	maps := map[ObjID]string{}
	x.leaves(nil, d.T, x.after, "", func(path string, T types.Type, v Val) {
		got[path] = v
		if q, ok := v.(Ptr); ok && len(q.Locs) == 1 {
			maps[q.Locs[0].obj] = path
		}
	})
	where := func(path string) string { return strings.TrimSpace(w.pre+" "+w.line) + " -> " + path }
	for _, path := range sortedStrKeys(want) {
		src := want[path]
		full := prefix + path
		if path == "Medias.len" {
			full = path
		}
		var v Val
		number := strings.HasSuffix(full, "#")
		full = strings.TrimSuffix(full, "#")
		if k := strings.IndexByte(full, '{'); k >= 0 {
			key := full[k+1 : len(full)-1]
			kt := tConst(key)
			if key == "F" {
				kt = fields[0]
			}
			for _, e := range x.mapUpd {
				if maps[e.obj] == full[:k] && x.st.eval(x.st.strCond(x.st.in.text(x.st, e.k), kt)) == 1 {
					v = e.v
				}
			}
			if v == nil {
				if !numbers {
					r.obligations++
					r.report("field-lost", where(path), p.pos(dec.Pos()), "decoding %q succeeds without an entry of %s for it", c.name, full[:k])
				}
				continue
			}
			if s, ok := v.(Slice); ok {
				// the values under the key
				if number {
					v = Int{s.Len}
				} else if ob := x.st.objOf(firstObj(s)); ob != nil && ob.arr != nil && s.Len.isK() && s.Len.c >= 1 {
					v = x.st.expandAll(x.st.readElem(ob, s.Off.add(s.Len).addK(-1)))
				}
			}
		} else if v = got[full]; v == nil {
			if !numbers {
				r.obligations++
				r.report("field-lost", where(path), p.pos(dec.Pos()), "decoding %q succeeds but there is no %s", c.name, full)
			}
			continue
		}
		d.compare(p, r, x, fields, src, v, numbers, where(path), fmt.Sprintf("decoding %q: %s", c.name, full))
	}
}

func firstObj(s Slice) ObjID {
	if len(s.Objs) == 1 {
		return s.Objs[0]
	}
	return ""
}

func (d *sdpDecode) compare(p *Prog, r *Result, x *decExit, fields []*Term, src string, v Val, numbers bool, where, what string) {
	_, dec := p.decoderFns()
	pos := p.pos(dec.Pos())
	st := x.st
	if src == "" || src[0] == 's' {
		if numbers {
			return
		}
		r.obligations++
		want := tConst("")
		if src != "" {
			var ps []*Term
			for i := 0; i < len(src); i++ {
				if src[i] == 's' {
					i++
					ps = append(ps, fields[src[i]-'0'])
				} else {
					ps = append(ps, tConst(src[i:i+1]))
				}
			}
			want = tCat(ps...)
		}
		s, ok := v.(Str)
		if !ok || st.eval(st.strCond(s.T, want)) != 1 {
			r.report("other-text-stored", where, pos, "%s is not the text of its sub-field", what)
		}
		return
	}
	switch src[0] {
	case 'L':
		if numbers {
			return
		}
		r.obligations++
		n, ok := v.(Int)
		if ok && st.eval(cEQ(n.L.addK(-int64(src[1]-'0')))) == 0 {
			r.report("list-lost", where, pos, "%s is %s, not %s", what, n.L, src[1:])
		}
		return
	case 'i', 't':
		if numbers {
			return
		}
		f := fields[src[1]-'0']
		r.obligations++
		dep := st.depsOf(v)
		if len(dep) == 0 {
			return // the zero value, or no address
		}
		if len(f.deps) != 1 || len(dep) != 1 || dep[0] != f.deps[0] {
			r.report("other-source", where, pos, "%s is not made from its sub-field", what)
		}
		return
	}
	if src[0] == '4' || src[0] == '6' {
		// depends on the kind of address: one of them gets it, the other 0
		n, ok := v.(Int)
		if ok && n.L.isK() && n.L.c == 0 {
			return
		}
		src = src[1:]
	}
	r.obligations++
	n, ok := v.(Int)
	if !ok {
		r.report("undecided", where, pos, "%s is not a number the analysis knows", what)
		return
	}
	if src == "0" {
		if !numbers && st.eval(cEQ(n.L)) != 1 {
			r.report("other-number-stored", where, pos, "%s is %s, not 0", what, n.L)
		}
		return
	}
	f := fields[src[1]-'0']
	unit := int64(1)
	if src[0] == 'd' {
		unit = unitOf[src[2]]
		if src[2] == '9' {
			f = tCat(f, tConst("9"))
		}
	}
	// numbers parsed from this field
	id := fmt.Sprintf("(t%d)", f.id)
	for _, t := range n.L.t {
		name := t.s.info().name
		for _, op := range []string{"and(", "%(", "rem(", "mod(", "/(", "quo(", "<<(", ">>("} {
			if strings.HasPrefix(name, op) {
				if numbers {
					r.report("number-altered", where, pos, "%s is the result of an operation that can change the number (%s)", what, name)
				}
				return
			}
		}
		if strings.HasPrefix(name, "wrap(") || strings.HasPrefix(name, "conv") || strings.HasPrefix(name, "num") && strings.Contains(name, ".bit") {
			if numbers {
				r.report("number-altered", where, pos, "%s is stored after a conversion or multiplication that can change it (%s)", what, name)
			}
			return
		}
	}
	if len(n.L.t) == 1 && strings.HasPrefix(n.L.t[0].s.info().name, "num") && strings.HasSuffix(n.L.t[0].s.info().name, id) {
		if _, hi := st.poly.quickBounds(n.L.t[0].s); strings.HasPrefix(n.L.t[0].s.info().name, "num64true") && hi == noHi && numbers {
			r.report("number-altered", where, pos, "%s is an unsigned number that need not fit", what)
		}
		if n.L.t[0].k != unit || n.L.c != 0 {
			r.report("number-altered", where, pos, "%s is %s, not the number times %d", what, n.L, unit)
		}
		return
	}
	if len(n.L.t) == 1 && strings.HasPrefix(n.L.t[0].s.info().name, "num") {
		if !numbers {
			r.report("other-source", where, pos, "%s is the number of another sub-field", what)
		}
		return
	}
	if n.L.isK() {
		for y, s := range syms.byK {
			if strings.HasPrefix(y, "num") && strings.HasSuffix(y, id) && mentions(st, s) {
				if st.eval(cEQ(LS(s).scale(unit).sub(n.L))) != 1 && numbers {
					r.report("number-altered", where, pos, "%s is %d whatever the number is", what, n.L.c)
				}
				return
			}
		}
		if !numbers {
			r.report("field-lost", where, pos, "%s is %d, the sub-field is ignored", what, n.L.c)
		}
		return
	}
	r.report("undecided", where, pos, "%s is %s", what, n.L)
}

// mentions: the number was parsed successfully on this path.
func mentions(st *State, s Sym) bool {
	name := s.info().name
	return st.facts["isnum"+strings.TrimPrefix(name, "num")]
}

func debugDec(p *Prog) {
	for _, c := range decCases() {
		if x := os.Getenv("CASE"); x != "" && !strings.Contains(c.name, x) {
			continue
		}
		fill := blankMessage
		if os.Getenv("OLD") != "" {
			fill = oldMessage
		}
		r := followDecode(p, c, fill)
		fmt.Printf("%s: %d exits %s\n", c.name, len(r.exits), r.gaveUp)
		for _, x := range r.exits {
			fmt.Printf("   err=%d raised=%q inexact=%v\n", x.err, x.raised, x.st.inexact)
			if x.err == 0 && os.Getenv("ERRS") == "" || x.after == nil {
				continue
			}
			_, dec := p.decoderFns()
			var out []string
			x.leaves(nil, deref(dec.Params[1].Type()), x.after, "", func(path string, T types.Type, v Val) {
				s := fmt.Sprintf("%v", v)
				if len(s) > 90 {
					s = s[:90]
				}
				out = append(out, fmt.Sprintf("      %s: %s deps=%v", path, s, x.st.depsOf(v)))
			})
			for _, e := range x.mapUpd {
				out = append(out, fmt.Sprintf("      map %s[%v]=%v  deps %v %v", e.obj, e.k, e.v, x.st.depsOf(e.k), x.st.depsOf(e.v)))
			}
			fmt.Println(strings.Join(out, "\n"))
		}
	}
	sort.Strings(nil)
}

func sortedStrKeys(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
