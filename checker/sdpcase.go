package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Runs of the decoder on a session whose lines are given: some with known
// content, one with a known type and any value.

type decLine struct {
	typ rune // 0: any type
	val string
	any bool // any value
	pat bool // val is a pattern: F stands for any field of 7 bytes

	none bool // the value is nil
}

type decCase struct {
	name  string
	lines []decLine
}

var sdpLetters = "vosiuepcbtrzkam"

// decCases lists one line of every type where it may stand.
func decCases() []decCase {
	var out []decCase
	media := decLine{typ: 'm', val: "audio 5004 RTP/AVP 0"}
	timing := decLine{typ: 't', val: "0 0"}
	for _, t := range sdpLetters {
		l := decLine{typ: t, any: true}
		switch t {
		case 'r':
			out = append(out, decCase{"r= after t=", []decLine{timing, l}})
		case 'm':
			out = append(out, decCase{"m=", []decLine{l}})
			out = append(out, decCase{"m= after m=", []decLine{media, l}})
		case 't':
			out = append(out, decCase{"t=", []decLine{l}})
			out = append(out, decCase{"t= after t=", []decLine{timing, l}})
		default:
			out = append(out, decCase{string(t) + "=", []decLine{l}})
			if strings.ContainsRune("icbka", t) {
				out = append(out, decCase{string(t) + "= after m=", []decLine{media, l}})
			}
			if strings.ContainsRune("z", t) {
				out = append(out, decCase{string(t) + "= after t=", []decLine{timing, l}})
			}
		}
	}
	// values made of fields
	for _, x := range decPatterns {
		l := decLine{typ: rune(x[0]), val: x[2:], pat: true}
		switch x[0] {
		case 'r':
			out = append(out, decCase{x, []decLine{timing, l}})
		default:
			out = append(out, decCase{x, []decLine{l}})
		}
		if strings.ContainsRune("icbka", l.typ) {
			out = append(out, decCase{x + " after m=", []decLine{media, l}})
		}
	}
	out = append(out, decCase{"any line", []decLine{{any: true}}})
	out = append(out, decCase{"any line after m=", []decLine{media, {any: true}}})
	out = append(out, decCase{"any line after t=", []decLine{timing, {any: true}}})
	return out
}

var decPatterns = []string{
	"o=", "o=F", "o=F F", "o=F F F", "o=F F F F", "o=F F F F F", "o=F F F F F F", "o=F F F F F F F", "o=     ",
	"c=", "c=F", "c=F F", "c=F F F", "c=F F F F", "c=F F F F F", "c=F F F/F", "c=F F F/F/F", "c=F F F/F/F/F", "c=F IP4 F", "c=F IP4 F/F", "c=F IP4 F/F/F",
	"c=F IP6 F", "c=F IP6 F/F", "c=F IP6 F/F/F", "c=F F F/", "c=F F /F", "c=  ", "c=  //", "c=F F F F/F",
	"b=", "b=F", "b=F:F", "b=F:", "b=:F", "b=F:F:F", "b=F F",
	"a=", "a=F", "a=F:F", "a=F:", "a=:F", "a=F:F:F", "a=F F",
	"k=", "k=F", "k=F:F", "k=F:", "k=:F", "k=F:F:F",
	"t=", "t=F", "t=F F", "t=F F F", "t= ", "t=  ",
	"r=", "r=F", "r=F F", "r=F F F", "r=F F F F", "r=F F F F F", "r=  ", "r=   ", "r=    ", "r=F ", "r=d", "r=d d d", "r=F d F F", "r=- - -",
	"z=", "z=F", "z=F F", "z=F F F", "z=F F F F", "z=F F F F F", "z=F F F F F F", "z= ", "z=  ", "z=   ", "z=F ", "z=d d",
	"m=", "m=F", "m=F F", "m=F F F", "m=F F F F", "m=F F F F F", "m=F F/F F F", "m=F F/F/F F F", "m=F F/ F F", "m=F /F F F", "m=   ", "m=F F/F", "m=F F/F F", "m=/ / / /",
	"v=", "v=F", "s=", "i=", "u=", "e=", "p=",
}

// fieldTerm is a field of 7 bytes without separators.
func fieldTerm(st *State, name string) *Term {
	var ps []*Term
	for i := 0; i < 7; i++ {
		b := keyedSym(fmt.Sprintf("%s.%d", name, i), 33, 126)
		b.info().deps = []string{name}
		st.addNE(LS(b).addK(-'/'))
		st.addNE(LS(b).addK(-':'))
		ps = append(ps, tByte(LS(b)))
	}
	return tCat(ps...)
}

// decoderFns finds the constructor and the decoding method.
func (p *Prog) decoderFns() (ctor, dec *ssa.Function) {
	for _, f := range p.apiRoots() {
		if pkgOf(f) != sdpPath {
			continue
		}
		switch {
		case f.Name() == "NewDecoder" && f.Signature.Recv() == nil:
			ctor = f
		case f.Name() == "Decode" && f.Signature.Recv() != nil && strings.HasSuffix(deref(f.Signature.Recv().Type()).String(), ".Decoder"):
			dec = f
		}
	}
	return
}

// sessionOf makes the session value with these lines.
func (in *Interp) sessionOf(st *State, T types.Type, c decCase) (Val, []*Term) {
	elem := T.Underlying().(*types.Slice).Elem()
	u := elem.Underlying().(*types.Struct)
	a := &Arr{elem: elem, n: K(int64(len(c.lines))), def: nil, label: "lines"}
	var texts []*Term
	for i, l := range c.lines {
		f := make([]Val, u.NumFields())
		for k := range f {
			switch x := u.Field(k).Type().Underlying().(type) {
			case *types.Slice:
				t := tConst(l.val)
				if l.any {
					t = tSym(fmt.Sprintf("value%d", i), []string{fmt.Sprintf("value%d", i)})
				}
				if l.pat {
					var ps []*Term
					for j, r := range l.val {
						if r == 'F' {
							ps = append(ps, fieldTerm(st, fmt.Sprintf("field%d", j)))
						} else {
							ps = append(ps, tConst(string(r)))
						}
					}
					t = tCat(ps...)
				}
				texts = append(texts, t)
				if l.none {
					f[k] = st.zero(x)
					continue
				}
				ar := &Arr{elem: x.Elem(), n: t.n, bytes: true, deps: t.deps, def: topByte, label: fmt.Sprintf("value%d", i)}
				if !(t.n.isK() && t.n.c == 0) {
					ar.segs = []Seg{{K(0), t.n, t, K(0)}}
				}
				id := ObjID(fmt.Sprintf("value%d", i))
				st.setObj(&Obj{id: id, T: x.Elem(), kind: 'a', arr: ar, site: "the session", flags: map[string]bool{"input": true}})
				f[k] = Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: t.n, Cap: t.n}
			default:
				if l.typ != 0 {
					f[k] = Int{K(int64(l.typ))}
				} else {
					f[k] = st.expand(Opaque{T: u.Field(k).Type(), Label: fmt.Sprintf("type%d", i)})
				}
			}
		}
		a.ents = append(a.ents, Ent{K(int64(i)), Struct{f}})
	}
	st.setObj(&Obj{id: "lines", T: elem, kind: 'a', arr: a, site: "the session", flags: map[string]bool{"input": true}})
	return Slice{N: nonNil, Objs: []ObjID{"lines"}, Off: K(0), Len: a.n, Cap: a.n}, texts
}

// startDecode makes the decoder and the call of Decode. msg, if set, is the
// message; otherwise it is any.
func (in *Interp) startDecode(p *Prog, c decCase, msg func(st *State, T types.Type) Val) (sts []*State, texts []*Term, err string) {
	ctor, dec := p.decoderFns()
	if ctor == nil || dec == nil {
		return nil, nil, "NewDecoder or Decoder.Decode not found"
	}
	if len(ctor.Params) != 1 || len(dec.Params) != 2 {
		return nil, nil, "NewDecoder or Decoder.Decode has other parameters"
	}
	st := newState(in)
	sv, texts := in.sessionOf(st, ctor.Params[0].Type(), c)
	in.push(st, ctor, []Val{sv}, nil, "new")
	for _, o := range in.runFn(st) {
		if o.panicked {
			continue
		}
		st := o.st
		var d Val = o.vals[0]
		if _, ok := d.(Ptr); !ok {
			T := deref(dec.Params[0].Type())
			st.setObj(&Obj{id: "decoder", T: T, kind: 'v', v: d, site: "the decoder"})
			d = Ptr{N: nonNil, Locs: []Loc{{obj: "decoder"}}}
		}
		var m Val
		if msg != nil {
			m = msg(st, dec.Params[1].Type())
		} else {
			m = st.expand(Opaque{T: dec.Params[1].Type(), Label: "m", NN: true})
		}
		in.push(st, dec, []Val{d, m}, nil, "root:decode")
		sts = append(sts, st)
	}
	return sts, texts, ""
}
