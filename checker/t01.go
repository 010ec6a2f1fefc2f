package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// T01: a delivered message is one unit of the stream.
//
// The function that takes a message from the stream is interpreted on a
// symbolic stream, of which every read returns any part: what it returns has
// to be exactly the bytes taken from the stream, as many as the header
// declares, or the text up to its end and the content it declares. The stream
// protocol of the client is interpreted on any header.

type frameModel struct {
	p     *Prog
	r     *Result
	und   map[string]bool
	paths int
	kinds map[string]int
}

func checkT01(p *Prog, r *Result) {
	r.explanation = "The function that takes one message from the connection is interpreted on a symbolic stream. Reads return all or a part of what was asked for, or fail; the stream protocol declares any length, a text ending with a marker, or nothing. On every path that returns a message its bytes are compared with the bytes of the stream that were taken, and their number with what was declared. The client's stream protocol is interpreted on any header: the length is the big-endian number in bytes 2 and 3 of an interleaved frame, and a response ends with an empty line."
	r.assume = []string{"the stream reader returns the bytes of the connection in order and never more than asked for", "one read of a message is split, at any place, and the text of a response before its marker is followed for a few bytes; longer ones repeat the same passes"}
	m := &frameModel{p: p, r: r, und: map[string]bool{}, kinds: map[string]int{}}
	it, _ := p.typeOf(tcpPath, "IStreamProtocol").(*types.Named)
	if it == nil {
		r.report("undecided", "tcpnetwork", "-", "IStreamProtocol was not found")
		return
	}
	uses := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	reach = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				if ci.Call.IsInvoke() && ci.Call.Method.Name() == "UnserializeHeader" {
					return true
				}
				if reach(ci.Call.StaticCallee(), seen) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.conc().fns {
		if pkgOf(f) != tcpPath || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 2 && isErr(res.At(1).Type()) && isBytes(res.At(0).Type()) && reach(f, map[*ssa.Function]bool{}) {
			uses[f] = true
		}
	}
	roots := 0
	var fs []*ssa.Function
	for f := range uses {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		inner := false
		for _, cl := range p.conc().callers[f] {
			if uses[cl.instr.Parent()] {
				inner = true
			}
		}
		if inner {
			continue
		}
		roots++
		for _, kind := range []string{"frame", "text", "unknown"} {
			m.run(f, kind)
		}
	}
	m.protocol(it)
	r.coverage["paths_that_return_a_message"] = m.kinds
	r.coverage["paths"] = m.paths
	r.require("functions taking a message from the stream", roots, 1)
	var us []string
	for u := range m.und {
		us = append(us, u)
	}
	sort.Strings(us)
	if len(us) == 0 {
		r.require("paths returning a frame", m.kinds["frame"], 1)
		r.require("paths returning a response", m.kinds["text"], 1)
	}
	r.coverage["undecided"] = us
	for _, u := range us {
		fmt.Println("UNDECIDED property=T01 " + u)
	}
}

func (m *frameModel) guard(f *ssa.Function) {
	if e := recover(); e != nil {
		if g, ok := e.(giveUp); ok {
			m.und[fname(f)+": "+g.why] = true
			return
		}
		m.und[fmt.Sprintf("%s: %v", fname(f), e)] = true
	}
}

const frameHeader = 4

func (m *frameModel) run(f *ssa.Function, kind string) {
	defer m.guard(f)
	h := &Hooks{}
	h.inline = func(in *Interp, st *State, g *ssa.Function) bool { return true }
	in := newInterp(m.p, h)
	in.exact = 9
	in.exactCap = 4000
	in.maxStep = 400000
	in.modular = true
	in.deadline = time.Now().Add(60 * time.Second)
	stream := tSym("stream", nil)
	pos := func(st *State) Lin { return ghostInt(st, "pos") }
	why := ""
	byteT := types.Typ[types.Byte]
	take := func(in *Interp, st *State, ev *CallEv, buf Slice, full bool) []outcome {
		var outs []outcome
		step := func(st *State, n Lin) {
			at := pos(st)
			in.copyInto(st, ev.instr, buf, Str{tSub(stream, at, at.add(n))}, n, byteT)
			st.setGhost("pos", Int{at.add(n)})
			outs = append(outs, outcome{st: st, vals: []Val{Int{n}, Iface{N: isNil}}})
		}
		g := st.clone()
		outs = append(outs, outcome{st: g, vals: []Val{Int{K(0)}, in.newErr("read error")}})
		if !full && len(st.tag("parts")) < 1 && !st.poly.refutes(buf.Len.addK(-2)) {
			part := st.clone()
			n := LS(newSym("part", 1, maxLen))
			part.addGE(buf.Len.sub(n).addK(-1))
			part.setTag("parts", part.tag("parts")+"1")
			step(part, n)
		}
		step(st, buf.Len)
		return outs
	}
	h.call = func(in *Interp, st *State, ev *CallEv) ([]outcome, bool) {
		if ev.method != nil && ev.common.IsInvoke() && tname(ev.common.Value.Type()) == "tcpnetwork.IStreamProtocol" {
			switch ev.method.Name() {
			case "GetHeaderLength":
				return []outcome{{st: st, vals: []Val{Int{K(frameHeader)}}}}, true
			case "UnserializeHeader":
				s, ok := ev.args[len(ev.args)-1].(Slice)
				if !ok {
					why = "the header is not known"
					return nil, false
				}
				ss, ok := spans(st, stream, K(0), K(frameHeader))
				if res, w := compareContent(st, in.sliceTerm(st, s), ss); ok && res == 0 && !st.inexact {
					m.r.report("header", fname(f), m.p.pos(ev.instr.Pos()), "the header asked about is not the first %d bytes of the unit: %s", frameHeader, w)
				}
				none := Slice{N: isNil, Len: K(0), Cap: K(0), Off: K(0)}
				switch kind {
				case "frame":
					n := LS(newSym("declared", 0, 65535))
					st.setGhost("declared", Int{n})
					return []outcome{{st: st, vals: []Val{Int{n}, none}}}, true
				case "text":
					a := &Arr{elem: byteT, n: K(4), bytes: true, segs: []Seg{{K(0), K(4), tConst("\r\n\r\n"), K(0)}}, def: topByte, label: "marker"}
					st.setObj(&Obj{id: "marker", T: byteT, kind: 'a', arr: a, site: "the marker", flags: map[string]bool{"input": true}})
					return []outcome{{st: st, vals: []Val{Int{K(0)}, Slice{N: nonNil, Objs: []ObjID{"marker"}, Off: K(0), Len: K(4), Cap: K(4)}}}}, true
				}
				return []outcome{{st: st, vals: []Val{Int{K(-1)}, none}}}, true
			case "GetContentLength":
				s, ok := ev.args[len(ev.args)-1].(Slice)
				if !ok {
					why = "the text is not known"
					return nil, false
				}
				at := pos(st)
				if ss, ok := spans(st, stream, K(0), at); ok && !st.inexact {
					if res, w := compareContent(st, in.sliceTerm(st, s), ss); res == 0 {
						m.r.report("text", fname(f), m.p.pos(ev.instr.Pos()), "the text asked about is not what was taken from the stream: %s", w)
					}
				}
				n := K(0)
				if kind == "text" {
					n = LS(newSym("content", -maxLen, maxLen))
				}
				st.setGhost("end", Int{at})
				st.setGhost("content", Int{n})
				return []outcome{{st: st, vals: []Val{Int{n}}}}, true
			}
			return nil, false
		}
		op := ""
		if ev.fn != nil && !m.p.inModule(ev.fn) {
			op = ev.name
		} else if ev.method != nil && ev.common.IsInvoke() {
			switch ev.common.Value.Type().String() {
			case "net.Conn", "io.Reader":
				op = "stream." + ev.method.Name()
			}
		}
		switch {
		case strings.HasSuffix(op, "bufio.Reader).Read") || op == "stream.Read":
			if b, ok := ev.args[1].(Slice); ok {
				return take(in, st, ev, b, false), true
			}
		case op == "io.ReadFull":
			if b, ok := ev.args[1].(Slice); ok {
				return take(in, st, ev, b, true), true
			}
		case strings.Contains(op, "bufio.Rea") || strings.HasPrefix(op, "io."):
			why = "uses " + op
		}
		return nil, false
	}
	st := newState(in)
	st.setGhost("pos", Int{K(0)})
	st.addGE(stream.n.addK(-(1 << 30)))
	var args []Val
	for _, q := range f.Params {
		v := st.expand(Opaque{T: q.Type(), Label: fname(f) + "." + q.Name(), NN: true})
		args = append(args, v)
		if s, ok := v.(Slice); ok {
			st.addGE(s.Len.neg().addK(maxLen))
		}
		p, ok := v.(Ptr)
		if !ok || len(p.Locs) != 1 {
			continue
		}
		// what the connection is made of
		if u, ok := deref(q.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				switch u.Field(i).Type().Underlying().(type) {
				case *types.Interface, *types.Pointer:
					l := p.Locs[0].sub(Step{field: i})
					st.store(l, st.expand(Opaque{T: u.Field(i).Type(), Label: u.Field(i).Name(), NN: true}), u.Field(i).Type())
				}
			}
		}
	}
	in.push(st, f, args, nil, "stream")
	n := 0
	for _, o := range in.runFn(st) {
		m.paths++
		m.r.obligations++
		if o.panicked || len(o.vals) != 2 {
			continue
		}
		e, ok := o.vals[1].(Iface)
		if ok && o.st.isNil(e.N) == triNon {
			continue
		}
		s, ok2 := o.vals[0].(Slice)
		if !ok || !ok2 || o.st.isNil(e.N) != triNil {
			why = "the result is not known"
			continue
		}
		if o.st.inexact {
			why = "a path was not followed exactly"
			continue
		}
		n++
		m.kinds[kind]++
		at := pos(o.st)
		ss, ok := spans(o.st, stream, K(0), at)
		if !ok {
			why = "the bytes taken are not known"
			continue
		}
		switch res, w := compareContent(o.st, in.sliceTerm(o.st, s), ss); {
		case res == 0:
			m.r.report("other-bytes", fname(f), m.p.pos(f.Pos()), "a message (%s) is not the bytes taken from the stream: %s", kind, w)
			continue
		case res < 0:
			why = w
			continue
		}
		switch kind {
		case "frame":
			if d := ghostInt(o.st, "declared").addK(frameHeader); !o.st.poly.entailsEq(at, d) {
				m.r.report("length", fname(f), m.p.pos(f.Pos()), "%s bytes are taken for a frame that declares %s with its header", at, d)
			}
		case "text":
			if _, ok := o.st.ghost["end"].(Int); !ok {
				m.r.report("length", fname(f), m.p.pos(f.Pos()), "a response is returned without asking for the length of its content")
				continue
			}
			if d := ghostInt(o.st, "end").add(ghostInt(o.st, "content")); !o.st.poly.entailsEq(at, d) {
				m.r.report("length", fname(f), m.p.pos(f.Pos()), "%s bytes are taken for a response of %s bytes with its content", at, d)
			}
		}
	}
	if why != "" {
		m.und[fname(f)+" ("+kind+"): "+why] = true
	} else if n == 0 && kind != "unknown" {
		m.und[fname(f)+" ("+kind+"): no path that returns a message was found"] = true
	}
}

// protocol interprets the client's stream protocol on any header.
func (m *frameModel) protocol(it *types.Named) {
	iface := it.Underlying().(*types.Interface)
	n := 0
	for _, pk := range m.p.pkgs {
		if pk.Pkg.Path() != modPath {
			continue
		}
		for _, mem := range pk.Members {
			t, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) || !types.Implements(types.NewPointer(t.Type()), iface) {
				continue
			}
			ms := m.p.ssa.MethodSets.MethodSet(types.NewPointer(t.Type()))
			for k := 0; k < ms.Len(); k++ {
				if f := m.p.ssa.MethodValue(ms.At(k)); f != nil && f.Blocks != nil && ms.At(k).Obj().Name() == "UnserializeHeader" {
					n++
					for _, kind := range []string{"$", "RTSP", "rtsp"} {
						m.header(f, kind)
					}
				}
			}
		}
	}
	m.r.require("stream protocols of the client", n, 1)
}

func (m *frameModel) header(f *ssa.Function, kind string) {
	defer m.guard(f)
	h := &Hooks{}
	h.inline = func(in *Interp, st *State, g *ssa.Function) bool { return true }
	in := newInterp(m.p, h)
	in.exact = 6
	in.exactCap = 60
	in.modular = true
	in.deadline = time.Now().Add(20 * time.Second)
	st := newState(in)
	var args []Val
	var hd *Term
	for k, q := range f.Params {
		if k > 0 && isBytes(q.Type()) {
			// the header: what it begins with, and anything
			a := &Arr{elem: types.Typ[types.Byte], n: K(frameHeader), bytes: true, def: topByte, label: "header"}
			a.segs = []Seg{{K(0), K(int64(len(kind))), tConst(kind), K(0)}}
			if len(kind) < frameHeader {
				rest := tSym("rest of the header", nil)
				st.addEQ(rest.n.addK(int64(len(kind) - frameHeader)))
				a.segs = append(a.segs, Seg{K(int64(len(kind))), K(frameHeader), rest, K(0)})
			}
			st.setObj(&Obj{id: "header", T: types.Typ[types.Byte], kind: 'a', arr: a, site: "the header", flags: map[string]bool{"input": true}})
			s := Slice{N: nonNil, Objs: []ObjID{"header"}, Off: K(0), Len: K(frameHeader), Cap: K(frameHeader)}
			args = append(args, s)
			hd = in.sliceTerm(st, s)
			continue
		}
		args = append(args, st.expand(Opaque{T: q.Type(), Label: "protocol." + q.Name(), NN: true}))
	}
	if hd == nil {
		m.und[fname(f)+": the header is not known"] = true
		return
	}
	in.push(st, f, args, nil, "protocol")
	n := 0
	for _, o := range in.runFn(st) {
		if o.panicked || len(o.vals) != 2 {
			continue
		}
		m.paths++
		m.r.obligations++
		l, ok := o.vals[0].(Int)
		s, ok2 := o.vals[1].(Slice)
		if !ok || !ok2 || o.st.inexact || imprecise(l.L.String()) {
			m.und[fname(f)+": the result is not known"] = true
			continue
		}
		n++
		if kind == "$" {
			want := o.st.byteAt(hd, K(2)).scale(256).add(o.st.byteAt(hd, K(3)))
			if o.st.isNil(s.N) != triNil || !o.st.poly.entailsEq(l.L, want) {
				m.r.report("declared-length", fname(f), m.p.pos(f.Pos()), "the length of an interleaved frame is %s, not the big-endian number %s of its header", l.L, want)
			}
			continue
		}
		if o.st.isNil(s.N) == triNil || o.st.poly.refutes(s.Len.addK(-1)) {
			m.r.report("marker", fname(f), m.p.pos(f.Pos()), "a response (%s) is not read up to a marker", kind)
			continue
		}
		t := in.sliceTerm(o.st, s)
		ss, ok := spans(o.st, tConst("\r\n\r\n"), K(0), K(4))
		if !ok {
			continue
		}
		if res, w := compareContent(o.st, t, ss); res == 0 {
			m.r.report("marker", fname(f), m.p.pos(f.Pos()), "a response (%s) ends with another marker than an empty line: %s", kind, w)
		} else if res < 0 {
			m.und[fname(f)+": "+w] = true
		}
	}
	if n == 0 {
		m.und[fname(f)+" ("+kind+"): no result was found"] = true
	}
}

func init() { checks["T01"] = checkT01 }
