package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// T09: a connection made of a websocket is a byte stream.
//
// Every method of the adapter is followed on all its paths, with an arbitrary
// destination, arbitrary unread data and arbitrary messages. Every call on the
// websocket (or the connection under it) is recorded; at the end of a path
// the bytes given to the caller and those kept, put together, have to be the
// unread bytes and the messages received, the bytes sent those of the
// argument, and the operations asked for have to have been passed on.

type wsModel struct {
	p      *Prog
	r      *Result
	und    map[string]bool
	paths  int
	inner  int // field of the websocket
	rest   int // field with unread bytes, -1
	shape  string
	state  string // a field that may remember the closing
	adapt  *types.Named
	called map[string]bool
}

func isWs(T types.Type) bool {
	n, ok := deref2(T).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == "Conn" && strings.HasSuffix(n.Obj().Pkg().Path(), "gorilla/websocket")
}

func (m *wsModel) bad(rule string, f *ssa.Function, format string, a ...interface{}) {
	m.r.report(rule, fname(f), m.p.pos(f.Pos()), format, a...)
}

func (m *wsModel) run(f *ssa.Function) {
	name := f.Name()
	inexact := ""
	h := &Hooks{}
	h.inline = func(in *Interp, st *State, g *ssa.Function) bool { return true }
	var dst, src Slice
	var tVal string
	in := newInterp(m.p, h)
	in.exact = 6
	in.exactCap = 60
	in.maxStep = 120000
	in.modular = true
	in.deadline = time.Now().Add(20 * time.Second)
	want := func(st *State) *Term {
		if x, ok := st.ghost["unread"].(Str); ok {
			return x.T
		}
		return tConst("")
	}
	var self Ptr
	restOf := func(in *Interp, st *State) (*Term, bool) {
		if m.rest < 0 {
			return tConst(""), true
		}
		u := m.adapt.Underlying().(*types.Struct)
		if len(self.Locs) != 1 {
			return nil, false
		}
		s, ok := st.load(self.Locs[0].sub(Step{field: m.rest}), u.Field(m.rest).Type()).(Slice)
		if !ok {
			return nil, false
		}
		return in.sliceTerm(st, s), true
	}
	reads := 0
	h.call = func(in *Interp, st *State, ev *CallEv) ([]outcome, bool) {
		op, recv := "", false
		if ev.fn != nil && ev.fn.Signature.Recv() != nil && isWs(ev.fn.Signature.Recv().Type()) {
			op, recv = ev.fn.Name(), true
		} else if ev.method != nil && ev.common.IsInvoke() {
			switch ev.common.Value.Type().String() {
			case "net.Conn", "io.Closer":
				op, recv = ev.method.Name(), true
				if op == "Read" || op == "Write" {
					op += " of the socket"
				}
			case "io.Reader", "io.ReadCloser", "io.WriteCloser", "io.Writer":
				op, recv = "stream "+ev.method.Name(), true
			}
		}
		if !recv {
			return nil, false
		}
		m.called[name+" "+op] = true
		note := func(st *State, s string) { st.setTag("did", st.tag("did")+" "+s) }
		fork := func(vals ...Val) []outcome {
			g := st.clone()
			note(st, op+"+")
			note(g, op+"-")
			g.setTag("failed", op)
			return []outcome{{st: st, vals: append(append([]Val{}, vals...), Iface{N: isNil})}, {st: g, vals: append(append([]Val{}, vals...), in.newErr("error"))}}
		}
		switch op {
		case "ReadMessage":
			reads++
			w := want(st)
			if k := st.tag("reads"); k != "" {
				rt, ok := restOf(in, st)
				if ok && st.poly.entailsEq(w.n, K(0)) && st.poly.entailsEq(rt.n, K(0)) {
					return nil, true // as when the method was called
				}
				if len(k) > 3 {
					m.und[fname(f)+": more than four messages may be taken by one call"] = true
					return nil, true
				}
			}
			st.setTag("reads", st.tag("reads")+"1")
			g := st.clone()
			g.setTag("failed", op)
			v := st.expand(Opaque{T: ev.T.At(1).Type(), Label: fmt.Sprintf("message%d", reads), NN: true}).(Slice)
			st.addGE(v.Len.neg().addK(maxLen))
			st.setGhost("unread", Str{tCat(w, in.sliceTerm(st, v))})
			mt := st.expand(Opaque{T: ev.T.At(0).Type(), Label: in.lbl("type")})
			return []outcome{{st: st, vals: []Val{mt, v, Iface{N: isNil}}},
				{st: g, vals: []Val{Int{K(-1)}, Slice{N: isNil, Len: K(0), Cap: K(0), Off: K(0)}, in.newErr("read error")}}}, true
		case "WriteMessage":
			s, ok := ev.args[2].(Slice)
			ty, ok2 := ev.args[1].(Int)
			if !ok || !ok2 {
				inexact = "the message sent is not known"
				return nil, false
			}
			if c, ok := constOf(st, ty.L); !ok {
				inexact = "the type of the message sent is not known"
			} else if c != 2 {
				if c == 1 {
					m.bad("message-type", f, "bytes are sent in a text message (%s), which holds only UTF-8", m.p.pos(ev.instr.Pos()))
				}
			}
			was := tConst("")
			if x, ok := st.ghost["sent"].(Str); ok {
				was = x.T
			}
			outs := fork()
			outs[0].st.setGhost("sent", Str{tCat(was, in.sliceTerm(st, s))})
			return outs, true
		case "Close":
			return fork(), true
		case "LocalAddr", "RemoteAddr":
			v := st.expand(Opaque{T: ev.T.At(0).Type(), Label: in.lbl(op), NN: true})
			st.setGhost(op, v)
			note(st, op+"+")
			return []outcome{{st: st, vals: []Val{v}}}, true
		case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			for _, a := range ev.args[len(ev.args)-1:] {
				got := fmt.Sprintf("%#v", a)
				if tVal != "" && got != tVal {
					note(st, "other")
					st.setTag("other", m.p.pos(ev.instr.Pos()))
				}
			}
			return fork(), true
		case "UnderlyingConn", "NetConn":
			v := st.expand(Opaque{T: ev.T.At(0).Type(), Label: in.lbl("socket"), NN: true})
			return []outcome{{st: st, vals: []Val{v}}}, true
		case "WriteControl", "SetPongHandler", "SetPingHandler", "SetCloseHandler", "SetReadLimit", "EnableWriteCompression":
			return nil, false
		}
		inexact = "uses " + op + " of the websocket"
		return nil, false
	}
	defer func() {
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				m.und[fname(f)+": "+g.why] = true
				return
			}
			m.und[fmt.Sprintf("%s: %v", fname(f), e)] = true
		}
	}()
	st := newState(in)
	var args []Val
	for k, q := range f.Params {
		v := st.expand(Opaque{T: q.Type(), Label: fname(f) + "." + q.Name(), NN: true})
		if s, ok := v.(Slice); ok && k > 0 {
			dst, src = s, s
			st.addGE(s.Len.neg().addK(maxLen))
		}
		if k > 0 && strings.HasSuffix(q.Type().String(), "time.Time") {
			tVal = fmt.Sprintf("%#v", v)
		}
		if p, ok := v.(Ptr); ok && k == 0 {
			self = p
		}
		args = append(args, v)
	}
	srcT := tConst("")
	if len(src.Objs) > 0 {
		srcT = in.sliceTerm(st, src)
	}
	if rt, ok := restOf(in, st); ok {
		st.setGhost("unread", Str{rt})
		st.addGE(rt.n.neg().addK(maxLen))
	} else {
		m.und[fname(f)+": the unread data is not known"] = true
		return
	}
	if u := m.adapt.Underlying().(*types.Struct); len(self.Locs) == 1 {
		l := self.Locs[0].sub(Step{field: m.inner})
		v := st.expand(Opaque{T: u.Field(m.inner).Type(), Label: "websocket", NN: true})
		st.store(l, v, u.Field(m.inner).Type())
	}
	in.push(st, f, args, nil, "adapter")
	outs := in.runFn(st)
	n := 0
	for _, o := range outs {
		if o.panicked {
			continue
		}
		n++
		m.paths++
		m.r.obligations++
		did := strings.Fields(o.st.tag("did"))
		has := func(s string) bool {
			for _, d := range did {
				if d == s {
					return true
				}
			}
			return false
		}
		tried := func(s string) bool { return has(s+"+") || has(s+"-") }
		failed := o.st.tag("failed")
		var last Val
		if len(o.vals) > 0 {
			last = o.vals[len(o.vals)-1]
		}
		errNil, errNot := false, false
		if e, ok := last.(Iface); ok {
			errNil, errNot = o.st.isNil(e.N) == triNil, o.st.isNil(e.N) == triNon
		}
		if o.st.inexact && (name == "Read" || name == "Write") {
			inexact = "a path was not followed exactly"
		}
		if inexact != "" && (name == "Read" || name == "Write") {
			continue
		}
		switch name {
		case "Read":
			cnt, ok := o.vals[0].(Int)
			if !ok {
				inexact = "the number of bytes read is not known"
				continue
			}
			if failed != "" && errNil {
				m.bad("lost-error", f, "a failed read is not reported")
			}
			if !o.st.poly.entails(cnt.L) || !o.st.poly.entails(dst.Len.sub(cnt.L)) {
				m.bad("read-count", f, "the number of bytes reported, %s, may exceed the destination", cnt.L)
				continue
			}
			head := dst
			head.Len = cnt.L
			ht := in.sliceTerm(o.st, head)
			rt, ok := restOf(in, o.st)
			if !ok {
				inexact = "the unread data is not known"
				continue
			}
			w := want(o.st)
			ws, ok := spans(o.st, w, K(0), w.n)
			if !ok {
				inexact = "the unread data is not known"
				continue
			}
			switch res, why := compareContent(o.st, tCat(ht, rt), ws); {
			case res == 0:
				m.bad("lost-bytes", f, "the bytes read and those kept are not the bytes received: %s", why)
			case res < 0:
				inexact = why
			}
		case "Write":
			cnt, ok := o.vals[0].(Int)
			if !ok {
				inexact = "the number of bytes written is not known"
				continue
			}
			if failed != "" {
				if errNil {
					m.bad("lost-error", f, "a failed write is not reported")
				}
				continue
			}
			if errNot {
				continue
			}
			sent := tConst("")
			if x, ok := o.st.ghost["sent"].(Str); ok {
				sent = x.T
			}
			ss, ok := spans(o.st, srcT, K(0), srcT.n)
			if !ok {
				inexact = "the bytes to write are not known"
				continue
			}
			switch res, why := compareContent(o.st, sent, ss); {
			case res == 0:
				m.bad("other-bytes", f, "what is sent is not what was given: %s", why)
				continue
			case res < 0:
				inexact = why
				continue
			}
			if !o.st.poly.entailsEq(cnt.L, src.Len) {
				m.bad("write-count", f, "%s is returned as the number of bytes sent, not the length of the data", cnt.L)
			}
		case "Close":
			if !tried("Close") && m.state != "" {
				// an earlier call may have closed it
				m.und[fname(f)+": field "+m.state+" may say that the connection is closed already"] = true
			} else if !tried("Close") {
				m.bad("not-closed", f, "a path ends without closing the underlying connection")
			}
		case "LocalAddr", "RemoteAddr":
			g := o.st.ghost[name]
			if g == nil || last == nil || showVal(g) != showVal(last) {
				m.bad("not-forwarded", f, "the result is not the %s of the underlying connection", name)
			}
		case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			if has("other") {
				m.bad("other-deadline", f, "another deadline than the one given is set (%s)", o.st.tag("other"))
			}
			if failed != "" {
				if errNil {
					m.bad("lost-error", f, "a failed %s is not reported", failed)
				}
				continue
			}
			rd := tried("SetReadDeadline") || tried("SetDeadline")
			wr := tried("SetWriteDeadline") || tried("SetDeadline")
			if name != "SetWriteDeadline" && !rd {
				m.bad("not-forwarded", f, "a path ends without setting the read deadline of the underlying connection")
			}
			if name != "SetReadDeadline" && !wr {
				m.bad("not-forwarded", f, "a path ends without setting the write deadline of the underlying connection")
			}
			if name == "SetReadDeadline" && wr || name == "SetWriteDeadline" && rd {
				m.bad("other-deadline", f, "the other deadline is changed too")
			}
		}
	}
	for _, x := range in.found {
		if x.rule == "unbounded-recursion" || x.rule == "endless-loop" {
			m.bad(x.rule, f, "%s", x.msg)
		}
	}
	if n == 0 {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					m.bad("endless", f, "the method does nothing but call itself (%s)", m.p.pos(i.Pos()))
					return
				}
			}
		}
	}
	if inexact != "" {
		m.und[fname(f)+": "+inexact] = true
	} else if n == 0 && len(in.found) == 0 {
		m.und[fname(f)+": no path to its end was found"] = true
	}
}

func checkT09(p *Prog, r *Result) {
	r.explanation = "Every method of the type that makes a connection of a websocket is interpreted on all paths with arbitrary arguments, unread data and messages. The bytes given out and those kept are compared with the unread bytes and the messages received, the message sent and the count returned with the argument; addresses, deadlines and closing have to reach the underlying connection, with the argument given."
	r.assume = []string{"the websocket library delivers the messages in order and its own methods do what they say", "an invariant of the data kept is only that it is any slice of bytes"}
	und := map[string]bool{}
	n := 0
	for _, pk := range p.pkgs {
		if pk.Pkg.Path() != modPath && pk.Pkg.Path() != tcpPath {
			continue
		}
		for _, mem := range pk.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			u, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := &wsModel{p: p, r: r, und: und, inner: -1, rest: -1, adapt: nt, called: map[string]bool{}}
			bufs := 0
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 || tname(deref(ft)) == "sync.Once" || strings.Contains(ft.String(), "atomic.") {
					m.state = u.Field(i).Name()
				}
				if isWs(u.Field(i).Type()) {
					m.inner = i
				} else if s, ok := u.Field(i).Type().Underlying().(*types.Slice); ok && isByteType(s.Elem()) {
					m.rest = i
					bufs++
				} else if isInt(u.Field(i).Type()) || types.IsInterface(u.Field(i).Type()) || strings.Contains(u.Field(i).Type().String(), "bytes.") || strings.Contains(u.Field(i).Type().String(), "bufio.") {
					m.shape = "field " + u.Field(i).Name() + " may say which bytes are unread"
				}
			}
			if m.inner < 0 {
				continue
			}
			ms := p.ssa.MethodSets.MethodSet(types.NewPointer(nt))
			fn := map[string]*ssa.Function{}
			for k := 0; k < ms.Len(); k++ {
				if f := p.ssa.MethodValue(ms.At(k)); f != nil && f.Blocks != nil {
					fn[ms.At(k).Obj().Name()] = f
				}
			}
			full := true
			for _, op := range []string{"Read", "Write", "Close", "LocalAddr", "RemoteAddr", "SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
				full = full && fn[op] != nil
			}
			if !full {
				continue
			}
			n++
			for _, op := range []string{"Read", "Write", "Close", "LocalAddr", "RemoteAddr", "SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
				if op == "Read" && (m.shape != "" || bufs > 1) {
					und[fname(fn[op])+": "+m.shape] = true
					continue
				}
				m.run(fn[op])
				r.sample("%s: %d paths so far", fname(fn[op]), m.paths)
			}
			r.coverage["paths"] = m.paths
			r.coverage["operations"] = sortedSet(m.called)
		}
	}
	r.require("connections made of a websocket", n, 1)
	var us []string
	for u := range und {
		us = append(us, u)
	}
	sort.Strings(us)
	r.coverage["undecided"] = us
	for _, u := range us {
		fmt.Println("UNDECIDED property=T09 " + u)
	}
}

func sortedSet(m map[string]bool) []string {
	var k []string
	for i := range m {
		k = append(k, i)
	}
	sort.Strings(k)
	return k
}

func init() { checks["T09"] = checkT09 }
