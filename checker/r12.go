package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// R12: nothing received and no order of calls makes the library panic.

type protoModel struct {
	failed map[string]*failedObl
	obl    map[string]bool
	undec  []string
	runs   int
}

// protocols interprets the stream protocol with what the transport gives it:
// a header of as many bytes as it asks for, and messages that begin with one.
func protocols(p *Prog) *protoModel {
	pm := &protoModel{failed: map[string]*failedObl{}, obl: map[string]bool{}}
	it, _ := p.typeOf(tcpPath, "IStreamProtocol").(*types.Named)
	if it == nil {
		pm.undec = append(pm.undec, "the type IStreamProtocol was not found")
		return pm
	}
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		pm.undec = append(pm.undec, "IStreamProtocol is not an interface")
		return pm
	}
	for _, pk := range p.pkgs {
		if pk.Pkg.Path() != modPath && pk.Pkg.Path() != tcpPath {
			continue
		}
		for _, mem := range pk.Members {
			t, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) || !types.Implements(types.NewPointer(t.Type()), iface) {
				continue
			}
			ms := p.ssa.MethodSets.MethodSet(types.NewPointer(t.Type()))
			fn := map[string]*ssa.Function{}
			for k := 0; k < ms.Len(); k++ {
				if f := p.ssa.MethodValue(ms.At(k)); f != nil && f.Blocks != nil {
					fn[ms.At(k).Obj().Name()] = f
				}
			}
			pm.one(p, fn)
		}
	}
	return pm
}

func (pm *protoModel) run(p *Prog, f *ssa.Function, prep func(st *State, sl []Slice), look func(o outcome)) {
	if f == nil {
		return
	}
	h := &Hooks{}
	h.inline = func(in *Interp, st *State, g *ssa.Function) bool { return true }
	h.oblige = func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string) {
		k := fmt.Sprintf("%s|%s|%s", kind, p.pos(at.Pos()), at)
		pm.obl[k] = true
		if !ok && pm.failed[k] == nil {
			pm.failed[k] = &failedObl{kind: kind, where: fname(at.Parent()), instr: at.String(), detail: detail, pos: at.Pos(), at: at, exact: !st.inexact && !imprecise(detail), fn: at.Parent(), notes: fname(f)}
		}
	}
	in := newInterp(p, h)
	in.mergeN = 4
	in.deadline = time.Now().Add(60 * time.Second)
	defer func() {
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				pm.undec = append(pm.undec, fname(f)+": "+g.why)
				return
			}
			pm.undec = append(pm.undec, fmt.Sprintf("%s: %v", fname(f), e))
		}
	}()
	pm.runs++
	st := newState(in)
	var args []Val
	var sl []Slice
	for k, pr := range f.Params {
		v := st.expand(Opaque{T: pr.Type(), Label: fname(f) + "." + pr.Name(), NN: k == 0 || isBytes(pr.Type())})
		if s, ok := v.(Slice); ok {
			sl = append(sl, s)
		}
		args = append(args, v)
	}
	prep(st, sl)
	in.push(st, f, args, nil, "protocol")
	for _, o := range in.runFn(st) {
		if look != nil {
			look(o)
		}
	}
}

func (pm *protoModel) one(p *Prog, fn map[string]*ssa.Function) {
	lo, hi := int64(-1), int64(-1)
	pm.run(p, fn["GetHeaderLength"], func(*State, []Slice) {}, func(o outcome) {
		if o.panicked || len(o.vals) == 0 {
			return
		}
		if v, ok := o.vals[0].(Int); ok {
			if c, ok := constOf(o.st, v.L); ok {
				if lo < 0 || c < lo {
					lo = c
				}
				if c > hi {
					hi = c
				}
				return
			}
		}
		hi = 1 << 40
	})
	if lo < 0 || hi != lo {
		pm.undec = append(pm.undec, "the header length is not one number")
		return
	}
	bounded := func(o outcome) {
		for _, v := range o.vals {
			if n, ok := v.(Int); ok && (!o.st.poly.entails(n.L.addK(maxLen)) || !o.st.poly.entails(n.L.neg().addK(maxLen))) {
				pm.undec = append(pm.undec, "a length of a message is not known to stay below "+fmt.Sprint(maxLen))
			}
		}
	}
	pm.run(p, fn["UnserializeHeader"], func(st *State, sl []Slice) {
		for _, s := range sl {
			st.addEQ(s.Len.addK(-lo))
		}
	}, bounded)
	pm.run(p, fn["GetContentLength"], func(st *State, sl []Slice) {
		for _, s := range sl {
			st.addGE(s.Len.addK(-lo))
		}
	}, nil)
	pm.run(p, fn["SerializeHeader"], func(*State, []Slice) {}, nil)
	pm.run(p, fn["Init"], func(*State, []Slice) {}, nil)
}

func checkR12(p *Prog, r *Result) {
	r.explanation = "Every operation that can panic (index, slice, nil dereference, conversion, division, channel size, type assertion) is a proof obligation of an abstract interpretation. The transport package is analysed function by function with arbitrary arguments and protocol results; the stream protocol with the header and messages the transport gives it; the path of a received message for every codec and kind of packet, for messages shorter than a packet and for any text; the parsers of responses and descriptions with arbitrary text; every API method of a session, from any state earlier calls may leave, with any server response."
	r.assume = []string{
		"a client is made by NewRtspClientSession or NewRtspClient, a Connection by NewConnection with a connection and a queue size that is not negative",
		"the application's callbacks do not panic",
		"standard library and websocket functions do not panic on the arguments given",
	}
	bad := map[string]*failedObl{}
	var und []string
	take := func(o *failedObl, sure bool, where string) {
		k := fmt.Sprintf("%s|%s|%s", o.kind, p.pos(o.pos), o.instr)
		if sure {
			if bad[k] == nil {
				bad[k] = o
			}
			return
		}
		und = append(und, fmt.Sprintf("%s at %s (%s) not proved absent: %s (%s)", o.kind, p.pos(o.pos), o.where, o.detail, where))
	}
	// the API, in any order
	sm := sessionModel(p)
	r.obligations += len(sm.obl)
	r.coverage["obligations_of_the_api"] = len(sm.obl)
	for _, k := range sortedKeysS(sm.failed) {
		take(sm.failed[k], sm.failed[k].exact, "API")
	}
	for _, f := range sortedKeysStr(sm.giveup) {
		und = append(und, f+": "+sm.giveup[f])
	}
	// the stream protocol
	pm := protocols(p)
	r.obligations += len(pm.obl)
	r.coverage["obligations_of_the_stream_protocol"] = len(pm.obl)
	r.require("stream protocol functions", pm.runs, 3)
	for _, k := range sortedKeysS(pm.failed) {
		take(pm.failed[k], pm.failed[k].exact, "stream protocol")
	}
	und = append(und, pm.undec...)
	// packets
	md := mediaOf(p)
	r.obligations += len(md.obl)
	r.coverage["obligations_of_packets"] = len(md.obl)
	for _, f := range md.found["R12"] {
		r.report(f.rule, f.where, p.pos(f.pos), "%s", f.msg)
	}
	for u := range md.undec {
		und = append(und, u)
	}
	und = append(und, md.undecR12...)
	if len(md.undec) == 0 && len(md.found["R12"]) == 0 {
		r.require("kinds of messages", md.runs+md.raws, 100)
	}
	// the transport, and parsers of text
	for _, pkg := range []string{tcpPath, modPath} {
		m, roots := newModular(p, pkg)
		starts := map[*ssa.Function]bool{} // what exported functions start
		m.exempt = func(o *failedObl) bool {
			if o.kind == "channel size" {
				return true
			}
			if o.kind != "nil interface method call" || o.at == nil {
				return false
			}
			ci, ok := o.at.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() {
				return false
			}
			switch tname(ci.Common().Value.Type()) {
			case "net.Conn":
				return true
			case "tcpnetwork.IStreamProtocol":
				return !starts[o.fn] // asked for before the connection is used
			}
			return false
		}
		if pkg == tcpPath {
			m.extra = func(h *Hooks) {
				h.call = func(in *Interp, st *State, ev *CallEv) ([]outcome, bool) {
					if strings.HasSuffix(ev.name, "bufio.Reader).Read") && len(ev.args) == 2 {
						if sl, ok := ev.args[1].(Slice); ok {
							n := newSym("read", 0, maxLen)
							st.addGE(LS(n))
							st.addGE(sl.Len.sub(LS(n)))
							return []outcome{{st: st, vals: []Val{Int{LS(n)}, st.expand(Opaque{T: ev.T.At(1).Type(), Label: in.lbl("read")})}}}, true
						}
					}
					if ev.method == nil || ev.T == nil || ev.iface == nil || tname(ev.common.Value.Type()) != "tcpnetwork.IStreamProtocol" {
						return nil, false
					}
					var vs []Val
					for k := 0; k < ev.T.Len(); k++ {
						T := ev.T.At(k).Type()
						if isInt(T) {
							vs = append(vs, Int{LS(newSym("length", -maxLen, maxLen))})
						} else {
							vs = append(vs, st.expand(Opaque{T: T, Label: in.lbl("protocol")}))
						}
					}
					return []outcome{{st: st, vals: vs}}, true
				}
			}
		}
		m.given = map[*ssa.Parameter]bool{}
		have := map[*ssa.Function]bool{}
		var rs []*ssa.Function
		for _, f := range roots {
			if pkg == modPath && !parsesText(p, f) {
				continue
			}
			have[f] = true
			rs = append(rs, f)
		}
		if pkg == modPath {
			// what the interpretation of the API leaves out
			m.opaque = func(g *ssa.Function) bool { return pkgOf(g) == sdpPath }
			cut := sm.cut()
			for f := range cut {
				if pkgOf(f) != modPath || have[f] {
					continue
				}
				for _, cl := range p.conc().callers[f] {
					if !cut[cl.instr.Parent()] && !have[f] {
						have[f] = true
						rs = append(rs, f)
					}
				}
			}
			sort.Slice(rs, func(i, j int) bool { return fname(rs[i]) < fname(rs[j]) })
		}
		if pkg == tcpPath {
			for _, f := range p.conc().fns {
				if pkgOf(f) != tcpPath {
					continue
				}
				for _, pr := range f.Params {
					if pr.Type().String() == "net.Conn" {
						m.given[pr] = true
					}
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						g, ok := i.(*ssa.Go)
						if !ok {
							continue
						}
						for _, t := range p.conc().targets[g] {
							if token.IsExported(f.Name()) {
								starts[t] = true
							}
							if m.in[t] && !have[t] && t.Parent() == nil {
								have[t] = true
								rs = append(rs, t)
							}
						}
					}
				}
			}
		}
		m.until = time.Now().Add(150 * time.Second)
		m.decide(rs)
		r.obligations += len(m.all)
		name := "transport"
		if pkg == modPath {
			name = "parsers"
		}
		r.coverage["obligations_of_"+name] = len(m.all)
		r.coverage["functions_of_"+name] = len(m.res)
		r.require("functions of the "+name, len(rs), 2)
		m.until = time.Now().Add(100 * time.Second)
		b, u := m.left(rs)
		for _, o := range b {
			if !m.exempt(o) {
				take(o, true, o.notes)
			}
		}
		und = append(und, u...)
	}
	for _, k := range sortedKeysS(bad) {
		o := bad[k]
		r.report("panic "+o.kind, o.where+" "+o.instr, p.pos(o.pos), "%s may fail in %s (%s), called by %s", o.kind, o.where, o.detail, o.notes)
	}
	sort.Strings(und)
	r.coverage["undecided"] = und
	for k, u := range und {
		if k == 5 {
			fmt.Printf("UNDECIDED property=R12 and %d more\n", len(und)-k)
			break
		}
		fmt.Println("UNDECIDED property=R12 " + u)
	}
}

func sortedKeysStr(m map[string]string) []string {
	var k []string
	for i := range m {
		k = append(k, i)
	}
	sort.Strings(k)
	return k
}

// parsesText: an exported function of the client package that is given text
// and is not an operation of a session, a packet parser or a connection.
func parsesText(p *Prog, f *ssa.Function) bool {
	text := false
	for k, q := range f.Params {
		if f.Signature.Recv() != nil && k == 0 {
			n, ok := deref2(q.Type()).(*types.Named)
			if !ok {
				return false
			}
			switch n.Obj().Name() {
			case "RtspClientSession", "RtpParser", "WebsocketConn":
				return false
			}
			ms := types.NewMethodSet(types.NewPointer(n))
			if ms.Lookup(n.Obj().Pkg(), "ParsingRtp") != nil || ms.Lookup(n.Obj().Pkg(), "UnserializeHeader") != nil {
				return false
			}
			continue
		}
		if isString(q.Type()) || isBytes(q.Type()) {
			text = true
		}
	}
	return text
}

func init() { checks["R12"] = checkR12 }
