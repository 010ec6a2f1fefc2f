package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The session model interprets every exported method of the RTSP session
// (abstractly, for all states it can be called in) against an arbitrary
// connection: what it sends, waits for, reports and returns. The checks R01 to
// R10 and R15 are rules over the same run.

type sendEv struct {
	root    *ssa.Function
	st      *State
	pos     token.Pos
	req     *Request
	term    *Term
	authObj *authUse
}

type authUse struct {
	user, pass *Term
	kind       string
	path       string // field path of the authenticator in the session
	kindVal    int64
	kindPath   string
}

type exitEv struct {
	root *ssa.Function
	st   *State
	vals []Val
	pan  bool
}

type sessModel struct {
	obl    map[string]bool // of panic-freedom
	failed map[string]*failedObl
	p      *Prog
	in     *Interp
	found  map[string][]Found // by property
	roots  []*ssa.Function
	sends  []*sendEv
	exits  []*exitEv
	waits  int
	events int
	setups int
	steps  int
	giveup map[string]string
	logs   int
	first  int
	stores int
	sess   types.Type
	// discovered
	cseqPath map[string]int
	sidPath  map[string]int
	authPath map[string]int
	kinds    map[int64]string
	curRoot  *ssa.Function
	counts   map[string]int
	samples  []string
	authTy   types.Type
	respTy   types.Type
	kindOf   map[string]string // field of the response -> kinds of challenge it can hold
}

func (m *sessModel) add(prop, rule, where string, pos token.Pos, format string, a ...any) {
	m.found[prop] = append(m.found[prop], Found{rule: rule, where: where, pos: pos, msg: fmt.Sprintf(format, a...)})
}

func (m *sessModel) where() string { return fname(m.curRoot) }

var theSess *sessModel

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

const tcpPath = modPath + "/tcpnetwork"
const sdpPath = modPath + "/sdp"

// sessionModel runs the model once.
func sessionModel(p *Prog) *sessModel {
	if theSess != nil {
		return theSess
	}
	m := &sessModel{p: p, found: map[string][]Found{}, giveup: map[string]string{}, cseqPath: map[string]int{}, sidPath: map[string]int{},
		authPath: map[string]int{}, kinds: map[int64]string{}, counts: map[string]int{}, kindOf: map[string]string{}}
	theSess = m
	noLadder, lineFree = true, true
	defer func() { noLadder, lineFree = false, false }()
	m.sess = p.typeOf(modPath, "RtspClientSession")
	m.authTy = p.typeOf(modPath, "Authenticator")
	m.respTy = p.typeOf(modPath, "RtspResponseContext")
	if m.sess == nil {
		return m
	}
	m.challengeKinds()
	for _, f := range p.apiRoots() {
		if r := f.Signature.Recv(); r != nil && types.Identical(deref(r.Type()), m.sess) && f.Name() != "HandleConn" && f.Name() != "ParsingURL" {
			m.roots = append(m.roots, f)
		}
	}
	sort.Slice(m.roots, func(i, j int) bool { return fname(m.roots[i]) < fname(m.roots[j]) })
	for _, f := range m.roots {
		if onlyRoot != "" && f.Name() != onlyRoot {
			continue
		}
		m.run(f)
	}
	m.post()
	return m
}

// opaqueFn: data functions whose result is taken as arbitrary: everything that
// leads into the sdp package and does not itself work on the session.
func (m *sessModel) cut() map[*ssa.Function]bool {
	cut := map[*ssa.Function]bool{}
	for _, f := range m.p.funcs {
		if pkgOf(f) == sdpPath {
			cut[f] = true
		}
	}
	for _, f := range m.p.funcs {
		if pkgOf(f) != modPath || f.Parent() != nil {
			continue
		}
		sess := false
		for _, pr := range f.Params {
			if n, ok := deref2(pr.Type()).(*types.Named); ok && m.p.isModType(n) {
				switch n.Obj().Name() {
				case "SDPInfo", "MediaSubsession":
				default:
					if n.Obj().Pkg().Path() != sdpPath {
						sess = true
					}
				}
			}
		}
		if sess || f.Signature.Recv() != nil {
			continue
		}
		for g := range m.p.reachable([]*ssa.Function{f}) {
			if pkgOf(g) == sdpPath {
				cut[f] = true
			}
		}
		// parsing of responses: the result is the fields of the response
		for _, pr := range f.Params {
			if m.respTy != nil && types.Identical(deref2(pr.Type()), m.respTy) {
				cut[f] = true
			}
		}
	}
	return cut
}

func deref2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (m *sessModel) isRespChan(ch ssa.Value) bool {
	c, ok := ch.Type().Underlying().(*types.Chan)
	return ok && m.respTy != nil && types.Identical(deref2(c.Elem()), m.respTy)
}

// sessVal is the receiver as the callers see it.
func (m *sessModel) sessVal(st *State) Val {
	v, ok := st.ghost["session"]
	if !ok {
		return nil
	}
	return v
}

// paths enumerates the scalar fields of the session, through pointers to the
// module's structures.
func (m *sessModel) paths(st *State, f func(path string, key string, T types.Type, v Val, loc Loc)) {
	seen := map[ObjID]bool{}
	var visit func(v Val, T types.Type, path string, depth int)
	visit = func(v Val, T types.Type, path string, depth int) {
		p, ok := v.(Ptr)
		if !ok || st.isNil(p.N) == triNil || depth > 4 {
			return
		}
		et := deref2(T)
		u, ok := et.Underlying().(*types.Struct)
		if !ok || !m.p.isModType(et) || pkgOf2(et) != modPath {
			return
		}
		for _, l := range p.Locs {
			if len(l.path) == 0 {
				if seen[l.obj] {
					continue
				}
				seen[l.obj] = true
			}
			for i := 0; i < u.NumFields(); i++ {
				fl := l.sub(Step{field: i})
				fv := st.load(fl, u.Field(i).Type())
				fp := path + "." + u.Field(i).Name()
				f(fp, fieldKey(et, u, i), u.Field(i).Type(), fv, fl)
				if _, isp := u.Field(i).Type().Underlying().(*types.Pointer); isp {
					visit(fv, u.Field(i).Type(), fp, depth+1)
				}
			}
		}
	}
	if v := m.sessVal(st); v != nil {
		visit(v, types.NewPointer(m.sess), "", 0)
	}
}

// authPtrs lists the pointers to an authenticator that the session keeps.
func (m *sessModel) authPtrs(st *State, f func(path string, v Ptr)) {
	if m.authTy == nil {
		return
	}
	var visit func(v Val, T types.Type, path string, depth int)
	visit = func(v Val, T types.Type, path string, depth int) {
		p, ok := v.(Ptr)
		if !ok || depth > 3 || st.isNil(p.N) == triNil {
			return
		}
		et := deref2(T)
		u, ok := et.Underlying().(*types.Struct)
		if !ok || pkgOf2(et) != modPath {
			return
		}
		for _, l := range p.Locs {
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				if _, isp := ft.Underlying().(*types.Pointer); !isp || pkgOf2(deref2(ft)) != modPath || !m.p.isModType(deref2(ft)) {
					continue
				}
				if types.Identical(deref2(ft), m.authTy) {
					if x, ok := st.load(l.sub(Step{field: i}), ft).(Ptr); ok {
						f(path+"."+u.Field(i).Name(), x)
					}
				} else if m.holdsAuth(deref2(ft), 0) {
					visit(st.load(l.sub(Step{field: i}), ft), ft, path+"."+u.Field(i).Name(), depth+1)
				}
			}
		}
	}
	if v := m.sessVal(st); v != nil {
		visit(v, types.NewPointer(m.sess), "", 0)
	}
}

func (m *sessModel) holdsAuth(T types.Type, d int) bool {
	u, ok := T.Underlying().(*types.Struct)
	if !ok || d > 2 {
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		t := u.Field(i).Type()
		if _, isp := t.Underlying().(*types.Pointer); isp && (types.Identical(deref2(t), m.authTy) || m.holdsAuth(deref2(t), d+1)) {
			return true
		}
	}
	return false
}

func pkgOf2(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func (m *sessModel) at(st *State, path string) (Val, bool) {
	var out Val
	ok := false
	m.paths(st, func(pa, _ string, _ types.Type, v Val, _ Loc) {
		if pa == path && !ok {
			out, ok = v, true
		}
	})
	return out, ok
}

func ghostInt(st *State, k string) Lin {
	if v, ok := st.ghost[k].(Int); ok {
		return v.L
	}
	return K(0)
}

func (m *sessModel) run(root *ssa.Function) {
	p := m.p
	m.curRoot = root
	cut := m.cut()
	h := &Hooks{}
	h.inline = func(in *Interp, st *State, f *ssa.Function) bool { return !cut[f] }
	h.call = m.onCall
	h.oblige = func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string) {
		k := fmt.Sprintf("%s|%s|%s", kind, m.p.pos(at.Pos()), at)
		if m.obl == nil {
			m.obl, m.failed = map[string]bool{}, map[string]*failedObl{}
		}
		m.obl[k] = true
		if !ok && m.failed[k] == nil {
			m.failed[k] = &failedObl{kind: kind, where: fname(at.Parent()), instr: at.String(), detail: detail, pos: at.Pos(), at: at, exact: !st.inexact && !imprecise(detail), fn: at.Parent(), notes: fname(root)}
		}
	}
	h.recv = func(in *Interp, st *State, ch Val, T types.Type, at ssa.Instruction) (Val, bool) {
		if m.respTy == nil || !types.Identical(deref2(T), m.respTy) {
			return nil, false
		}
		v := st.expand(Opaque{T: T, Label: in.lbl("response")})
		st.setGhost("got", v)
		return v, true
	}
	h.sel = func(in *Interp, st *State, x *ssa.Select, idx int) {
		isWait := false
		for _, s := range x.States {
			if s.Dir == types.RecvOnly && m.isRespChan(s.Chan) {
				isWait = true
			}
		}
		if !isWait || !x.Blocking {
			st.setGhost("got", nil)
			return
		}
		m.waited(st)
		if idx < 0 || !(x.States[idx].Dir == types.RecvOnly && m.isRespChan(x.States[idx].Chan)) {
			st.setGhost("resp", nil)
			st.setTag("ans", "lost")
		}
	}
	h.recvDone = func(in *Interp, st *State, x *ssa.UnOp) {
		if m.isRespChan(x.X) {
			m.waited(st)
		}
	}
	h.mapUpd = func(in *Interp, st *State, mv Val, k, v Val, at ssa.Instruction) {
		mu, ok := at.(*ssa.MapUpdate)
		if !ok {
			return
		}
		mt, ok := mu.Map.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		if b, ok := mt.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		n, ok := deref2(mt.Elem()).(*types.Named)
		if !ok {
			return
		}
		switch n.Obj().Name() {
		case "RtpParser":
			st.setGhost("parserKey", k)
		case "MediaSubsession":
			st.setGhost("mediaKey", k)
		}
	}
	h.store = m.onStore
	h.part = func(in *Interp, st *State) string {
		var sb strings.Builder
		if st.fr == nil {
			return ""
		}
		for i, r := range st.fr.regs {
			if p, ok := r.(Ptr); ok && m.authTy != nil && len(p.Locs) > 0 && len(p.Locs[0].path) == 0 {
				if inp, ok := in.inputs[p.Locs[0].obj]; ok && types.Identical(inp.T, m.authTy) {
					fmt.Fprintf(&sb, "a%d:%d", i, st.isNil(p.N))
					for _, l := range p.Locs {
						sb.WriteString(l.key())
					}
				}
			}
			if s, ok := r.(Str); ok && s.T.op == "cat" {
				for _, a := range s.T.args {
					if a.op == "const" && strings.Contains(a.s, "\r\n") {
						fmt.Fprintf(&sb, "s%d:%d,", i, s.T.id)
						break
					}
				}
			}
		}
		m.authPtrs(st, func(pa string, v Ptr) {
			fmt.Fprintf(&sb, "%s=%d", pa, st.isNil(v.N))
			for _, l := range v.Locs {
				sb.WriteString(l.key())
			}
		})
		return sb.String()
	}
	h.prePart = func(in *Interp, st *State) {
		// remember that the response named no session
		if st.tag("proto") == "SETUP" && st.tag("ans") == "yes" && st.tag("sidset") == "" {
			if rs, ok := m.respSid(st); ok && isEmptyStr(st, rs) {
				st.setTag("sidset", "none")
			}
		}
	}
	in := newInterp(p, h)
	in.mergeN = 1
	m.in = in
	st := in.rootState(root, nil)
	// the session itself, and the flag as found
	recv := st.expandAll(in.get(st, root.Params[0]))
	st.setReg(root.Params[0], recv)
	st.setGhost("session", recv)
	st.setGhost("nsend", Int{K(0)})
	st.setGhost("nsetup", Int{K(0)})
	st.setTag("sent", "")
	st.setTag("proto", "")
	st.setTag("ans", "")
	st.setTag("out", "entry")
	st.setTag("ev", "")
	st.setTag("acc", "")
	m.paths(st, func(pa, _ string, T types.Type, v Val, _ Loc) {
		st.setGhost("entry:"+pa, v)
	})
	if f := m.flagPath(); f != "" {
		if v, ok := m.at(st, f); ok {
			st.setGhost("flag0", v)
		}
	}
	var outs []outcome
	func() {
		defer func() {
			if e := recover(); e != nil {
				if g, ok := e.(giveUp); ok {
					m.giveup[fname(root)] = g.why
					return
				}
				panic(e)
			}
		}()
		outs = in.runFn(st)
	}()
	m.steps += in.steps
	for _, o := range outs {
		m.exits = append(m.exits, &exitEv{root, o.st, o.vals, o.panicked})
	}
	if verbose {
		fmt.Printf("session root %s: %d exits %d steps %s\n", fname(root), len(outs), in.steps, m.giveup[fname(root)])
	}
}

func (m *sessModel) waited(st *State) {
	m.waits++
	st.setTag("out", "no")
	st.setTag("ans", "yes")
	st.setGhost("resp", st.ghost["got"])
	st.setGhost("got", nil)
}

// flagPath is the boolean field of the session that marks it idle.
func (m *sessModel) flagPath() string {
	u := m.sess.Underlying().(*types.Struct)
	name := ""
	for i := 0; i < u.NumFields(); i++ {
		if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if name != "" {
				return "." + "rtspRequestInitial"
			}
			name = u.Field(i).Name()
		}
	}
	if name == "" {
		return ""
	}
	return "." + name
}

// idleValue is the flag's value while no request is outstanding, as the
// constructor sets it.
func (m *sessModel) idleValue() (bool, bool) {
	f := m.flagPath()
	if f == "" {
		return false, false
	}
	key := fieldKey(m.sess, m.sess.Underlying().(*types.Struct), fieldIndex(m.sess, f[1:]))
	ff := m.p.fieldFacts()
	for i, s := range ff.at[key] {
		if _, ok := s.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); ok {
			if c, ok := ff.stores[key][i].(*ssa.Const); ok && c.Value != nil {
				return constant.BoolVal(c.Value), true
			}
		}
	}
	return false, true // the zero value
}

func fieldIndex(T types.Type, name string) int {
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (m *sessModel) onCall(in *Interp, st *State, c *CallEv) ([]outcome, bool) {
	if outs, ok := m.urlCall(in, st, c); ok {
		return outs, true
	}
	if c.fn != nil && pkgOf(c.fn) == tcpPath {
		// the connection is the environment
		if c.fn.Signature.Recv() != nil && len(c.args) > 0 && !testsNil(c.fn) {
			if x, ok := c.args[0].(Ptr); ok && !in.notNil(st, x.N, "receiver", c.instr) {
				return nil, true
			}
		}
		for _, a := range c.args {
			if s, ok := a.(Slice); ok && c.fn.Signature.Recv() != nil {
				m.onSend(in, st, s, c)
			}
		}
		if c.T.Len() == 0 {
			return []outcome{{st: st}}, true
		}
		if strings.HasPrefix(c.fn.Name(), "New") {
			st.setTag("conn", "new")
			st.setTag("sidset", "")
			if st.tag("out") == "entry" {
				st.setTag("out", "no") // nothing is outstanding on it
			}
			v := st.expand(Opaque{T: c.T.At(0).Type(), Label: in.lbl("connection"), NN: true})
			return ret1(st, v), true
		}
		return in.results(st, c, ""), true
	}
	if c.fn != nil && m.cutFn(c.fn) {
		return nil, false
	}
	if c.fn == nil && c.unk != nil && len(c.args) == 1 {
		T := c.common.Args[0].Type()
		n, _ := deref2(T).(*types.Named)
		if n != nil && n.Obj().Name() == "RtspEvent" {
			m.onEvent(in, st, c)
			return []outcome{{st: st}}, true
		}
		if n != nil && n.Obj().Name() == "RtspData" {
			return []outcome{{st: st}}, true
		}
	}
	m.sinks(in, st, c)
	if isDial(c.name) {
		st.setTag("dialed", "1")
	}
	return nil, false
}

func (m *sessModel) cutFn(f *ssa.Function) bool { return false }

func (m *sessModel) onEvent(in *Interp, st *State, c *CallEv) {
	m.events++
	p, ok := c.args[0].(Ptr)
	if !ok || len(p.Locs) == 0 {
		return
	}
	T := deref2(c.common.Args[0].Type())
	u := T.Underlying().(*types.Struct)
	kind := "?"
	for i := 0; i < u.NumFields(); i++ {
		v := st.load(p.Locs[0].sub(Step{field: i}), u.Field(i).Type())
		if isInt(u.Field(i).Type()) {
			if x, ok := v.(Int); ok && x.L.isK() {
				kind = m.eventName(x.L.c)
			}
		}
		if m.secret(st.depsOf(v)) {
			m.add("R06", "password-in-event", m.where(), c.instr.Pos(), "data given to the event callback can contain the password (%s)", showVal(v))
		}
	}
	if e := st.tag("ev"); len(strings.Fields(e)) < 3 {
		st.setTag("ev", strings.TrimSpace(e+" "+kind))
	}
}

func (m *sessModel) eventName(v int64) string {
	sp := m.p.byPath[modPath]
	for _, n := range []string{"RtspEventRequestSuccess", "RtspEventRequestError", "RtspEventDisconnected"} {
		if c, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok {
			if x, ok := constant.Int64Val(c.Val()); ok && x == v {
				return strings.TrimPrefix(n, "RtspEvent")
			}
		}
	}
	return fmt.Sprint(v)
}

// ---------------------------------------------------------------- requests

// Request is a request template taken apart.
type Request struct {
	method  string
	uri     []*Term
	headers []Header
	errs    []string
	text    string
	body    bool
}

type Header struct {
	name  string
	value []*Term // pieces
}

func (r *Request) get(name string) (h Header, n int) {
	for _, x := range r.headers {
		if strings.EqualFold(x.name, name) {
			h = x
			n++
		}
	}
	return
}

func pieces(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	return []*Term{t}
}

func showPieces(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, "+")
}

var tokenRE = regexp.MustCompile("^[A-Za-z0-9!#$&'*+.^_`|~-]+$")

// parseRequest takes a request text apart. Unknown parts are values: they
// hold no line break of their own.
func parseRequest(t *Term) *Request {
	r := &Request{text: t.String()}
	var lines [][]*Term
	var cur []*Term
	ended := false
	for _, pc := range pieces(t) {
		if pc.op != "const" {
			cur = append(cur, pc)
			continue
		}
		if strings.Contains(pc.s, "%!") {
			r.errs = append(r.errs, "formatting artefact in "+fmt.Sprintf("%q", pc.s))
		}
		parts := strings.Split(pc.s, "\r\n")
		for i, x := range parts {
			if strings.ContainsAny(x, "\r\n") {
				r.errs = append(r.errs, fmt.Sprintf("bare CR or LF in %q", x))
			}
			if x != "" {
				cur = append(cur, tConst(x))
			}
			if i < len(parts)-1 {
				lines = append(lines, cur)
				cur = nil
			}
		}
	}
	if len(cur) > 0 {
		r.errs = append(r.errs, "the text after the last line break is not part of a line: "+showPieces(cur))
	}
	for i, l := range lines {
		if len(l) == 0 {
			if i != len(lines)-1 {
				r.errs = append(r.errs, fmt.Sprintf("empty line before the end (line %d of %d)", i+1, len(lines)))
			}
			ended = i == len(lines)-1
			continue
		}
		if i == 0 {
			r.requestLine(l)
			continue
		}
		if l[0].op != "const" {
			r.errs = append(r.errs, "a header line starts with "+l[0].String())
			continue
		}
		k := strings.Index(l[0].s, ":")
		if k <= 0 {
			r.errs = append(r.errs, "not a 'Name: value' line: "+showPieces(l))
			continue
		}
		name, rest := l[0].s[:k], l[0].s[k+1:]
		if !tokenRE.MatchString(name) {
			r.errs = append(r.errs, fmt.Sprintf("bad header name %q", name))
		}
		if !strings.HasPrefix(rest, " ") {
			r.errs = append(r.errs, fmt.Sprintf("no space after the colon of %q", name))
		}
		h := Header{name: name}
		if x := strings.TrimPrefix(rest, " "); x != "" {
			h.value = append(h.value, tConst(x))
		}
		h.value = append(h.value, l[1:]...)
		if len(h.value) == 0 {
			r.errs = append(r.errs, fmt.Sprintf("header %q has no value", name))
		}
		if _, n := r.get(name); n > 0 {
			r.errs = append(r.errs, fmt.Sprintf("header %q is emitted twice", name))
		}
		r.headers = append(r.headers, h)
	}
	if !ended {
		r.errs = append(r.errs, "the request does not end with an empty line")
	}
	return r
}

func (r *Request) requestLine(l []*Term) {
	if l[0].op != "const" {
		r.errs = append(r.errs, "the request line starts with "+l[0].String())
		return
	}
	k := strings.Index(l[0].s, " ")
	if k <= 0 {
		r.errs = append(r.errs, "no method in the request line: "+showPieces(l))
		return
	}
	r.method = l[0].s[:k]
	rest := append([]*Term{}, l[1:]...)
	if x := l[0].s[k+1:]; x != "" {
		rest = append([]*Term{tConst(x)}, rest...)
	}
	const tail = " RTSP/1.0"
	n := len(rest)
	if n == 0 || rest[n-1].op != "const" || !strings.HasSuffix(rest[n-1].s, tail) {
		r.errs = append(r.errs, "the request line does not end in RTSP/1.0: "+showPieces(l))
		return
	}
	last := strings.TrimSuffix(rest[n-1].s, tail)
	rest = rest[:n-1]
	if last != "" {
		rest = append(rest, tConst(last))
	}
	if len(rest) == 0 {
		r.errs = append(r.errs, "no URI in the request line")
	}
	for _, x := range rest {
		if x.op == "const" && strings.ContainsAny(x.s, " \t") {
			r.errs = append(r.errs, "space inside the URI: "+showPieces(rest))
		}
	}
	r.uri = rest
}

// authorization takes an Authorization value apart and checks the response.
func checkAuth(v []*Term, method string) (u *authUse, errs []string) {
	t := tCat(v...)
	ps := pieces(t)
	if len(ps) == 0 || ps[0].op != "const" {
		return nil, []string{"the Authorization value starts with " + showPieces(v)}
	}
	if strings.HasPrefix(ps[0].s, "Basic ") {
		u = &authUse{kind: "Basic"}
		if len(ps) != 2 || ps[0].s != "Basic " || ps[1].op != "fn" || ps[1].s != "b64" {
			return u, []string{"Basic credentials are not the base64 of user:password: " + showPieces(v)}
		}
		a := pieces(ps[1].args[0])
		us, pw, ok := splitAt(a, ":")
		if !ok {
			return u, []string{"Basic credentials are not the base64 of user:password: " + showPieces(v)}
		}
		u.user, u.pass = us, pw
		return u, nil
	}
	if !strings.HasPrefix(ps[0].s, "Digest ") {
		return nil, []string{"unknown authorization scheme: " + showPieces(v)}
	}
	u = &authUse{kind: "Digest"}
	// name="value" pairs
	var flat strings.Builder
	var hs []*Term
	for _, x := range ps {
		if x.op == "const" {
			flat.WriteString(x.s)
		} else {
			fmt.Fprintf(&flat, "\x00%d\x01", len(hs))
			hs = append(hs, x)
		}
	}
	s := strings.TrimPrefix(flat.String(), "Digest ")
	par := map[string]*Term{}
	re := regexp.MustCompile(`^\s*([A-Za-z-]+)=("([^"]*)"|([^",\s]*))\s*(,|$)`)
	for s != "" {
		mm := re.FindStringSubmatch(s)
		if mm == nil {
			return u, []string{"malformed Digest parameters: " + showPieces(v)}
		}
		val := mm[3]
		if val == "" {
			val = mm[4]
		}
		if par[mm[1]] != nil {
			errs = append(errs, "Digest parameter "+mm[1]+" given twice")
		}
		par[mm[1]] = unflat(val, hs)
		s = s[len(mm[0]):]
	}
	for _, n := range []string{"username", "realm", "nonce", "uri", "response"} {
		if par[n] == nil {
			return u, append(errs, "Digest parameter "+n+" is missing")
		}
	}
	u.user = par["username"]
	bad := func(why string) (*authUse, []string) {
		return u, append(errs, "the digest is not MD5(MD5(user:realm:password):nonce:MD5(method:uri)) of the values in the header: "+why+" in "+par["response"].String())
	}
	inner, ok := md5of(par["response"])
	if !ok {
		return bad("no MD5")
	}
	ip := pieces(inner)
	if len(ip) < 3 {
		return bad("outer text")
	}
	ha1t, ok := md5of(ip[0])
	if !ok {
		return bad("first part")
	}
	ha2t, ok := md5of(ip[len(ip)-1])
	if !ok {
		return bad("last part")
	}
	mid := tCat(ip[1 : len(ip)-1]...)
	if mid != tCat(tConst(":"), par["nonce"], tConst(":")) {
		return bad("nonce")
	}
	if ha2t != tCat(tConst(method+":"), par["uri"]) {
		return bad(fmt.Sprintf("method and uri: %s, request method %s", ha2t, method))
	}
	pre := pieces(tCat(par["username"], tConst(":"), par["realm"], tConst(":")))
	hp := pieces(ha1t)
	if len(hp) < len(pre)+0 {
		return bad("user:realm:password")
	}
	for i, x := range pre {
		if hp[i] == x {
			continue
		}
		if i == len(pre)-1 && x.op == "const" && hp[i].op == "const" && strings.HasPrefix(hp[i].s, x.s) {
			// a constant password
			hp = append([]*Term{}, hp...)
			continue
		}
		return bad("user:realm")
	}
	u.pass = tCat(hp[len(pre):]...)
	return u, errs
}

func splitAt(ps []*Term, sep string) (a, b *Term, ok bool) {
	for i, x := range ps {
		if x.op != "const" {
			continue
		}
		k := strings.Index(x.s, sep)
		if k < 0 {
			continue
		}
		a = tCat(append(append([]*Term{}, ps[:i]...), tConst(x.s[:k]))...)
		b = tCat(append([]*Term{tConst(x.s[k+len(sep):])}, ps[i+1:]...)...)
		return a, b, true
	}
	return nil, nil, false
}

func unflat(s string, hs []*Term) *Term {
	var out []*Term
	for s != "" {
		i := strings.IndexByte(s, 0)
		if i < 0 {
			out = append(out, tConst(s))
			break
		}
		if i > 0 {
			out = append(out, tConst(s[:i]))
		}
		j := strings.IndexByte(s, 1)
		n := 0
		fmt.Sscan(s[i+1:j], &n)
		out = append(out, hs[n])
		s = s[j+1:]
	}
	return tCat(out...)
}

func md5of(t *Term) (*Term, bool) {
	if t.op == "fn" && t.s == "hex" && t.args[0].op == "fn" && t.args[0].s == "md5" {
		return t.args[0].args[0], true
	}
	return nil, false
}

func (m *sessModel) onSend(in *Interp, st *State, s Slice, c *CallEv) {
	if st.isNil(s.N) == triNil {
		return
	}
	t := in.sliceTerm(st, s)
	m.counts["sends"]++
	m.counts["R01"]++
	w := fname(m.curRoot)
	req := parseRequest(t)
	ev := &sendEv{root: m.curRoot, st: nil, pos: c.instr.Pos(), req: req, term: t}
	// R01
	for _, e := range req.errs {
		m.add("R01", "request-syntax", w+" "+req.method, c.instr.Pos(), "%s\nrequest: %s", e, req.text)
	}
	if n := strings.ToUpper(m.curRoot.Name()); strings.HasPrefix(n, "SEND") && req.method != "" && !strings.Contains(n, req.method) {
		m.add("R01", "request-method", w, c.instr.Pos(), "%s sends a %s request", fname(m.curRoot), req.method)
	}
	switch req.method {
	case "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN":
	default:
		m.add("R01", "request-method", w+" "+req.method, c.instr.Pos(), "%q is not a request method of this client; request: %s", req.method, req.text)
	}
	smp := w + ": " + req.text
	if len(m.samples) < 30 && !contains(m.samples, smp) {
		m.samples = append(m.samples, smp)
	}
	// R02
	cs, n := req.get("CSeq")
	if n != 1 || len(cs.value) != 1 || (cs.value[0].op != "int" && !isDigits(cs.value[0])) {
		m.add("R02", "cseq-header", w+" "+req.method, c.instr.Pos(), "%d CSeq headers, value %s; request: %s", n, showPieces(cs.value), req.text)
	} else {
		m.cseq(st, ev, termInt(cs.value[0]), w)
	}
	// R03
	if st.tag("out") == "entry" {
		idle, ok := m.idleValue()
		if f, is := st.ghost["flag0"].(Bool); ok && is {
			cnd := f.C
			if !idle {
				cnd = cnd.not()
			}
			m.counts["R03"]++
			if st.eval(cnd) != 1 {
				m.add("R03", "sends-while-waiting", w+" "+req.method, c.instr.Pos(), "a %s request can be sent while the response of an earlier request is still awaited", req.method)
			}
		}
	} else if st.tag("out") == "yes" {
		m.add("R03", "sends-while-waiting", w+" "+req.method, c.instr.Pos(), "a %s request is sent before the response of the previous request was awaited", req.method)
	}
	st.setTag("out", "yes")
	// R04
	m.session(st, ev, w)
	// R05, R07
	m.auth(st, ev, w)
	// R06
	for _, x := range req.uri {
		if m.secret(x.deps) {
			m.add("R06", "password-in-uri", w+" "+req.method, c.instr.Pos(), "the request URI can contain the password: %s", showPieces(req.uri))
		}
	}
	for _, hd := range req.headers {
		m.counts["R06"]++
		for _, x := range hd.value {
			if strings.EqualFold(hd.name, "Authorization") {
				if x.op == "fn" && (x.s == "b64" || x.s == "hex") {
					continue
				}
			}
			if m.secret(x.deps) {
				m.add("R06", "password-in-header", w+" "+req.method+" "+hd.name, c.instr.Pos(), "header %s can contain the password: %s", hd.name, showPieces(hd.value))
			}
		}
	}
	// R08
	m.order(st, ev, w)
	// R10
	if st.tag("sent") == "" && st.tag("conn") == "new" {
		m.fresh(st, ev, w)
	}
	if req.method == "SETUP" {
		m.setup(st, ev, w)
		st.setGhost("nsetup", Int{ghostInt(st, "nsetup").addK(1)})
	}
	st.setTag("sent", "1")
	st.setGhost("nsend", Int{ghostInt(st, "nsend").addK(1)})
	st.setTag("proto", req.method)
	st.setTag("sidset", "")
	if nd := st.tag("nd"); req.method == "DESCRIBE" && len(nd) < 3 {
		st.setTag("nd", nd+"d")
	}
	st.setTag("ans", "no")
	st.setGhost("resp", nil)
	ev.st = st.clone()
	m.sends = append(m.sends, ev)
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

func isDigits(t *Term) bool {
	if t.op != "const" || t.s == "" {
		return false
	}
	return strings.Trim(t.s, "0123456789") == ""
}

func termInt(t *Term) Lin {
	if t.op == "int" {
		return t.lins[0]
	}
	var n int64
	fmt.Sscan(t.s, &n)
	return K(n)
}

// ---------------------------------------------------------------- R02

func (m *sessModel) cseq(st *State, ev *sendEv, v Lin, w string) {
	m.counts["R02"]++
	cands := map[string]bool{}
	m.paths(st, func(pa, _ string, T types.Type, x Val, _ Loc) {
		if i, ok := x.(Int); ok && isInt(T) && (st.poly.entailsEq(i.L, v) || st.poly.entailsEq(i.L, v.addK(1))) {
			cands[pa] = true
		}
	})
	m.counts["cseqSends"]++
	for c := range cands {
		m.cseqPath[c]++
	}
	if last, ok := st.ghost["cseq"].(Int); ok {
		if !st.poly.entailsEq(v, last.L.addK(1)) {
			m.add("R02", "cseq-step", w+" "+ev.req.method, ev.pos, "the CSeq of this request (%s) is not the CSeq of the request before it plus one (%s)", v, last.L.addK(1))
		}
	}
	st.setGhost("cseq", Int{v})
	if st.ghost["cseqFirst"] == nil {
		st.setGhost("cseqFirst", Int{v})
	}
}

// ---------------------------------------------------------------- R04

func (m *sessModel) session(st *State, ev *sendEv, w string) {
	h, n := ev.req.get("Session")
	m.counts["R04"]++
	m.sidCheck(st, w, ev.pos)
	if ev.req.method == "DESCRIBE" {
		if n > 0 {
			m.add("R04", "session-in-describe", w, ev.pos, "DESCRIBE carries a Session header: %s", ev.req.text)
		}
		return
	}
	if n == 1 {
		t := tCat(h.value...)
		m.counts["sidSends"]++
		m.paths(st, func(pa, _ string, T types.Type, x Val, _ Loc) {
			if s, ok := x.(Str); ok && s.T == t {
				m.sidPath[pa]++
			}
		})
	}
}

// ---------------------------------------------------------------- R05 R07

func (m *sessModel) auth(st *State, ev *sendEv, w string) {
	h, n := ev.req.get("Authorization")
	if n == 0 {
		if st.tag("acc") == "" {
			m.authPtrs(st, func(pa string, v Ptr) {
				if st.isNil(v.N) != triNil {
					st.setTag("acc", "none")
				}
			})
		}
		return
	}
	m.counts["R05"]++
	u, errs := checkAuth(h.value, ev.req.method)
	for _, e := range errs {
		m.add("R05", "authorization", w+" "+ev.req.method, ev.pos, "%s", e)
	}
	if u == nil || len(errs) > 0 {
		return
	}
	ev.authObj = u
	// where the credentials are kept
	m.paths(st, func(pa, key string, T types.Type, x Val, _ Loc) {
		if m.authTy != nil && types.Identical(deref2(T), m.authTy) {
			if _, isp := T.Underlying().(*types.Pointer); !isp {
				return
			}
			us, pw, kind := m.creds(st, x)
			if us == nil {
				return
			}
			for _, t := range us {
				if t == u.user {
					for _, t2 := range pw {
						if t2 == u.pass {
							u.path = pa
						}
					}
				}
			}
			if u.path == pa {
				m.authPath[pa]++
				if kind.isK() {
					u.kindVal = kind.c
					m.kinds[kind.c] = u.kind
				} else if v, ok := constOf(st, kind); ok {
					u.kindVal = v
					m.kinds[v] = u.kind
				}
			}
		}
	})
	if st.tag("conn") == "new" {
		// R07: only after this server's challenge
		if st.tag("chal") == "" {
			m.add("R07", "authorization-without-challenge", w+" "+ev.req.method, ev.pos, "a %s request carries %s credentials although the server of this session sent no challenge (401)", ev.req.method, u.kind)
		} else if u.kind == "Basic" && strings.Contains(st.tag("chal"), "unchecked") {
			m.add("R07", "basic-preferred", w+" "+ev.req.method, ev.pos, "Basic credentials can be sent although the server offered a Digest challenge")
		}
	}
	if m.hasURL(ev.root) {
		for _, x := range []struct {
			n string
			t *Term
		}{{"user name", u.user}, {"password", u.pass}} {
			m.counts["R07"]++
			ok := len(x.t.deps) > 0
			for _, d := range x.t.deps {
				if !strings.HasPrefix(d, "url:") && d != "SECRET" {
					ok = false
				}
			}
			if !ok && !(x.t.op == "const") {
				m.add("R07", "foreign-credentials", w+" "+ev.req.method, ev.pos, "the %s sent (%s, from %v) is not taken from the URL being played", x.n, x.t, x.t.deps)
			}
		}
	}
	st.setTag("acc", u.kind)
}

func constOf(st *State, l Lin) (int64, bool) {
	lo, ok := st.lo(l)
	hi, ok2 := st.hi(l)
	if ok && ok2 && lo == hi {
		return lo, true
	}
	return 0, false
}

func (m *sessModel) hasURL(f *ssa.Function) bool { return urlParam(f) != nil }

// urlParam is the parameter that holds the RTSP URL.
func urlParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && strings.Contains(strings.ToLower(p.Name()), "rtsp") {
			return p
		}
	}
	if strings.HasPrefix(f.Name(), "Play") {
		var last *ssa.Parameter
		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				last = p
			}
		}
		return last
	}
	return nil
}

// creds lists the string fields of an authenticator and its kind.
func (m *sessModel) creds(st *State, v Val) (user, pass []*Term, kind Lin) {
	p, ok := v.(Ptr)
	if !ok || st.isNil(p.N) == triNil || len(p.Locs) == 0 {
		return nil, nil, K(-1)
	}
	kind = K(-1)
	u := m.authTy.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		switch x := st.load(p.Locs[0].sub(Step{field: i}), u.Field(i).Type()).(type) {
		case Str:
			user = append(user, x.T)
			pass = append(pass, x.T)
		case Int:
			kind = x.L
		}
	}
	return
}

// onStore watches the credentials being chosen.
func (m *sessModel) onStore(in *Interp, st *State, l Loc, v Val, at ssa.Instruction) {
	s, ok := at.(*ssa.Store)
	if !ok {
		return
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || m.authTy == nil {
		return
	}
	key, fv, named := fieldOf(fa)
	if fv == nil {
		return
	}
	if m.secret(st.depsOf(v)) {
		if secretFields == nil {
			secretFields = map[string]bool{}
		}
		secretFields[key] = true
	}
	if x, ok := v.(Str); ok && !types.Identical(named, m.respTy) && strings.Contains(strings.ToLower(fv.Name()), "session") {
		m.sidStore(st, l, key, x.T, at)
	}
	pt, ok := fv.Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), m.authTy) || types.Identical(named, m.respTy) {
		return
	}
	m.stores++
	x, ok := v.(Ptr)
	if !ok {
		return
	}
	if st.isNil(x.N) == triNil {
		st.setTag("chal", "")
		if st.tag("sent") != "" {
			m.add("R05", "credentials-dropped", m.where()+" "+key, at.Pos(), "the accepted challenge is dropped in the middle of a session (%s is set to nil)", key)
		}
		return
	}
	// must come from the last response, which must be a 401
	resp, _ := st.ghost["resp"].(Ptr)
	if len(resp.Locs) == 0 || st.isNil(resp.N) == triNil {
		m.add("R07", "challenge-source", m.where()+" "+key, at.Pos(), "credentials are set although no response was received")
		return
	}
	u := m.respTy.Underlying().(*types.Struct)
	from := ""
	var others []string
	is401 := false
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fvv := st.load(resp.Locs[0].sub(Step{field: i}), f.Type())
		if fp, ok := fvv.(Ptr); ok && types.Identical(deref2(f.Type()), m.authTy) {
			if len(fp.Locs) > 0 && len(x.Locs) > 0 && fp.Locs[0].key() == x.Locs[0].key() {
				from = f.Name()
			} else if st.isNil(fp.N) != triNil && strings.Contains(m.kindOf[f.Name()], "Digest") {
				others = append(others, f.Name())
			}
		}
		if n, ok := fvv.(Int); ok && f.Name() == "Status" {
			if c, ok := constOf(st, n.L); ok && c == 401 {
				is401 = true
			}
		}
	}
	if from == "" {
		m.add("R07", "challenge-source", m.where()+" "+key, at.Pos(), "the credentials do not come from the challenge of the response just received")
		return
	}
	if !is401 {
		m.add("R07", "challenge-status", m.where()+" "+key, at.Pos(), "a challenge is accepted from a response whose status is not known to be 401")
	}
	t := "ok:" + from
	if len(others) > 0 && strings.Contains(m.kindOf[from], "Basic") {
		t = "unchecked:" + from
	}
	st.setTag("chal", t)
}

// challengeKinds finds out which fields of a response hold which kind of
// challenge: the values stored into the kind field next to them.
func (m *sessModel) challengeKinds() {
	if m.respTy == nil || m.authTy == nil {
		return
	}
	u := m.respTy.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if types.Identical(deref2(f.Type()), m.authTy) {
			n := strings.ToLower(f.Name())
			switch {
			case strings.Contains(n, "digest"):
				m.kindOf[f.Name()] = "Digest"
			case strings.Contains(n, "basic"):
				m.kindOf[f.Name()] = "Basic"
			default:
				m.kindOf[f.Name()] = "Digest Basic"
			}
		}
	}
}

// ---------------------------------------------------------------- R06

var secretFields map[string]bool

func (m *sessModel) secret(deps []string) bool {
	for _, d := range deps {
		if strings.Contains(d, "SECRET") {
			return true
		}
		for k := range secretFields {
			if strings.HasSuffix(d, k[strings.LastIndex(k, "."):]) {
				return true
			}
		}
		if strings.HasSuffix(d, ".password") {
			return true
		}
	}
	return false
}

func (m *sessModel) urlCall(in *Interp, st *State, c *CallEv) ([]outcome, bool) {
	switch c.name {
	case "net/url.Parse", "net/url.ParseRequestURI":
		t := in.text(st, c.args[0])
		if !m.isURLText(t) {
			return nil, false
		}
		bad := st.clone()
		e := in.newErr("url.Parse")
		e.Deps = []string{"SECRET"}
		x := st.expand(Opaque{T: c.T.At(0).Type(), Label: in.lbl("url"), NN: true}).(Ptr)
		T := deref2(c.T.At(0).Type())
		u := T.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			l := x.Locs[0].sub(Step{field: i})
			switch f.Name() {
			case "User":
				v := st.expand(Opaque{T: f.Type(), Label: in.lbl("userinfo")})
				st.store(l, v, f.Type())
			case "Opaque":
				// no userinfo is recognised in an opaque URL, what is there is the URI
				st.store(l, Str{tFresh("url."+f.Name(), []string{"url:" + f.Name()})}, f.Type())
			default:
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					st.store(l, Str{tFresh("url."+f.Name(), []string{"url:" + f.Name()})}, f.Type())
				}
			}
		}
		return []outcome{{st: st, vals: []Val{x, Iface{N: isNil}}}, {st: bad, vals: []Val{Ptr{N: isNil}, e}}}, true
	case "(*net/url.URL).String", "(*net/url.URL).Redacted":
		p, ok := c.args[0].(Ptr)
		deps := []string{"url:", "SECRET"}
		if ok && len(p.Locs) == 1 {
			T := deref2(c.common.Args[0].Type())
			i := fieldIndex(T, "User")
			if v, is := st.load(p.Locs[0].sub(Step{field: i}), T.Underlying().(*types.Struct).Field(i).Type()).(Ptr); is && st.isNil(v.N) == triNil {
				deps = []string{"url:"}
			}
		}
		if strings.HasSuffix(c.name, "Redacted") {
			deps = []string{"url:"}
		}
		return ret1(st, Str{tFresh("url text", deps)}), true
	case "(*net/url.Userinfo).Username":
		return ret1(st, Str{tFresh("user", []string{"url:user"})}), true
	case "(*net/url.Userinfo).String":
		return ret1(st, Str{tFresh("userinfo", []string{"url:user", "SECRET"})}), true
	case "(*net/url.Userinfo).Password":
		return []outcome{{st: st, vals: []Val{Str{tFresh("pass", []string{"SECRET"})}, Bool{cFresh("haspass")}}}}, true
	}
	return nil, false
}

func (m *sessModel) isURLText(t *Term) bool {
	u := urlParam(m.curRoot)
	if u == nil {
		return false
	}
	for _, d := range t.deps {
		if strings.HasSuffix(d, "."+u.Name()) {
			return true
		}
	}
	return false
}

func (m *sessModel) secretOrURL(st *State, v Val) bool {
	d := st.depsOf(v)
	if m.secret(d) {
		return true
	}
	if u := urlParam(m.curRoot); u != nil {
		for _, x := range d {
			if x == fname(m.curRoot)+"."+u.Name() {
				return true
			}
		}
	}
	return false
}

// isDial: calls that establish a connection.
func isDial(n string) bool {
	return strings.HasPrefix(n, "net.Dial") || strings.HasPrefix(n, "(*net.Dialer)") || strings.Contains(n, "websocket.") && strings.Contains(n, "Dial") || strings.Contains(n, "websocket.NewClient")
}

// sinks: logging and printing.
func (m *sessModel) sinks(in *Interp, st *State, c *CallEv) {
	n := c.name
	isLog := strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger)") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "builtin print") || strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "log/slog") || strings.HasPrefix(n, "(*log/slog")
	isDial := isDial(n)
	if !isLog && !isDial {
		return
	}
	m.logs++
	args := append([]Val{}, c.args...)
	for _, a := range c.args {
		if s, ok := a.(Slice); ok {
			if xs, ok := sliceArgs(in, st, s); ok {
				args = append(args, xs...)
			}
		}
	}
	for _, a := range args {
		if m.secretOrURL(st, a) || m.deepSecret(in, st, a, 0) {
			what := "is logged"
			if isDial {
				what = "is given to " + n
			}
			m.add("R06", "password-logged", fname(c.instr.Parent())+" "+n, c.instr.Pos(), "a value that can contain the password %s: %s", what, showVal(a))
		}
	}
}

func (m *sessModel) deepSecret(in *Interp, st *State, v Val, d int) bool {
	if d > 2 {
		return false
	}
	switch x := v.(type) {
	case Iface:
		for _, a := range x.Alts {
			if m.deepSecret(in, st, a.V, d+1) {
				return true
			}
		}
	case Ptr:
		for _, l := range x.Locs {
			if o := st.heap[l.obj]; o != nil && o.kind == 'v' {
				if _, isOp := o.v.(Opaque); isOp {
					continue
				}
				if s, ok := o.v.(Struct); ok {
					for _, f := range s.F {
						if _, isp := f.(Ptr); isp {
							continue
						}
						if m.secret(st.depsOf(f)) {
							return true
						}
					}
				}
			}
		}
	case Struct:
		for _, f := range x.F {
			if m.secret(st.depsOf(f)) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- R08

func (m *sessModel) status(st *State) (Lin, bool) {
	p, ok := st.ghost["resp"].(Ptr)
	if !ok || len(p.Locs) != 1 || st.isNil(p.N) != triNon {
		return K(0), false
	}
	i := fieldIndex(m.respTy, "Status")
	if i < 0 {
		return K(0), false
	}
	x, ok := st.load(p.Locs[0].sub(Step{field: i}), m.respTy.Underlying().(*types.Struct).Field(i).Type()).(Int)
	if !ok {
		return K(0), false
	}
	return x.L, true
}

func (m *sessModel) is200(st *State) bool {
	if l, ok := m.status(st); ok {
		c, ok := constOf(st, l)
		return ok && c == 200
	}
	return false
}

func (m *sessModel) order(st *State, ev *sendEv, w string) {
	if st.tag("conn") != "new" {
		return
	}
	m.counts["R08"]++
	prev, ans := st.tag("proto"), st.tag("ans")
	me := ev.req.method
	bad := func(format string, a ...any) {
		m.add("R08", "step-order", w+" "+prev+">"+me, ev.pos, format, a...)
	}
	if prev != "" && ans != "yes" {
		bad("%s is sent although the response to %s was not received", me, prev)
		return
	}
	switch me {
	case "DESCRIBE":
		if prev != "" && prev != "DESCRIBE" {
			bad("DESCRIBE is sent after %s", prev)
		}
	case "SETUP", "PLAY":
		if prev != "DESCRIBE" && prev != "SETUP" {
			bad("%s is sent after %q", me, prev)
		} else if !m.is200(st) {
			bad("%s is sent although the response to %s is not known to have status 200", me, prev)
		}
		if me == "PLAY" {
			// every described stream was set up
			n := ghostInt(st, "nsetup")
			ok, found := m.mediaCount(st, n)
			if !found {
				bad("PLAY is sent without a description")
			} else if !ok {
				bad("PLAY can be sent although not every described stream was set up (%s SETUP requests)", n)
			}
		}
	}
}

// mediaCount: the number of described streams is n.
func (m *sessModel) mediaCount(st *State, n Lin) (eq, found bool) {
	m.paths(st, func(pa, _ string, T types.Type, v Val, _ Loc) {
		p, ok := v.(Ptr)
		if !ok {
			return
		}
		et := deref2(T)
		u, ok := et.Underlying().(*types.Struct)
		if !ok || st.isNil(p.N) == triNil {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			nn, ok := sl.Elem().(*types.Named)
			if !ok || nn.Obj().Name() != "MediaSubsession" {
				continue
			}
			for _, l := range p.Locs {
				if s, ok := st.load(l.sub(Step{field: i}), u.Field(i).Type()).(Slice); ok {
					found = true
					if st.poly.entailsEq(s.Len, n) {
						eq = true
					}
				}
			}
		}
	})
	return
}

// ---------------------------------------------------------------- R10

// fresh: at the first request over a new connection, nothing that earlier
// calls may have changed is still in use.
func (m *sessModel) fresh(st *State, ev *sendEv, w string) {
	m.first++
	ff := m.p.fieldFacts()
	url := m.hasURL(ev.root)
	seenMap := map[ObjID]bool{}
	m.paths(st, func(pa, key string, T types.Type, v Val, l Loc) {
		if !ff.mutable[key] || m.isConfig(key) {
			return
		}
		e, had := st.ghost["entry:"+pa]
		m.counts["R10"]++
		if ff.counter[key] && m.cseqPath[pa] > 0 {
			return // the sequence counter goes on
		}
		if had && sameEntry(st, e, v) {
			if !url && m.fromURL(key) {
				return // set by the caller, together with the connection
			}
			m.add("R10", "stale-state", key+" in "+w, ev.pos, "at the first request of a new attempt %s still holds what the previous attempt left there (%s)", pa, showVal(v))
			return
		}
		_ = seenMap
	})
	// containers and channels of the session must be new and empty
	m.deep(st, func(pa string, o *Obj, T types.Type) {
		m.counts["R10"]++
		if o.input {
			m.add("R10", "stale-container", pa+" in "+w, ev.pos, "at the first request of a new attempt %s is still the %s of the previous attempt", pa, T)
			return
		}
		if o.kind == 'm' && (o.mp.vdef != nil || len(o.mp.ents) > 0) {
			m.add("R10", "stale-container", pa+" in "+w, ev.pos, "at the first request of a new attempt %s is not empty", pa)
		}
	})
}

// isConfig: fields that configure the client rather than describe an attempt.
func (m *sessModel) isConfig(key string) bool {
	switch key[strings.LastIndex(key, ".")+1:] {
	case "timeoutSec", "dataHandle", "eventHandle", "rtpProtocol", "userAgent", "controlID", "setupHeaders", "bandwidth":
		return true
	}
	return false
}

func (m *sessModel) fromURL(key string) bool {
	for _, f := range m.p.funcs {
		if !strings.Contains(f.Name(), "ParsingURL") {
			continue
		}
		for _, s := range m.p.fieldFacts().at[key] {
			if s.Parent() == f {
				return true
			}
		}
	}
	return false
}

func sameEntry(st *State, a, b Val) bool {
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || len(x.Locs) == 0 || len(y.Locs) == 0 || st.isNil(y.N) == triNil {
			return false
		}
		for _, l := range y.Locs {
			if l.key() == x.Locs[0].key() {
				return true
			}
		}
		return false
	case Int:
		y, ok := b.(Int)
		return ok && x.L.eq(y.L) && !x.L.isK()
	case Bool:
		y, ok := b.(Bool)
		return ok && x.C.key() == y.C.key() && st.eval(y.C) < 0
	case Str:
		y, ok := b.(Str)
		if !ok {
			return false
		}
		if x.T == y.T && x.T.op != "const" {
			return true
		}
		return false
	case Iface:
		y, ok := b.(Iface)
		return ok && y.Other && x.Label == y.Label && x.Label != ""
	}
	return false
}

func (m *sessModel) deep(st *State, f func(pa string, o *Obj, T types.Type)) {
	m.paths(st, func(pa, key string, T types.Type, v Val, l Loc) {
		switch T.Underlying().(type) {
		case *types.Map, *types.Chan:
			if p, ok := v.(Ptr); ok && st.isNil(p.N) != triNil {
				for _, l := range p.Locs {
					if o := st.objOf(l.obj); o != nil {
						f(pa, o, T)
					}
				}
			}
		}
	})
}

// ---------------------------------------------------------------- R15

func (m *sessModel) setup(st *State, ev *sendEv, w string) {
	if st.tag("conn") != "new" {
		return
	}
	m.setups++
	m.counts["R15"]++
	tr, n := ev.req.get("Transport")
	bad := func(rule, format string, a ...any) {
		m.add("R15", rule, w, ev.pos, format, a...)
	}
	if n != 1 {
		bad("transport", "%d Transport headers", n)
		return
	}
	la, lb, ok := channels(tr.value)
	if !ok {
		bad("transport", "no interleaved=<n>-<n+1> in the Transport header: %s", showPieces(tr.value))
		return
	}
	if !st.poly.entailsEq(lb, la.addK(1)) {
		bad("control-channel", "the control channel %s is not the media channel %s plus one", lb, la)
	}
	k := ghostInt(st, "nsetup")
	if !st.poly.entailsEq(la, k.scale(2)) {
		bad("channel-number", "the media channel %s of the stream number %s is not twice that number", la, k)
	}
	for _, x := range []struct{ g, what string }{{"parserKey", "packets are delivered"}, {"mediaKey", "the stream is published"}} {
		v, ok := st.ghost[x.g].(Int)
		if !ok || !st.poly.entailsEq(v.L, la) {
			bad("channel-"+x.g, "SETUP announces channel %s, but %s under %s", la, x.what, showVal(st.ghost[x.g]))
		}
	}
}

// channels finds the two numbers of interleaved=a-b.
func channels(ps []*Term) (a, b Lin, ok bool) {
	var flat strings.Builder
	for i, x := range ps {
		if x.op == "const" {
			flat.WriteString(x.s)
		} else {
			fmt.Fprintf(&flat, "\x00%d\x01", i)
		}
	}
	mm := interRE.FindStringSubmatch(flat.String())
	if mm == nil {
		return
	}
	num := func(s string) (Lin, bool) {
		if s[0] != 0 {
			return termInt(tConst(s)), true
		}
		i := 0
		fmt.Sscan(s[1:len(s)-1], &i)
		if ps[i].op != "int" {
			return K(0), false
		}
		return ps[i].lins[0], true
	}
	a, ok = num(mm[1])
	if !ok {
		return
	}
	b, ok = num(mm[2])
	return
}

var interRE = regexp.MustCompile("interleaved=([0-9]+|\x00[0-9]+\x01)-([0-9]+|\x00[0-9]+\x01)(?:;|$)")

// ---------------------------------------------------------------- exits

func errNil(st *State, v Val) tri {
	if i, ok := v.(Iface); ok {
		return st.isNil(i.N)
	}
	return triMaybe
}

func (m *sessModel) post() {
	if len(m.sends) == 0 {
		return
	}
	best := func(c map[string]int) string {
		b, bn := "", 0
		for _, k := range sortedStr(c) {
			if c[k] > bn {
				b, bn = k, c[k]
			}
		}
		return b
	}
	cseq, sid, auth := best(m.cseqPath), best(m.sidPath), best(m.authPath)
	if verbose {
		fmt.Println("discovered cseq", m.cseqPath, "session", m.sidPath, "auth", m.authPath, "kinds", m.kinds)
	}
	if cseq == "" || m.cseqPath[cseq] < m.counts["cseqSends"] {
		m.curRoot = m.roots[0]
		m.add("R02", "cseq-source", "session", m.sends[0].pos, "not every request carries the value of one sequence counter of the session (%d of %d requests carry %s)", m.cseqPath[cseq], m.counts["cseqSends"], cseq)
	}
	if m.counts["sidSends"] > 0 && m.sidPath[sid] < m.counts["sidSends"] {
		m.curRoot = m.roots[0]
		m.add("R04", "session-source", "session", m.sends[0].pos, "not every Session header holds the identifier the session keeps (%d of %d hold %s)", m.sidPath[sid], m.counts["sidSends"], sid)
	}
	for _, s := range m.sends {
		m.curRoot = s.root
		w := fname(s.root)
		st := s.st
		if _, n := s.req.get("Session"); n == 0 && s.req.method != "DESCRIBE" && sid != "" {
			if v, ok := m.at(st, sid); ok {
				if x, is := v.(Str); !is || !isEmptyStr(st, x.T) {
					m.add("R04", "session-missing", w+" "+s.req.method, s.pos, "%s carries no Session header although the session has an identifier (%s): %s", s.req.method, showVal(v), s.req.text)
				}
			}
		}
		if _, n := s.req.get("Authorization"); n == 0 && auth != "" {
			v, ok := m.at(st, auth)
			p, is := v.(Ptr)
			if ok && is && st.isNil(p.N) != triNil {
				_, _, kind := m.creds(st, v)
				for k, name := range m.kinds {
					c := st.clone()
					if c.isNil(p.N) == triMaybe && !c.assume(nilCond(p.N).not()) {
						continue
					}
					if c.addEQ(kind.addK(-k)) && !c.poly.unsat() {
						m.add("R05", "authorization-missing", w+" "+s.req.method, s.pos, "%s carries no Authorization header although a %s challenge was accepted: %s", s.req.method, name, s.req.text)
						break
					}
				}
			}
		}
	}
	idle, flagOK := m.idleValue()
	for _, e := range m.exits {
		if e.pan {
			continue
		}
		st, w := e.st, fname(e.root)
		m.curRoot = e.root
		sent := st.tag("sent") != ""
		var err Val
		if n := len(e.vals); n > 0 && e.root.Signature.Results().Len() > 0 && isErr(e.root.Signature.Results().At(n-1).Type()) {
			err = e.vals[n-1]
		}
		// R02: the counter itself
		if cseq != "" {
			m.counts["R02"]++
			v, ok := m.at(st, cseq)
			x, is := v.(Int)
			if ok && is {
				if last, ok := st.ghost["cseq"].(Int); ok {
					if !st.poly.entailsEq(x.L, last.L.addK(1)) {
						m.add("R02", "counter-step", w, e.root.Pos(), "after %s the counter (%s) is not the CSeq of the last request sent plus one (%s)", w, x.L, last.L.addK(1))
					}
				} else if e0, ok := st.ghost["entry:"+cseq].(Int); ok && !st.poly.entailsEq(x.L, e0.L) {
					m.add("R02", "counter-step", w, e.root.Pos(), "%s changes the counter without sending a request", w)
				}
				if f0, ok := st.ghost["cseqFirst"].(Int); ok {
					if e0, ok := st.ghost["entry:"+cseq].(Int); ok && !st.poly.entailsEq(f0.L, e0.L) {
						m.add("R02", "counter-first", w, e.root.Pos(), "the first request of %s carries CSeq %s instead of the counter's value %s", w, f0.L, e0.L)
					}
				}
			}
		}
		// R03: the mark agrees with whether somebody still waits
		if flagOK {
			v, ok := m.at(st, m.flagPath())
			b, is := v.(Bool)
			if ok && is {
				m.counts["R03"]++
				want := ""
				switch st.tag("out") {
				case "yes":
					want = "busy"
				case "no":
					want = "idle"
				}
				c := b.C
				if !idle {
					c = c.not()
				}
				if want == "idle" && st.eval(c) != 1 {
					m.add("R03", "mark-not-cleared", w, e.root.Pos(), "%s can return with the mark of an outstanding request set although the wait is over", w)
				}
				if want == "busy" && st.eval(c) != 0 {
					m.add("R03", "mark-not-set", w, e.root.Pos(), "%s can return after sending a request without marking it as outstanding", w)
				}
				if f0, ok := st.ghost["flag0"].(Bool); ok && st.tag("out") == "entry" && st.tag("conn") == "" {
					if f0.C.key() != b.C.key() && !(st.eval(f0.C) >= 0 && st.eval(f0.C) == st.eval(b.C)) {
						m.add("R03", "mark-changed", w, e.root.Pos(), "%s changes the mark of an outstanding request without sending or waiting", w)
					}
				}
				if f0, ok := st.ghost["flag0"].(Bool); ok {
					c0 := f0.C
					if !idle {
						c0 = c0.not()
					}
					isSend := strings.HasPrefix(e.root.Name(), "Send")
					if isSend && st.eval(c0) == 0 {
						if sent {
							m.add("R03", "sends-while-waiting", w, e.root.Pos(), "%s sends although a request is outstanding", w)
						}
						if err != nil && errNil(st, err) != triNon {
							m.add("R03", "no-error", w, e.root.Pos(), "%s returns no error although a request is outstanding", w)
						}
						m.paths(st, func(pa, _ string, T types.Type, v Val, _ Loc) {
							if e0, ok := st.ghost["entry:"+pa]; ok && !sameVal(st, e0, v) {
								m.add("R03", "changes-while-waiting", w+" "+pa, e.root.Pos(), "%s changes %s although a request is outstanding", w, pa)
							}
						})
					}
					if isSend && err != nil && errNil(st, err) == triNil && !sent {
						m.add("R03", "success-without-sending", w, e.root.Pos(), "%s returns no error without having sent the request", w)
					}
				}
			}
		}
		// R04: the identifier in use is the one of the last SETUP response
		m.sidExit(st, e, sid, w)
		// R05
		if a := st.tag("acc"); a != "" && a != "none" && auth != "" {
			if v, ok := m.at(st, auth); ok {
				if p, is := v.(Ptr); is && st.isNil(p.N) == triNil {
					m.add("R05", "credentials-dropped", w, e.root.Pos(), "after %s the accepted challenge is forgotten", w)
				}
			}
		}
		// R06: errors
		if err != nil && (m.secret(st.depsOf(err)) || m.secretOrURL(st, err)) {
			m.add("R06", "password-in-error", w, e.root.Pos(), "the error returned by %s can contain the password", w)
		}
		// R10: nothing of an earlier attempt keeps this one from starting
		if st.tag("conn") == "new" && !sent {
			if f0, ok := st.ghost["flag0"].(Bool); ok && flagOK {
				c0 := f0.C
				if !idle {
					c0 = c0.not()
				}
				if st.eval(c0) == 0 {
					m.add("R10", "stale-state", "mark in "+w, e.root.Pos(), "over a new connection %s sends nothing because a request of the previous attempt is still marked as outstanding", w)
				}
			}
		}
		// R08
		if st.tag("conn") == "new" && err != nil && errNil(st, err) != triNon {
			m.counts["R08"]++
			if st.tag("proto") != "PLAY" || st.tag("ans") != "yes" || !m.is200(st) {
				m.add("R08", "early-success", w, e.root.Pos(), "%s can return success although PLAY was not answered with status 200 (last request %q, answered %q)", w, st.tag("proto"), st.tag("ans"))
			}
		}
		// R09
		m.events9(st, e, err, w)
	}
}

func sortedStr(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func isEmptyStr(st *State, t *Term) bool {
	if t.op == "const" {
		return t.s == ""
	}
	if s, ok := st.streq[t.id]; ok && s == "" {
		return true
	}
	return st.poly.entailsEq(t.n, K(0))
}

func sameVal(st *State, a, b Val) bool {
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		return ok && st.poly.entailsEq(x.L, y.L)
	case Bool:
		y, ok := b.(Bool)
		return ok && (x.C.key() == y.C.key() || st.eval(x.C) >= 0 && st.eval(x.C) == st.eval(y.C))
	case Str:
		y, ok := b.(Str)
		return ok && x.T == y.T
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if len(x.Locs) != len(y.Locs) {
			return false
		}
		for i := range x.Locs {
			if x.Locs[i].key() != y.Locs[i].key() {
				return false
			}
		}
	}
	return true
}

// sidExit: after a SETUP response with an identifier, that identifier is kept.
func (m *sessModel) sidExit(st *State, e *exitEv, sid, w string) {
	if sid == "" {
		return
	}
	m.sidCheck(st, w, e.root.Pos())
}

// respSid is the session identifier of the last response.
func (m *sessModel) respSid(st *State) (*Term, bool) {
	p, ok := st.ghost["resp"].(Ptr)
	if !ok || len(p.Locs) != 1 || st.isNil(p.N) != triNon {
		return nil, false
	}
	u := m.respTy.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && strings.Contains(strings.ToLower(f.Name()), "session") {
			if x, ok := st.load(p.Locs[0].sub(Step{field: i}), f.Type()).(Str); ok {
				return x.T, true
			}
		}
	}
	return nil, false
}

// sidStore watches the kept identifier being set.
func (m *sessModel) sidStore(st *State, l Loc, key string, t *Term, at ssa.Instruction) {
	if st.tag("conn") != "new" {
		return
	}
	m.counts["R04"]++
	bad := func(format string, a ...any) {
		m.add("R04", "identifier-kept", m.where()+" "+key, at.Pos(), format, a...)
	}
	if st.tag("proto") != "SETUP" || st.tag("ans") != "yes" {
		if st.tag("proto") == "SETUP" || st.tag("sidset") == "kept" {
			bad("the session identifier is set to %s although the response to SETUP was not received", t)
		} else if t.op == "const" && t.s != "" {
			bad("the session identifier is set to %s", t)
		}
		return
	}
	old, _ := st.load(l, types.Typ[types.String]).(Str)
	if old.T == t {
		return
	}
	rs, ok := m.respSid(st)
	if !ok {
		return
	}
	if rs == t {
		if !isNonEmpty(st, t) {
			if old.T == nil || !isEmptyStr(st, old.T) {
				bad("the identifier of the session is replaced by an empty one when a SETUP response holds none")
			}
		}
		st.setTag("sidset", "resp")
		return
	}
	if t.op == "const" {
		bad("the session identifier is set to %s after a SETUP response", t)
		st.setTag("sidset", "other")
		return
	}
	st.setTag("sidset", "mixed")
}

func isNonEmpty(st *State, t *Term) bool {
	if t.op == "const" {
		return t.s != ""
	}
	if s, ok := st.streq[t.id]; ok {
		return s != ""
	}
	return st.eval(cEQ(t.n)) == 0
}

// sidCheck: a SETUP response with an identifier was followed by keeping it.
func (m *sessModel) sidCheck(st *State, w string, pos token.Pos) {
	if st.tag("conn") != "new" || st.tag("ans") != "yes" || st.tag("proto") != "SETUP" || !m.is200(st) {
		return
	}
	m.counts["R04"]++
	switch st.tag("sidset") {
	case "resp", "mixed", "other", "none":
		return
	}
	if rs, ok := m.respSid(st); ok && !isEmptyStr(st, rs) {
		m.add("R04", "identifier-not-kept", w, pos, "the identifier of the response to SETUP (%s) is not kept before the next step", rs)
	}
}

func (m *sessModel) events9(st *State, e *exitEv, err Val, w string) {
	evs := strings.Fields(st.tag("ev"))
	isPlay := strings.HasPrefix(e.root.Name(), "Play") || e.root.Name() == "SetConnection"
	if !isPlay {
		for _, x := range evs {
			if x == "RequestSuccess" || x == "RequestError" {
				m.add("R09", "stray-event", w, e.root.Pos(), "%s reports %s although it is no playback attempt", w, x)
			}
		}
		return
	}
	if err == nil {
		return
	}
	m.counts["R09"]++
	// nobody listens
	if m.noListener(st) {
		return
	}
	succ, fail, disc := 0, 0, 0
	for _, x := range evs {
		switch x {
		case "RequestSuccess":
			succ++
		case "RequestError":
			fail++
		case "Disconnected":
			disc++
		}
	}
	en := errNil(st, err)
	if st.tag("conn") == "new" {
		switch {
		case succ+fail != 1:
			m.add("R09", "outcome-count", w, e.root.Pos(), "%s reports %d request outcomes (%v) for one attempt", w, succ+fail, evs)
		case succ == 1 && en != triNil:
			m.add("R09", "outcome-disagrees", w, e.root.Pos(), "%s reports success but can return an error", w)
		case fail == 1 && en != triNon:
			m.add("R09", "outcome-disagrees", w, e.root.Pos(), "%s reports failure but can return no error", w)
		}
		return
	}
	if succ+fail > 0 {
		m.add("R09", "outcome-without-connection", w, e.root.Pos(), "%s reports %v without a connection", w, evs)
	}
	if en != triNon {
		m.add("R09", "no-error", w, e.root.Pos(), "%s can return no error although it did not connect", w)
	}
	if st.tag("dialed") != "" && disc != 1 {
		m.add("R09", "no-disconnect-event", w, e.root.Pos(), "%s cannot connect and reports %d disconnected events", w, disc)
	}
}

func (m *sessModel) noListener(st *State) bool {
	no := false
	m.paths(st, func(pa, _ string, T types.Type, v Val, _ Loc) {
		if f, ok := v.(Func); ok {
			sg, ok := T.Underlying().(*types.Signature)
			if !ok || sg.Params().Len() != 1 {
				return
			}
			if n, ok := deref2(sg.Params().At(0).Type()).(*types.Named); ok && n.Obj().Name() == "RtspEvent" && st.isNil(f.N) == triNil {
				no = true
			}
		}
	})
	return no
}

var onlyRoot = os.Getenv("ONLY_ROOT")

// testsNil: the function compares its receiver with nil.
func testsNil(f *ssa.Function) bool {
	if len(f.Params) == 0 || f.Params[0].Referrers() == nil {
		return false
	}
	for _, i := range *f.Params[0].Referrers() {
		if b, ok := i.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			return true
		}
	}
	return false
}
