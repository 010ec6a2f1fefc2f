package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// T02: memory that was handed to a callback is not written to again, nor
// handed out again.

// handed follows one piece of memory (or what a field refers to) through the
// order of events: made, written, handed to a callback.
type handed struct {
	m     *memory
	evT   string // the type the callback is given
	dataK string // its field that carries bytes
	pkg   string
	x     *mbase
	key   string // the field, if x stands for what a field refers to
	memo  map[memInst]*handSum
	hit   func(at, by ssa.Instruction, what string)
	inst  map[*mbase]*memCtx
}

type handSum struct {
	done     bool
	makes    bool            // may make the memory
	must     bool            // every path that succeeds makes it
	ueW, ueD ssa.Instruction // written, handed out before it is made
	deD      ssa.Instruction // handed out, and still the same on return
}

// external functions that write to memory they are given.
var writesArg = map[string]bool{"Read": true, "ReadFull": true, "ReadAtLeast": true, "ReadAt": true, "PutUint16": true, "PutUint32": true, "PutUint64": true, "PutVarint": true, "PutUvarint": true, "Encode": true, "Decode": true, "XORKeyStream": true}

// event: the value handed to a callback by this instruction.
func (h *handed) event(i ssa.Instruction) ssa.Value {
	isEv := func(v ssa.Value) bool { return tname(deref(v.Type())) == h.evT }
	switch x := i.(type) {
	case *ssa.Send:
		if isEv(x.X) {
			return x.X
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() || cc.StaticCallee() != nil {
			return nil
		}
		if _, bi := cc.Value.(*ssa.Builtin); bi {
			return nil
		}
		for _, a := range cc.Args {
			if isEv(a) {
				return a
			}
		}
	}
	return nil
}

// carries: the event's bytes may be the memory.
func (h *handed) carries(ev ssa.Value) bool {
	m := h.m
	n := m.of(ev)
	known := false
	for b := range n.has {
		al, ok := b.v.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		keep := m.ctx
		m.ctx = h.inst[b]
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || fieldKeyOf(fa.X.Type(), fa.Field) != h.dataK || fa.Referrers() == nil {
				continue
			}
			known = true
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == fa && m.of(st.Val).has[h.x] {
					m.ctx = keep
					return true
				}
			}
		}
		m.ctx = keep
	}
	return !known && m.node("content " + h.dataK).has[h.x]
}

func (h *handed) writes(i ssa.Instruction) bool {
	m := h.m
	switch x := i.(type) {
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.IndexAddr); ok {
			return m.of(x.Addr).has[h.x]
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			if n := bi.Name(); (n == "copy" || n == "append" || n == "clear") && isBytes(cc.Args[0].Type()) {
				return m.of(cc.Args[0]).has[h.x]
			}
			return false
		}
		name := ""
		if cc.IsInvoke() {
			name = cc.Method.Name()
		} else if g := cc.StaticCallee(); g != nil && !m.p.inModule(g) {
			name = g.Name()
		}
		if !writesArg[name] {
			return false
		}
		for k, a := range cc.Args {
			if name == "Encode" && k > 0 && !isBytes(a.Type()) {
				continue
			}
			if isBytes(a.Type()) && m.of(a).has[h.x] {
				return true
			}
		}
	}
	return false
}

// made: from here on the memory is another one.
func (h *handed) made(i ssa.Instruction) bool {
	m := h.m
	if h.key != "" {
		st, ok := i.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fieldKeyOf(fa.X.Type(), fa.Field) == h.key && !m.of(st.Val).has[h.x]
	}
	switch x := i.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return true // what comes out of a channel is another one: what is written to after that is looked at apart
		}
	case *ssa.Select:
		return false
	}
	v, ok := i.(ssa.Value)
	if !ok || v != h.x.v {
		return false
	}
	at := h.inst[h.x]
	return m.ctx == at || m.ctx == nil || at == nil
}

// given: the call passes the memory on.
func (h *handed) given(ci ssa.CallInstruction) bool {
	for _, a := range ci.Common().Args {
		if h.m.of(a).has[h.x] {
			return true
		}
		if tname(deref(a.Type())) == h.evT && h.carries(a) {
			return true
		}
	}
	if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			if h.m.of(b).has[h.x] {
				return true
			}
			for bb := range h.m.of(b).has {
				if bb.cont.has[h.x] {
					return true
				}
			}
		}
	}
	return false
}

const (
	hEntry = 1 << iota
	hHanded
)

func (h *handed) sum(f *ssa.Function, ctx *memCtx) *handSum {
	k := memInst{f, ctx}
	if s := h.memo[k]; s != nil {
		return s
	}
	s := &handSum{}
	h.memo[k] = s
	m := h.m
	keep := m.ctx
	m.ctx = ctx
	defer func() { m.ctx = keep }()
	type st struct {
		bits int
		by   ssa.Instruction
	}
	in := make([]st, len(f.Blocks))
	seen := make([]bool, len(f.Blocks))
	in[0], seen[0] = st{bits: hEntry}, true
	work := []*ssa.BasicBlock{f.Blocks[0]}
	must, returns := true, false
	var defers []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	step := func(i ssa.Instruction, c st) st {
		w := func(by ssa.Instruction) {
			if c.bits&hEntry != 0 && s.ueW == nil {
				s.ueW = by
			}
			if c.bits&hHanded != 0 {
				h.hit(c.by, by, "written to")
			}
		}
		d := func(by ssa.Instruction) {
			if c.bits&hEntry != 0 && s.ueD == nil {
				s.ueD = by
			}
			if c.bits&hHanded != 0 && h.key == "" {
				h.hit(c.by, by, "handed out")
			}
		}
		call := func(ci ssa.CallInstruction) {
			if g := ci.Common().StaticCallee(); g != nil && !m.p.inModule(g) {
				return
			}
			given := h.given(ci)
			all, any := true, false
			var after ssa.Instruction
			for _, g := range m.callees(ci) {
				if g.Blocks == nil || !m.p.inModule(g) {
					continue
				}
				gc := (*memCtx)(nil)
				n := len(ci.Common().Args)
				if ci.Common().IsInvoke() {
					n++
				}
				if n == len(g.Params) {
					gc = m.enter(ci, g)
				}
				gs := h.sum(g, gc)
				any = true
				if h.key != "" {
					if gs.ueW != nil {
						w(gs.ueW)
					}
					if gs.ueD != nil {
						d(gs.ueD)
					}
					all = all && gs.must
				} else {
					if given {
						if gs.ueW != nil {
							w(gs.ueW)
						}
						if gs.ueD != nil {
							d(gs.ueD)
						}
					}
					all = all && gs.makes && !given
					s.makes = s.makes || gs.makes
				}
				if gs.deD != nil && (h.key != "" || given || gs.makes) {
					after = gs.deD
				}
			}
			if any && all {
				c = st{}
			}
			if after != nil {
				c.bits |= hHanded
				c.by = after
			}
		}
		switch x := i.(type) {
		case *ssa.Go, *ssa.Defer:
			return c
		case *ssa.RunDefers:
			for _, dd := range defers {
				call(dd)
			}
			return c
		case ssa.CallInstruction:
			if ev := h.event(i); ev != nil {
				if h.carries(ev) {
					d(i)
					c.bits |= hHanded
					c.by = i
				}
				return c
			}
			if h.writes(i) {
				w(i)
			}
			if h.made(i) {
				s.makes = true
				return st{}
			}
			call(x)
			return c
		}
		if ev := h.event(i); ev != nil {
			if h.carries(ev) {
				d(i)
				c.bits |= hHanded
				c.by = i
			}
			return c
		}
		if h.writes(i) {
			w(i)
		}
		if h.made(i) {
			s.makes = true
			return st{}
		}
		return c
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		c := in[b.Index]
		for _, i := range b.Instrs {
			c = step(i, c)
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			returns = true
			if c.bits&hEntry != 0 && !failing(rt) {
				must = false
			}
			if c.bits&hHanded != 0 {
				s.deD = c.by
			}
		}
		for _, t := range b.Succs {
			o := in[t.Index]
			n := st{o.bits | c.bits, o.by}
			if n.by == nil {
				n.by = c.by
			}
			if !seen[t.Index] || n.bits != o.bits {
				seen[t.Index] = true
				in[t.Index] = n
				work = append(work, t)
			}
		}
	}
	s.must = must && returns
	s.done = true
	return s
}

// failing: the return reports an error.
func failing(rt *ssa.Return) bool {
	for _, v := range rt.Results {
		if !isError(v.Type()) {
			continue
		}
		switch x := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.MakeInterface, *ssa.Global:
			return true
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.Global); ok {
				return true
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && (g.String() == "errors.New" || g.String() == "fmt.Errorf") {
				return true
			}
		}
		vals := alias(v)
		for b := rt.Block(); b != nil; b = b.Idom() {
			d := b.Idom()
			if d == nil {
				break
			}
			if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
				if n, ok := nilTest(iff, vals); ok && d.Succs[n] == b && len(b.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func checkT02(p *Prog, r *Result) {
	r.explanation = "Where the bytes of connection events and media frames get their memory is found by an inclusion analysis. For every place that makes such memory, and every field that may hold it, the order of events on all paths of all functions is followed through calls: once the memory was handed to a callback, no path may write to it or hand it out again before it is made anew. Memory a reader or pool uses again may not be handed out. For frames, the path of one received packet is interpreted abstractly for every kind of packet: what is delivered is neither the parser's own buffer nor memory kept from before, and is not written to afterwards."
	m := p.memory()
	c := p.conc()
	// what fields refer to
	marks := map[string]*mbase{}
	var keys []string
	for _, pk := range p.pkgs {
		path := pk.Pkg.Path()
		if path != tcpPath && path != modPath {
			continue
		}
		for _, mem := range pk.Members {
			switch x := mem.(type) {
			case *ssa.Type:
				u, ok := x.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for k := 0; k < u.NumFields(); k++ {
					if isBytes(u.Field(k).Type()) {
						keys = append(keys, fieldKeyOf(x.Type(), k))
					}
				}
			}
		}
	}
	sort.Strings(keys)
	sites := []struct{ ev, data, pkg, path string }{
		{"tcpnetwork.ConnEvent", "tcpnetwork.ConnEvent.Data", "the connection", tcpPath},
		{"rtspclient.RtspData", "rtspclient.RtspData.Data", "the client", modPath},
	}
	carrier := func(k string) bool {
		for _, s := range sites {
			if s.data == k {
				return true
			}
		}
		return false
	}
	for _, k := range keys {
		if carrier(k) {
			continue
		}
		b := m.base("mark "+k, nil, "", "what "+k+" refers to")
		marks[k] = b
		m.add(m.node("content "+k), b)
	}
	m.solve()
	inst := map[*mbase]*memCtx{}
	for k, b := range m.bases {
		if ck, ok := k.(ctxKey); ok {
			inst[b] = ck.ctx
		}
	}
	isMark := map[*mbase]string{}
	for k, b := range marks {
		isMark[b] = k
	}
	// what channels, lists and tables of byte slices hold
	holds := map[*mbase]*mbase{}
	isHeld := map[*mbase]bool{}
	for _, b := range m.bases {
		if b.v == nil || b.key != "" || b.label != "" {
			continue
		}
		if !holdsBytes(b.v.Type()) || b.v.Parent() == nil || pkgOf(b.v.Parent()) != tcpPath {
			continue
		}
		holds[b] = nil
	}
	for b := range holds {
		mk := m.base([2]interface{}{"held", b}, nil, "", "what "+m.name(b)+" holds")
		holds[b] = mk
		isHeld[mk] = true
		m.add(b.cont, mk)
	}
	m.solve()
	md := mediaOf(p)
	ndel, nsub := 0, 0
	for _, s := range sites {
		n := m.node("content " + s.data)
		has := m.sorted(n)
		ndel += len(has)
		for _, b := range has {
			r.obligations++
			h := &handed{m: m, evT: s.ev, dataK: s.data, pkg: s.path, x: b, memo: map[memInst]*handSum{}, inst: inst}
			what := m.name(b)
			switch {
			case isHeld[b]:
				continue
			case isMark[b] != "":
				h.key = isMark[b]
				if s.path == modPath && (fieldPkg(h.key) == "tcpnetwork" || len(md.undec) == 0) {
					continue // followed by the connection, or interpreted below
				}
			case b.label != "":
				r.report("handed-out", s.data, "", "%s hands out %s, which is used again for what comes later", s.pkg, b.label)
				continue
			case b.key != "":
				r.report("handed-out", s.data, "", "%s hands out %s itself, which is used again for what comes later", s.pkg, b.key)
				continue
			case s.path == modPath:
				continue // frames made while a packet is processed: interpreted below
			}
			nsub++
			for from, mk := range holds {
				if from.cont.has[b] && h.key == "" {
					r.obligations++
					w := *h
					w.x = mk
					for _, in := range m.inst {
						if pkgOf(in.f) != s.path {
							continue
						}
						m.ctx = in.ctx
						for _, bl := range in.f.Blocks {
							for _, i := range bl.Instrs {
								if w.writes(i) {
									r.report("used-after-delivery", fname(in.f)+" recycled", p.pos(i.Pos()), "%s is handed to a callback, kept in %s, and may be written to in %s afterwards", what, m.name(from), fname(in.f))
								}
							}
						}
						m.ctx = nil
					}
				}
			}
			r.sample("%s: %s", s.data, what)
			h.hit = func(at, by ssa.Instruction, how string) {
				r.report("used-after-delivery", fname(by.Parent())+" "+how, p.pos(by.Pos()), "%s may be %s in %s after it was handed to a callback (%s)", what, how, fname(by.Parent()), p.pos(at.Pos()))
			}
			for _, f := range c.fns {
				if pkgOf(f) == s.path {
					h.sum(f, nil)
				}
			}
			r.obligations += len(h.memo)
		}
	}
	r.coverage["memory_handed_out"] = ndel
	r.coverage["followed"] = nsub
	r.require("memory handed out in events", ndel, 2)
	r.require("pieces of memory followed", nsub, 1)

	md.report("T02", r)
	var us []string
	for u := range md.undec {
		us = append(us, u)
	}
	sort.Strings(us)
	r.coverage["undecided"] = us
	for _, u := range us {
		fmt.Println("UNDECIDED property=T02 " + u)
	}
	if len(us) > 0 {
		return
	}
	for _, f := range md.found {
		if len(f) > 0 {
			return
		}
	}
	r.require("deliveries", md.delivers, 50)
}

// holdsBytes: a channel, list or table of byte slices.
func holdsBytes(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Chan:
		return isBytes(u.Elem())
	case *types.Map:
		return isBytes(u.Elem())
	case *types.Slice:
		return isBytes(u.Elem())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return isBytes(a.Elem())
		}
		if c, ok := u.Elem().Underlying().(*types.Slice); ok {
			return isBytes(c.Elem())
		}
	}
	return false
}

func fieldPkg(key string) string {
	for i := 0; i < len(key); i++ {
		if key[i] == '.' {
			return key[:i]
		}
	}
	return ""
}

func init() { checks["T02"] = checkT02 }
