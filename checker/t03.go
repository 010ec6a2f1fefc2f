package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T03: a connection reports connected first and disconnected once, last.

const (
	evInit = 1 << iota
	evConnected
	evDone
)

type evWalk struct {
	c    *conc
	p    *Prog
	r    *Result
	ids  map[string]int64 // event types
	pkg  string
	memo map[string]*evOut
	busy map[string]bool
	n    int
	kind map[int64]bool // types seen
}

type evOut struct {
	ret   int // states on return
	panic int // states when a panic leaves the function
}

// emission: a call of the connection's event handler, or a send of an event.
func (w *evWalk) emission(i ssa.Instruction) (ev ssa.Value, ok bool) {
	switch x := i.(type) {
	case *ssa.Send:
		if tname(deref(x.X.Type())) == "tcpnetwork.ConnEvent" {
			return x.X, true
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() || cc.StaticCallee() != nil {
			return
		}
		if _, bi := cc.Value.(*ssa.Builtin); bi {
			return
		}
		for _, a := range cc.Args {
			if tname(deref(a.Type())) == "tcpnetwork.ConnEvent" {
				return a, true
			}
		}
	}
	return
}

type constEnv map[*ssa.Parameter]int64

func (e constEnv) key() string {
	s := ""
	for p, v := range e {
		s += fmt.Sprintf("%s=%d,", p.Name(), v)
	}
	return s
}

func (e constEnv) eval(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return constNum(x)
	case *ssa.Convert:
		return e.eval(x.X)
	case *ssa.ChangeType:
		return e.eval(x.X)
	case *ssa.Parameter:
		n, ok := e[x]
		return n, ok
	}
	return 0, false
}

func envFor(g *ssa.Function, args []ssa.Value, e constEnv) constEnv {
	m := constEnv{}
	for k, q := range g.Params {
		if k < len(args) {
			if n, ok := e.eval(args[k]); ok {
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					m[q] = n
				}
			}
		}
	}
	return m
}

// eventType evaluates the type of an event.
func (w *evWalk) eventType(v ssa.Value, e constEnv, depth int) (int64, bool) {
	if depth == 0 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		n, ok := int64(0), false
		for _, r := range *x.Referrers() {
			fa, is := r.(*ssa.FieldAddr)
			if !is || !strings.HasSuffix(fieldKeyOf(fa.X.Type(), fa.Field), ".EventType") {
				continue
			}
			for _, s := range *fa.Referrers() {
				if st, is := s.(*ssa.Store); is && st.Addr == fa {
					if ok {
						return 0, false
					}
					if n, ok = e.eval(st.Val); !ok {
						return 0, false
					}
				}
			}
		}
		return n, ok
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			return 0, false
		}
		env := envFor(g, x.Call.Args, e)
		n, ok := int64(0), false
		for _, b := range g.Blocks {
			if rt, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && len(rt.Results) > 0 {
				m, is := w.eventType(rt.Results[0], env, depth-1)
				if !is || ok && m != n {
					return 0, false
				}
				n, ok = m, true
			}
		}
		return n, ok
	}
	return 0, false
}

func (w *evWalk) step(s int, n int64, at ssa.Instruction, f *ssa.Function) int {
	out := 0
	w.r.obligations++
	bad := func(rule, what string) {
		w.r.report(rule, fname(f), w.p.pos(at.Pos()), "%s %s", fname(f), what)
	}
	w.kind[n] = true
	for _, b := range []int{evInit, evConnected, evDone} {
		if s&b == 0 {
			continue
		}
		switch n {
		case w.ids["ConnEventConnected"]:
			if b == evConnected {
				bad("connected-twice", "reports the connection as connected when that has been reported before")
			}
			if b == evDone {
				bad("event-after-disconnected", "reports the connection as connected after it was reported as disconnected")
				out |= b
				continue
			}
			out |= evConnected
		case w.ids["ConnEventDisconnected"]:
			if b == evDone {
				bad("disconnected-twice", "may report the end of the connection twice")
			}
			out |= evDone
		case w.ids["ConnEventData"]:
			if b == evInit {
				bad("data-before-connected", "may deliver data before the connection was reported as connected")
			}
			if b == evDone {
				bad("event-after-disconnected", "may deliver data after the end of the connection was reported")
			}
			out |= b
		default:
			if b == evDone {
				bad("event-after-disconnected", "may deliver an event after the end of the connection was reported")
			}
			out |= b
		}
	}
	return out
}

// handlerNil: the branch asks whether there is a handler; the successor when
// there is one.
func handlerNil(iff *ssa.If) (int, bool) {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return 0, false
	}
	for _, v := range []ssa.Value{b.X, b.Y} {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			if b.Op == token.EQL {
				return 1, true
			}
			return 0, true
		}
	}
	return 0, false
}

// mayPanic: a call of code that is not the library's own.
func (w *evWalk) foreign(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return !strings.HasPrefix(extName(ci), "(net.")
	}
	if cc.StaticCallee() == nil {
		_, bi := cc.Value.(*ssa.Builtin)
		return !bi
	}
	return false
}

// walk follows the states through a function.
func (w *evWalk) walk(f *ssa.Function, e constEnv, in int) *evOut {
	k := fmt.Sprintf("%s|%s|%d", f.String(), e.key(), in)
	if o := w.memo[k]; o != nil {
		return o
	}
	if w.busy[k] {
		return &evOut{}
	}
	w.busy[k] = true
	defer delete(w.busy, k)
	w.n++
	out := &evOut{}
	at := map[*ssa.BasicBlock]int{f.Blocks[0]: in}
	q := []*ssa.BasicBlock{f.Blocks[0]}
	var defers []*ssa.Defer
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	regs := func(i ssa.Instruction) (sure []*ssa.Defer, maybe []*ssa.Defer) {
		for _, d := range defers {
			if dominates(d, i) {
				sure = append(sure, d)
			} else if canFollow(d, i) {
				maybe = append(maybe, d)
			}
		}
		return
	}
	panics := map[ssa.Instruction]int{}
	rets := map[ssa.Instruction]int{}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		s := at[b]
		for _, i := range b.Instrs {
			if w.foreign(i) {
				if _, d := i.(*ssa.Defer); !d {
					panics[i] |= s
				}
			}
			switch x := i.(type) {
			case *ssa.Go, *ssa.Defer:
			case *ssa.Return:
				rets[i] |= s
			case *ssa.Panic:
				panics[i] |= s
			default:
				if ev, ok := w.emission(i); ok {
					n, ok := w.eventType(ev, e, 3)
					if !ok {
						w.r.report("undecided", fname(f), w.p.pos(i.Pos()), "the type of an event %s pushes is not known", fname(f))
					} else {
						s = w.step(s, n, i, f)
					}
					panics[i] |= s
					continue
				}
				ci, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t, any := 0, false
				for _, g := range w.c.targets[ci] {
					if g.Blocks == nil || pkgOf(g) != w.pkg {
						continue
					}
					any = true
					args := ci.Common().Args
					if ci.Common().IsInvoke() {
						args = append([]ssa.Value{ci.Common().Value}, args...)
					}
					o := w.walk(g, envFor(g, args, e), s)
					t |= o.ret
					panics[i] |= o.panic
				}
				if any {
					if ci.Common().StaticCallee() == nil {
						t |= s
					}
					s = t
				}
			}
		}
		succs := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if n, ok := handlerNil(iff); ok {
				succs = []*ssa.BasicBlock{b.Succs[n]}
			}
		}
		for _, t := range succs {
			if at[t]|s != at[t] {
				at[t] |= s
				q = append(q, t)
			}
		}
	}
	run := func(s int, sure, maybe []*ssa.Defer, panicking bool) (int, bool) {
		recovered := false
		for k := len(sure) - 1; k >= 0; k-- {
			d := sure[k]
			for _, g := range w.c.targets[d] {
				if g.Blocks == nil || pkgOf(g) != w.pkg {
					continue
				}
				o := w.walk(g, envFor(g, d.Call.Args, e), s)
				s = o.ret
				if callsRecover(g) {
					recovered = true
				}
			}
		}
		for k := len(maybe) - 1; k >= 0; k-- {
			for _, g := range w.c.targets[maybe[k]] {
				if g.Blocks != nil && pkgOf(g) == w.pkg {
					s |= w.walk(g, envFor(g, maybe[k].Call.Args, e), s).ret
				}
			}
		}
		return s, recovered
	}
	for i, s := range rets {
		sure, maybe := regs(i)
		s, _ = run(s, sure, maybe, false)
		out.ret |= s
	}
	for i, s := range panics {
		sure, _ := regs(i)
		s, rec := run(s, sure, nil, true)
		if rec {
			out.ret |= s
		} else {
			out.panic |= s
		}
	}
	w.memo[k] = out
	return out
}

func (p *Prog) constsOf(pkg string, names ...string) (map[string]int64, bool) {
	m := map[string]int64{}
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() != pkg {
			continue
		}
		for _, n := range names {
			if c, ok := q.Members[n].(*ssa.NamedConst); ok {
				if k, ok := constNum(c.Value); ok {
					m[n] = k
				}
			}
		}
	}
	return m, len(m) == len(names)
}

func checkT03(p *Prog, r *Result) {
	r.explanation = "The events a connection's goroutine pushes are followed through its functions, with constant arguments, deferred functions and panics of code that is not the library's: connected once and first, data between, disconnected exactly once on every way the goroutine can end, and nothing after it. No other goroutine pushes events, and the goroutine is started once for a connection."
	c := p.conc()
	pkg := modPath + "/tcpnetwork"
	ids, ok := p.constsOf(pkg, "ConnEventConnected", "ConnEventDisconnected", "ConnEventData")
	if !ok {
		r.report("undecided", "events", "", "the event constants are not found")
		return
	}
	w := &evWalk{c: c, p: p, r: r, ids: ids, pkg: pkg, memo: map[string]*evOut{}, busy: map[string]bool{}, kind: map[int64]bool{}}
	var emitting []*thread
	sites := map[*thread][]ssa.Instruction{}
	for _, t := range c.threads {
		for _, f := range t.order {
			if pkgOf(f) != pkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if _, ok := w.emission(i); ok {
						sites[t] = append(sites[t], i)
					}
				}
			}
		}
		if len(sites[t]) > 0 {
			emitting = append(emitting, t)
		}
	}
	var main *thread
	for _, t := range emitting {
		if t.name == "API" {
			continue
		}
		before := len(r.findings)
		w.kind = map[int64]bool{}
		out := w.walk(t.roots[0], constEnv{}, evInit)
		if !w.kind[ids["ConnEventConnected"]] {
			r.findings = r.findings[:before]
			continue
		}
		main = t
		r.obligations += 2
		f := t.roots[0]
		if out.ret&evInit != 0 || out.ret&evConnected != 0 {
			r.report("no-disconnected", fname(f), p.pos(f.Pos()), "%s can end without having reported the end of the connection", fname(f))
		}
		if out.panic != 0 {
			r.report("no-disconnected", fname(f), p.pos(f.Pos()), "an internal failure in %s is not turned into the end of the connection", fname(f))
		}
		r.sample("goroutine %s followed from its start", t.name)
		li := newLockInfo(c)
		for _, g := range t.gos {
			r.obligations++
			gs, ok := c.guardsOf(li, chanOp{fn: g.Parent(), at: g}, g, nil, 3)
			for _, x := range gs {
				if x.kind == "cas" {
					if ts := c.transitions(x.cas.key); x.cas.from == x.cas.to || canReturnTo(ts, x.cas.to, x.cas.from) {
						ok = false
					}
				}
			}
			if !ok {
				r.report("may-run-twice", fname(g.Parent()), p.pos(g.Pos()), "%s can start the goroutine of a connection again, which reports its events again", fname(g.Parent()))
			}
		}
	}
	for _, t := range emitting {
		if t == main {
			continue
		}
		for _, i := range sites[t] {
			r.obligations++
			r.report("foreign-event", fname(i.Parent()), p.pos(i.Pos()), "%s pushes an event in another goroutine than the one that reports the end of the connection (%s)", fname(i.Parent()), t.path(p, i.Parent()))
		}
	}
	r.coverage["goroutines that push events"] = len(emitting)
	r.coverage["functions followed"] = w.n
	if main == nil {
		r.report("undecided", "events", "", "no goroutine reports a connection as connected")
	}
}

func init() { checks["T03"] = checkT03 }
