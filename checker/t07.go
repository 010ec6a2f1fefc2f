package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T07: channels are closed at most once and never sent on afterwards.

type chanOp struct {
	fn      *ssa.Function
	at      ssa.Instruction
	ch      ssa.Value
	classes []string
	blocks  bool // may wait
}

func (c *conc) chanOps() (closes, sends, recvs []chanOp) {
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				op := func(ch ssa.Value, blocks bool) chanOp {
					return chanOp{f, i, ch, c.chanClasses(ch), blocks}
				}
				switch x := i.(type) {
				case *ssa.Send:
					sends = append(sends, op(x.Chan, true))
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						recvs = append(recvs, op(x.X, true))
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							sends = append(sends, op(s.Chan, x.Blocking))
						} else {
							recvs = append(recvs, op(s.Chan, x.Blocking))
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						closes = append(closes, op(x.Common().Args[0], false))
					}
				}
			}
		}
	}
	return
}

func inCycle(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if cfgReach(s, nil)[b] {
			return true
		}
	}
	return false
}

// transition is a change of an atomic variable.
type transition struct {
	key      string
	from, to int64
	any      bool // from any value
	at       ssa.Instruction
}

// casOf recognises an atomic compare-and-swap, also one made by a function
// that returns its result.
func (c *conc) casOf(v ssa.Value) (t transition, ok bool) {
	call, is := v.(*ssa.Call)
	if !is {
		return
	}
	num := constNum
	in := call
	if g := call.Call.StaticCallee(); g != nil && g.Blocks != nil && c.p.inModule(g) {
		var ret ssa.Value
		for _, b := range g.Blocks {
			if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				if len(r.Results) != 1 || ret != nil && ret != r.Results[0] {
					return
				}
				ret = r.Results[0]
			}
		}
		if in, is = ret.(*ssa.Call); !is {
			return
		}
		num = func(v ssa.Value) (int64, bool) { return constNum(argFor(v, g, call.Call.Args)) }
	}
	if args := casArgs(in); args != nil {
		t.key = placeKey(args[0])
		var ok1, ok2 bool
		t.from, ok1 = num(args[1])
		t.to, ok2 = num(args[2])
		t.at = call
		return t, t.key != "" && ok1 && ok2
	}
	return
}

// argFor is the argument a parameter stands for, or the value itself.
func argFor(v ssa.Value, f *ssa.Function, args []ssa.Value) ssa.Value {
	w := v
	if cv, ok := w.(*ssa.Convert); ok {
		w = cv.X
	}
	for k, q := range f.Params {
		if q == w && k < len(args) {
			return args[k]
		}
	}
	return v
}

func casArgs(call *ssa.Call) []ssa.Value {
	n := extName(call)
	if (strings.HasPrefix(n, "sync/atomic.CompareAndSwap") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").CompareAndSwap")) && len(call.Call.Args) == 3 {
		return call.Call.Args
	}
	return nil
}

func placeKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldKeyOf(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.String()
	}
	return ""
}

func constNum(v ssa.Value) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, ok
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		switch k.Value.String() {
		case "true":
			return 1, true
		case "false":
			return 0, true
		}
	}
	return 0, false
}

// transitions lists every change of an atomic variable.
func (c *conc) transitions(key string) (ts []transition) {
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if placeKey(x.Addr) == key {
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							if _, ok := fa.X.(*ssa.Alloc); ok {
								continue // the initial value
							}
						}
						n, ok := constNum(x.Val)
						if !ok {
							n = -1 << 40
						}
						ts = append(ts, transition{key, 0, n, true, i})
					}
				case *ssa.Call:
					if args := casArgs(x); args != nil {
						if placeKey(args[0]) != key {
							continue
						}
						if t, ok := c.casOf(x); ok {
							ts = append(ts, t)
							continue
						}
						known := len(c.callers[f]) > 0
						for _, s := range c.callers[f] {
							v1, ok1 := constNum(argFor(args[1], f, s.args))
							v2, ok2 := constNum(argFor(args[2], f, s.args))
							known = known && ok1 && ok2
							ts = append(ts, transition{key, v1, v2, false, s.instr})
						}
						if !known {
							ts = append(ts, transition{key, 0, -1 << 40, true, i})
						}
						continue
					}
					n := extName(x)
					if len(x.Call.Args) < 2 || placeKey(x.Call.Args[0]) != key {
						continue
					}
					if strings.HasPrefix(n, "sync/atomic.Store") || strings.HasPrefix(n, "sync/atomic.Swap") || strings.HasSuffix(n, ").Store") || strings.HasSuffix(n, ").Swap") {
						v, ok := constNum(x.Call.Args[1])
						if !ok {
							v = -1 << 40
						}
						ts = append(ts, transition{key, 0, v, true, i})
					} else if strings.HasPrefix(n, "sync/atomic.Add") {
						ts = append(ts, transition{key, 0, -1 << 40, true, i})
					}
				}
			}
		}
	}
	return
}

// canReturn: the variable can get from one value to another.
func canReturnTo(ts []transition, from, to int64) bool {
	seen := map[int64]bool{from: true}
	q := []int64{from}
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		for _, t := range ts {
			if t.to == -1<<40 {
				return true
			}
			if (t.any || t.from == v) && !seen[t.to] {
				seen[t.to] = true
				q = append(q, t.to)
			}
		}
	}
	return seen[to] && from != to
}

// guard is why an instruction runs at most once per object.
type guard struct {
	kind   string // cas, once, lock, goroutine
	cas    transition
	locks  lockset
	t      *thread
	chain  []ssa.Instruction // from the close up to the goroutine's function
	starts []start
}

// start is where a goroutine is started, or a function that starts it is
// called, for an object made at another place.
type start struct {
	at, made ssa.Instruction
}

// branchOf: the condition a block depends on, following one-way dominators.
func (c *conc) casGuard(at ssa.Instruction) (g guard, ok bool) {
	b := at.Block()
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, is := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !is {
			continue
		}
		cond, want := iff.Cond, 0
		for {
			u, is := cond.(*ssa.UnOp)
			if !is || u.Op != token.NOT {
				break
			}
			cond, want = u.X, 1-want
		}
		t, is := c.casOf(cond)
		if !is {
			continue
		}
		s := d.Succs[want]
		if (s == b || s.Dominates(b)) && len(s.Preds) == 1 {
			return guard{kind: "cas", cas: t}, true
		}
	}
	return
}

func (c *conc) guardsOf(li *lockInfo, op chanOp, at ssa.Instruction, chain []ssa.Instruction, depth int) (gs []guard, ok bool) {
	chain = append(chain[:len(chain):len(chain)], at)
	f := at.Parent()
	if g, ok := c.casGuard(at); ok {
		return []guard{g}, true
	}
	if g, ok := c.lockGuard(li, op, at); ok {
		return []guard{g}, true
	}
	// a function run by sync.Once
	if f.Parent() != nil || len(c.callers[f]) == 0 {
		n, once := 0, 0
		for _, m := range c.closure[f] {
			for _, r := range *m.Referrers() {
				n++
				if ci, ok := r.(ssa.CallInstruction); ok && extName(ci) == "(*sync.Once).Do" {
					once++
				}
			}
		}
		if n > 0 && n == once {
			return []guard{{kind: "once"}}, true
		}
	}
	for _, t := range c.threads {
		if t.name == "API" || t.roots[0] != f || op.ch == nil {
			continue
		}
		for _, i := range chain {
			if inCycle(i.Block()) {
				return nil, false
			}
		}
		for _, s := range c.callers[f] {
			if _, ok := s.instr.(*ssa.Go); !ok && len(c.threadsOf(s.fn)) > 0 {
				return nil, false
			}
		}
		starts, ok := c.startsOf(t, op)
		if !ok {
			return nil, false
		}
		return []guard{{kind: "goroutine", t: t, chain: chain, starts: starts}}, true
	}
	if depth == 0 {
		return nil, false
	}
	// all callers are guarded
	n := 0
	for _, g := range c.fns {
		if len(c.threadsOf(g)) == 0 {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, is := i.(ssa.CallInstruction)
				if !is {
					continue
				}
				for _, h := range c.targets[ci] {
					if h != f {
						continue
					}
					n++
					x, ok := c.guardsOf(li, op, i, chain, depth-1)
					if !ok {
						return nil, false
					}
					gs = append(gs, x...)
				}
			}
		}
	}
	return gs, n > 0
}

// lockGuard: the close is made under a lock after looking at a flag or at the
// channel itself.
func (c *conc) lockGuard(li *lockInfo, op chanOp, at ssa.Instruction) (g guard, ok bool) {
	f := at.Parent()
	held := c.heldAt(li, at)
	if len(held) == 0 {
		return
	}
	for d := at.Block().Idom(); d != nil; d = d.Idom() {
		switch x := d.Instrs[len(d.Instrs)-1].(type) {
		case *ssa.If:
			cond := x.Cond
			if u, is := cond.(*ssa.UnOp); is && u.Op == token.NOT {
				cond = u.X
			}
			key := ""
			switch y := cond.(type) {
			case *ssa.UnOp:
				if y.Op == token.MUL {
					key = placeKey(y.X)
				}
			case *ssa.BinOp:
				// select on the channel itself, or a nil check of it
				if e, is := y.X.(*ssa.Extract); is {
					if s, is := e.Tuple.(*ssa.Select); is && !s.Blocking {
						return guard{kind: "lock", locks: held}, true
					}
				}
				if u, is := y.X.(*ssa.UnOp); is && u.Op == token.MUL {
					key = placeKey(u.X)
				}
			}
			if key == "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, is := i.(*ssa.Store); is && placeKey(st.Addr) == key && len(meetLocks(held, c.heldAt(li, i))) > 0 && (canFollow(i, at) || canFollow(at, i)) {
						return guard{kind: "lock", locks: held}, true
					}
				}
			}
		}
	}
	return
}

// heldAt are the locks held at an instruction on every goroutine that runs it.
func (c *conc) heldAt(li *lockInfo, at ssa.Instruction) lockset {
	f := at.Parent()
	var out lockset
	for _, t := range c.threads {
		if _, ok := t.fns[f]; !ok {
			continue
		}
		l := li.flow(f, li.entries(t)[f])[at.Block()]
		if l == nil {
			continue
		}
		l = l.clone()
		for _, i := range at.Block().Instrs {
			if i == at {
				break
			}
			li.step(l, i)
		}
		if out == nil {
			out = l
		} else {
			out = meetLocks(out, l)
		}
	}
	return out
}

// startsOf: where the goroutine is started, each time for a channel owner made
// for it.
func (c *conc) startsOf(t *thread, op chanOp) (out []start, ok bool) {
	var owner types.Type
	for _, o := range c.origins(op.ch) {
		if fa, ok := o.v.(*ssa.FieldAddr); ok && o.kind == 'f' {
			owner = fa.X.Type()
		}
	}
	for _, g := range t.gos {
		args := append([]ssa.Value{}, g.Call.Args...)
		if m, ok := g.Call.Value.(*ssa.MakeClosure); ok {
			args = append(args, m.Bindings...)
		}
		made := false
		for _, a := range args {
			var vals []ssa.Value
			if al, ok := a.(*ssa.Alloc); ok && owner != nil && types.Identical(deref(al.Type()), owner) {
				// a captured variable: what is stored in it
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						vals = append(vals, st.Val)
					}
				}
			} else if owner != nil && types.Identical(a.Type(), owner) {
				vals = []ssa.Value{a}
			}
			for _, v := range vals {
				if s := c.freshStart(v, g, 3); s != nil {
					made = true
					out = append(out, s...)
				}
			}
		}
		if owner == nil {
			// a channel made by the function that starts the goroutine
			for _, o := range c.origins(op.ch) {
				if i, ok := o.v.(ssa.Instruction); ok && o.kind == 'a' && i.Parent() == g.Parent() && !loopWithout(g, i) {
					made = true
					out = append(out, start{g, i})
				}
			}
		}
		if !made {
			return nil, false
		}
	}
	return out, len(out) > 0
}

// freshStart: whenever i runs the object v has been made for it.
func (c *conc) freshStart(v ssa.Value, i ssa.Instruction, depth int) []start {
	if m := c.creation(v, i); m != nil {
		if loopWithout(i, m) {
			return nil
		}
		return []start{{i, m}}
	}
	f := i.Parent()
	if depth == 0 || inCycle(i.Block()) || c.api[f] || len(c.callers[f]) == 0 {
		return nil
	}
	var out []start
	for _, s := range c.callers[f] {
		var m ssa.Instruction
		switch x := v.(type) {
		case *ssa.Parameter:
			if r := c.freshStart(argFor(x, f, s.args), s.instr, depth-1); r != nil {
				out = append(out, r...)
				continue
			}
			return nil
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				m = c.creationIn(fieldKeyOf(fa.X.Type(), fa.Field), argFor(fa.X, f, s.args), s.instr)
			}
		}
		if m == nil || loopWithout(s.instr, m) {
			return nil
		}
		out = append(out, start{s.instr, m})
	}
	return out
}

// again: b runs after a for the same object.
func again(a, b start) bool {
	if a.at == b.at || a.at.Parent() != b.at.Parent() {
		return false
	}
	if a.at.Block() == b.at.Block() {
		order := map[ssa.Instruction]int{}
		for k, i := range a.at.Block().Instrs {
			order[i] = k + 1
		}
		if order[a.at] < order[b.at] {
			return !(order[b.made] > order[a.at] && order[b.made] < order[b.at])
		}
	}
	if b.made.Block() == b.at.Block() {
		return false
	}
	for _, s := range a.at.Block().Succs {
		if cfgReach(s, func(x *ssa.BasicBlock) bool { return x == b.made.Block() })[b.at.Block()] {
			return true
		}
	}
	return false
}

// loopWithout: g can run again without i having run in between.
func loopWithout(g, i ssa.Instruction) bool {
	if g.Block() == i.Block() {
		return false
	}
	for _, s := range g.Block().Succs {
		if cfgReach(s, func(b *ssa.BasicBlock) bool { return b == i.Block() })[g.Block()] {
			return true
		}
	}
	return false
}

func (c *conc) recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			for _, g := range c.targets[d] {
				if callsRecover(g) {
					return true
				}
			}
		}
	}
	return false
}

func callsRecover(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func checkT07(p *Prog, r *Result) {
	r.explanation = "Every close of a channel must be one that can run once per channel: behind a compare-and-swap of a state that is never set back, by sync.Once, under a lock after looking at a flag, or once by a goroutine that is started once for the object the channel belongs to. No channel that is closed may be sent on, except by the goroutine that closes it when it ends, or under the lock of the close."
	r.assume = append(r.assume, "HandleConn is not called by the application while the library's own event goroutine runs for the same connection")
	c := p.conc()
	li := &lockInfo{c: c, eff: map[*ssa.Function]*lockEffect{}, busy: map[*ssa.Function]bool{}}
	closes, sends, _ := c.chanOps()
	gs := make([][]guard, len(closes))
	for n, op := range closes {
		r.obligations++
		g, ok := c.guardsOf(li, op, op.at, nil, 5)
		gs[n] = g
		if !ok {
			why := ""
			for _, t := range c.threadsOf(op.fn) {
				why += fmt.Sprintf("; goroutine %s: %s", t.name, t.path(p, op.fn))
			}
			r.report("may-close-twice", fname(op.fn), p.pos(op.at.Pos()), "%s closes %s without anything that keeps it from being closed twice%s", fname(op.fn), strings.Join(op.classes, ", "), why)
		}
		for _, x := range g {
			if x.kind == "cas" {
				r.obligations++
				if ts := c.transitions(x.cas.key); x.cas.from == x.cas.to || canReturnTo(ts, x.cas.to, x.cas.from) {
					r.report("may-close-twice", fname(op.fn), p.pos(op.at.Pos()), "%s closes %s when %s goes from %d to %d, and it can go back to %d", fname(op.fn), strings.Join(op.classes, ", "), x.cas.key, x.cas.from, x.cas.to, x.cas.from)
				}
			}
		}
	}
	overlap := func(a, b []string) string {
		for _, x := range a {
			for _, y := range b {
				if x == y {
					return x
				}
			}
		}
		return ""
	}
	for i, a := range closes {
		var starts []start
		for _, x := range gs[i] {
			starts = append(starts, x.starts...)
		}
		for _, x := range starts {
			for _, y := range starts {
				r.obligations++
				if again(x, y) {
					r.report("may-close-twice", fname(a.fn), p.pos(a.at.Pos()), "%s closes %s and runs for the same connection in goroutines started at %s and %s", fname(a.fn), strings.Join(a.classes, ", "), p.pos(x.at.Pos()), p.pos(y.at.Pos()))
				}
			}
		}
		for j, b := range closes[:i] {
			k := overlap(a.classes, b.classes)
			if k == "" {
				continue
			}
			r.obligations++
			ok := true
			for _, x := range gs[i] {
				for _, y := range gs[j] {
					switch {
					case x.kind == "cas" && y.kind == "cas" && x.cas.key == y.cas.key:
						ts := c.transitions(x.cas.key)
						same := x.cas.at == y.cas.at
						if same && (canFollow(a.at, b.at) || canFollow(b.at, a.at)) || !same && (canReturnTo(ts, x.cas.to, y.cas.from) || canReturnTo(ts, y.cas.to, x.cas.from) || x.cas.to == y.cas.from || y.cas.to == x.cas.from) {
							ok = false
						}
					case x.kind == "lock" && y.kind == "lock" && len(meetLocks(x.locks, y.locks)) > 0:
					case x.kind == "goroutine" && y.kind == "goroutine" && x.t == y.t && a.fn == b.fn && !canFollow(a.at, b.at) && !canFollow(b.at, a.at):
						_, d1 := a.at.(*ssa.Defer)
						_, d2 := b.at.(*ssa.Defer)
						if d1 || d2 {
							ok = false
						}
					default:
						ok = false
					}
				}
			}
			if !ok {
				r.report("may-close-twice", fname(a.fn), p.pos(a.at.Pos()), "%s closes %s, which %s also closes at %s", fname(a.fn), k, fname(b.fn), p.pos(b.at.Pos()))
			}
		}
	}
	for n, cl := range closes {
		for _, s := range sends {
			k := overlap(cl.classes, s.classes)
			if k == "" {
				continue
			}
			r.obligations++
			if c.recovers(s.fn) {
				continue
			}
			ok := len(gs[n]) > 0
			for _, g := range gs[n] {
				switch g.kind {
				case "goroutine":
					for _, t := range c.threadsOf(s.fn) {
						if t != g.t {
							ok = false
						}
					}
					for _, at := range g.chain {
						_, d := at.(*ssa.Defer)
						for _, b := range at.Parent().Blocks {
							for _, i := range b.Instrs {
								_, d2 := i.(*ssa.Defer)
								if d && !d2 || d2 && !d && !canFollow(i, at) && !canFollow(at, i) {
									continue
								}
								ci, is := i.(ssa.CallInstruction)
								runs := i == s.at
								if is {
									for _, h := range c.targets[ci] {
										runs = runs || c.runs(h, s.fn)
									}
								}
								// a function deferred earlier runs later
								if runs && (d2 && i != at && canFollow(i, at) || !d && canFollow(at, i)) {
									ok = false
								}
							}
						}
					}
				case "lock":
					if len(meetLocks(g.locks, c.heldAt(li, s.at))) == 0 {
						ok = false
					}
				default:
					ok = false
				}
			}
			if !ok {
				var ts []string
				for _, t := range c.threadsOf(s.fn) {
					ts = append(ts, t.path(p, s.fn))
				}
				r.report("send-may-follow-close", fname(s.fn), p.pos(s.at.Pos()), "%s sends on %s, which %s closes at %s (%s)", fname(s.fn), k, fname(cl.fn), p.pos(cl.at.Pos()), strings.Join(ts, "; "))
			}
		}
	}
	sort.Slice(closes, func(i, j int) bool { return closes[i].at.Pos() < closes[j].at.Pos() })
	for i, cl := range closes {
		if i < 5 {
			r.sample("close of %s in %s", strings.Join(cl.classes, ", "), fname(cl.fn))
		}
	}
	r.coverage["closes"] = len(closes)
	r.coverage["sends"] = len(sends)
	r.coverage["functions"] = len(c.fns)
	r.require("functions", len(c.fns), 50)
	r.require("channel operations", len(closes)+len(sends), 3)
}

func init() { checks["T07"] = checkT07 }
