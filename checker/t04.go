package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T04: a connection that ends releases its socket and its goroutines.

// mustWalk asks whether something happens on every path.
type mustWalk struct {
	c    *conc
	hit  func(ssa.Instruction) bool
	edge func(*ssa.BasicBlock, int) bool // taking the branch is as good
	memo map[*ssa.Function]int
}

func (m *mustWalk) must(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !m.c.p.inModule(f) {
		return false
	}
	switch m.memo[f] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	if m.memo == nil {
		m.memo = map[*ssa.Function]int{}
	}
	m.memo[f] = 3
	ok := m.miss(f.Blocks[0], 0) == nil
	if ok {
		// a function that never returns has not done it
		ok = false
		for b := range cfgReach(f.Blocks[0], nil) {
			if _, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				ok = true
			}
		}
	}
	m.memo[f] = 2
	if ok {
		m.memo[f] = 1
	}
	return ok
}

// does: the instruction, or what it calls, does it.
func (m *mustWalk) does(i ssa.Instruction) bool {
	if m.hit(i) {
		return true
	}
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if extName(ci) == "(*sync.Once).Do" {
		ts := m.c.targets[ci]
		any := false
		for _, g := range ts {
			if m.c.p.inModule(g) {
				if !m.must(g) {
					return false
				}
				any = true
			}
		}
		return any
	}
	if g := ci.Common().StaticCallee(); g != nil && !m.c.p.inModule(g) {
		return false
	}
	any := false
	for _, g := range m.c.targets[ci] {
		if !m.must(g) {
			return false
		}
		any = true
	}
	return any
}

// miss finds a return reached from an instruction without it.
func (m *mustWalk) miss(b *ssa.BasicBlock, from int) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, i := range b.Instrs[from:] {
			switch i.(type) {
			case *ssa.Go:
				continue
			case *ssa.Defer:
				// it runs when the function ends
				if m.does(i) {
					return nil
				}
				continue
			case *ssa.Return:
				return i
			}
			if m.does(i) {
				return nil
			}
		}
		for k, s := range b.Succs {
			if m.edge != nil && m.edge(b, k) || seen[s] {
				continue
			}
			seen[s] = true
			if r := walk(s, 0); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(b, from)
}

// deferred: a function deferred before the instruction does it.
func (m *mustWalk) deferred(at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok && dominates(d, at) && m.does(d) {
				return true
			}
		}
	}
	return false
}

// stateTest: the branch asks for the state of a connection; the successor
// taken when the state has left "from" or has reached "to".
type connState struct {
	key      string
	from, to int64
	hasFrom  bool
}

func (c *conc) stateKey(v ssa.Value, depth int) string {
	if depth == 0 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.stateKey(x.X, depth-1)
	case *ssa.ChangeType:
		return c.stateKey(x.X, depth-1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return placeKey(x.X)
		}
	case *ssa.Call:
		n := extName(x)
		if (strings.HasPrefix(n, "sync/atomic.Load") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Load")) && len(x.Call.Args) > 0 {
			return placeKey(x.Call.Args[0])
		}
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && c.p.inModule(g) {
			k := ""
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					q := c.stateKey(rt.Results[0], depth-1)
					if q == "" || k != "" && k != q {
						return ""
					}
					k = q
				}
			}
			return k
		}
	}
	return ""
}

// stateStore: the instruction sets a field, atomically or not.
func stateStore(i ssa.Instruction) (key string, val ssa.Value, ok bool) {
	switch x := i.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			if _, ok := fa.X.(*ssa.Alloc); ok {
				return "", nil, false
			}
		}
		key, val = placeKey(x.Addr), x.Val
	case *ssa.Call:
		if nm := extName(x); len(x.Call.Args) == 2 && (strings.HasPrefix(nm, "sync/atomic.Store") || strings.HasPrefix(nm, "sync/atomic.Swap") || strings.HasPrefix(nm, "(*sync/atomic.") && strings.HasSuffix(nm, ").Store")) {
			key, val = placeKey(x.Call.Args[0]), x.Call.Args[1]
		}
	}
	return key, val, key != ""
}

// testedBefore: the function, or one it is part of, asks for the state.
func (c *conc) testedBefore(f *ssa.Function, key string) bool {
	fs := []*ssa.Function{f}
	if f.Parent() != nil {
		fs = append(fs, f.Parent())
	}
	for _, s := range c.callers[f] {
		fs = append(fs, s.fn)
	}
	for _, g := range fs {
		for _, b := range g.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			vals := []ssa.Value{iff.Cond}
			for k := 0; k < len(vals) && k < 8; k++ {
				switch x := vals[k].(type) {
				case *ssa.BinOp:
					vals = append(vals, x.X, x.Y)
				case *ssa.UnOp:
					if x.Op == token.NOT {
						vals = append(vals, x.X)
					}
				}
				if c.stateKey(vals[k], 4) == key {
					return true
				}
			}
		}
	}
	return false
}

// onlyInitial: nothing sets the state to the value again, it is the one before
// the connection runs.
func (c *conc) onlyInitial(states []connState, key string, n int64) bool {
	known := false
	for _, s := range states {
		known = known || s.key == key
	}
	if !known {
		return false
	}
	ts := c.transitions(key)
	for _, t := range ts {
		if t.to == n || t.to == -1<<40 {
			return false
		}
	}
	return len(ts) > 0
}

// onlyEnded: a state that has been set and is not n is the ended one.
func (c *conc) onlyEnded(states []connState, key string, n int64) bool {
	for _, s := range states {
		if s.key != key {
			continue
		}
		ts := c.transitions(key)
		ok := len(ts) > 0
		for _, t := range ts {
			ok = ok && (t.to == n || t.to == s.to)
		}
		if ok {
			return true
		}
	}
	return false
}

// leftEdges: the successors of a branch on which the state is not "from" any
// more (or never was).
func (c *conc) leftEdge(states []connState, b *ssa.BasicBlock, k int) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond := iff.Cond
	for {
		u, is := cond.(*ssa.UnOp)
		if !is || u.Op != token.NOT {
			break
		}
		cond, k = u.X, 1-k
	}
	if t, ok := c.casOf(cond); ok {
		for _, s := range states {
			if s.key == t.key && t.to == s.to && k == 1 {
				return true
			}
		}
		return false
	}
	if cmp, ok := cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
		eq := cmp.Op == token.EQL == (k == 0)
		for _, w := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			n, ok := constNum(w[1])
			if !ok {
				// a nil connection
				if q, is := w[1].(*ssa.Const); is && q.Value == nil && eq {
					if _, ptr := w[0].Type().Underlying().(*types.Pointer); ptr && c.p.inModuleNamed(deref(w[0].Type())) {
						return true
					}
				}
				continue
			}
			// the result of an exchange
			if call, is := w[0].(*ssa.Call); is {
				if x := extName(call); strings.HasPrefix(x, "sync/atomic.Swap") && len(call.Call.Args) == 2 {
					key := placeKey(call.Call.Args[0])
					for _, s := range states {
						if s.key == key && (eq && n == s.to || !eq && s.hasFrom && n == s.from) {
							return true
						}
					}
					continue
				}
			}
			key := c.stateKey(w[0], 4)
			for _, s := range states {
				if s.key == key && key != "" && (eq && n == s.to || !eq && s.hasFrom && n == s.from) {
					return true
				}
			}
			if key != "" && (eq && c.onlyInitial(states, key, n) || !eq && c.onlyEnded(states, key, n)) {
				return true
			}
		}
		return false
	}
	key := c.stateKey(cond, 4)
	if key != "" {
		for _, s := range states {
			if s.key == key && (k == 0 && s.to == 1 || k == 1 && s.to == 0) {
				return true
			}
		}
	}
	// a function of the module that returns a comparison
	if call, ok := cond.(*ssa.Call); ok {
		if g := call.Call.StaticCallee(); g != nil && g.Blocks != nil && len(g.Blocks) == 1 && c.p.inModule(g) {
			if rt, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				if cmp, ok := rt.Results[0].(*ssa.BinOp); ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
					eq := cmp.Op == token.EQL == (k == 0)
					for _, w := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
						if n, ok := constNum(w[1]); ok {
							key := c.stateKey(w[0], 4)
							for _, s := range states {
								if s.key == key && key != "" && (eq && n == s.to || !eq && s.hasFrom && n == s.from) {
									return true
								}
							}
							if key != "" && (eq && c.onlyInitial(states, key, n) || !eq && c.onlyEnded(states, key, n)) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (p *Prog) inModuleNamed(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// caseEdge: the branch is taken when a case of a select is chosen.
func caseEdge(b *ssa.BasicBlock, k int) (*ssa.Select, int) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || k != 0 {
		return nil, 0
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.EQL {
		return nil, 0
	}
	e, ok := cmp.X.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return nil, 0
	}
	s, ok := e.Tuple.(*ssa.Select)
	if !ok {
		return nil, 0
	}
	n, _ := constInt(cmp.Y)
	if int(n) >= len(s.States) {
		return nil, 0
	}
	return s, int(n)
}

// caseBlock is where a case of a select goes on.
func caseBlock(s *ssa.Select, k int) *ssa.BasicBlock {
	for _, b := range s.Parent().Blocks {
		if x, n := caseEdge(b, 0); x == s && n == k {
			return b.Succs[0]
		}
	}
	return nil
}

func intersects(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y && x != "element" {
				return true
			}
		}
	}
	return false
}

func checkT04(p *Prog, r *Result) {
	r.explanation = "Closing the socket of a connection is guarded by its state: every change to the ended state closes the socket and the channel that signals the end, on all paths. Every goroutine of the connection closes the connection on all returns and when code that is not its own panics; it waits on channels only together with the end signal, whose case leads out; writes have a deadline; and Close either closes the connection, finds it ended, or leaves a request the sending goroutine acts on. The session's Close closes its connection."
	r.assume = append(r.assume, "closing a socket makes pending reads and writes on it return", "the application's callbacks return")
	c := p.conc()
	li := newLockInfo(c)
	e := &errFlow{c: c, net: map[*ssa.Function]bool{}, memo: map[*ssa.Function]int{}}
	pkg := modPath + "/tcpnetwork"

	connClose := func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := extName(ci)
		if !strings.HasSuffix(n, ").Close") {
			return false
		}
		cc := ci.Common()
		v := cc.Value
		if !cc.IsInvoke() {
			if g := cc.StaticCallee(); g == nil || c.p.inModule(g) || len(cc.Args) == 0 {
				return false
			}
			v = cc.Args[0]
		}
		return c.netValue(v)
	}
	// the states that end a connection
	var states []connState
	var closers []ssa.Instruction
	addState := func(s connState) {
		for k, o := range states {
			if o.key == s.key && o.to == s.to {
				if !s.hasFrom || o.from != s.from {
					states[k].hasFrom = false
				}
				return
			}
		}
		states = append(states, s)
	}
	for _, f := range c.fns {
		if pkgOf(f) != pkg || len(c.threadsOf(f)) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !connClose(i) {
					continue
				}
				closers = append(closers, i)
				// the guards on the way
				seen := map[*ssa.Function]bool{}
				var up func(at ssa.Instruction, depth int)
				up = func(at ssa.Instruction, depth int) {
					if g, ok := c.casGuard(at); ok {
						addState(connState{g.cas.key, g.cas.from, g.cas.to, true})
						return
					}
					found := false
					for _, bb := range at.Parent().Blocks {
						for _, j := range bb.Instrs {
							key, val, ok := stateStore(j)
							if !ok || !dominates(j, at) && !dominates(at, j) || !c.testedBefore(at.Parent(), key) {
								continue
							}
							if n, ok := constNum(val); ok {
								addState(connState{key, 0, n, false})
								found = true
							}
						}
					}
					if found || depth == 0 || seen[at.Parent()] {
						return
					}
					seen[at.Parent()] = true
					for _, s := range c.callers[at.Parent()] {
						if pkgOf(s.fn) == pkg {
							up(s.instr, depth-1)
						}
					}
				}
				up(i, 2)
			}
		}
	}
	if len(closers) == 0 {
		r.report("no-release", "tcpnetwork", "", "no function of the connection closes its socket")
		return
	}
	edge := func(b *ssa.BasicBlock, k int) bool { return c.leftEdge(states, b, k) }
	rel := &mustWalk{c: c, hit: connClose, edge: edge}

	// every change to the ended state closes the socket
	ends := func(what string, m *mustWalk) {
		for _, f := range c.fns {
			if pkgOf(f) != pkg || len(c.threadsOf(f)) == 0 {
				continue
			}
			for _, b := range f.Blocks {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					cond, k := iff.Cond, 0
					for {
						u, is := cond.(*ssa.UnOp)
						if !is || u.Op != token.NOT {
							break
						}
						cond, k = u.X, 1-k
					}
					if t, ok := c.casOf(cond); ok {
						for _, s := range states {
							if s.key == t.key && s.to == t.to {
								r.obligations++
								// also what was done before the change counts
								if ret := m.miss(b.Succs[k], 0); ret != nil && !doneBefore(m, t.at) {
									r.report("ended-without-release", fname(f), p.pos(t.at.Pos()), "%s marks the connection as ended but can return at %s without %s", fname(f), p.pos(ret.Pos()), what)
								}
							}
						}
					}
				}
				for n, i := range b.Instrs {
					key, val, ok := stateStore(i)
					if !ok {
						continue
					}
					k, ok := constNum(val)
					for _, s := range states {
						if s.key == key && ok && k == s.to {
							r.obligations++
							if ret := m.miss(b, n+1); ret != nil && !doneBefore(m, i) {
								r.report("ended-without-release", fname(f), p.pos(i.Pos()), "%s marks the connection as ended but can return at %s without %s", fname(f), p.pos(ret.Pos()), what)
							}
						}
					}
				}
			}
		}
	}
	ends("closing the socket", &mustWalk{c: c, hit: connClose})

	// the channels that signal the end
	signal := map[string]bool{}
	closes, _, _ := c.chanOps()
	relFns := map[*ssa.Function]bool{}
	for _, f := range c.fns {
		if pkgOf(f) == pkg && rel.must(f) {
			relFns[f] = true
		}
	}
	for _, o := range closes {
		if pkgOf(o.fn) != pkg {
			continue
		}
		in := relFns[o.fn]
		for _, s := range c.callers[o.fn] {
			in = in || relFns[s.fn]
		}
		if !in {
			continue
		}
		cl := o.classes
		m := &mustWalk{c: c, hit: func(i ssa.Instruction) bool {
			for _, q := range closes {
				if q.at == i && intersects(q.classes, cl) {
					return true
				}
			}
			return false
		}}
		// does every end of a connection close it?
		before := len(r.findings)
		ob := r.obligations
		ends("closing "+strings.Join(cl, ", "), m)
		r.obligations = ob + 1
		if len(r.findings) == before {
			for _, k := range cl {
				signal[k] = true
			}
		} else {
			r.findings = r.findings[:before]
		}
	}

	// the goroutines of a connection
	var conns []*thread
	for _, t := range c.threads {
		if t.name == "API" || pkgOf(t.roots[0]) != pkg {
			continue
		}
		io := false
		for _, f := range t.order {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if _, ok := e.netOp(i); ok && pkgOf(f) == pkg {
						io = true
					}
				}
			}
		}
		if io {
			conns = append(conns, t)
		}
	}
	if len(conns) == 0 {
		r.report("undecided", "goroutines", "", "no goroutine of a connection was found")
		return
	}
	for _, t := range conns {
		f := t.roots[0]
		r.obligations++
		r.sample("goroutine %s", t.name)
		if ret := rel.miss(f.Blocks[0], 0); ret != nil {
			r.report("no-release", fname(f), p.pos(ret.Pos()), "%s can end without closing the connection: its socket and the other goroutine stay", fname(f))
		}
		// a panic of code that is not the goroutine's own
		rec := c.recovers(f)
		for _, g := range t.order {
			if !rec || pkgOf(g) != pkg {
				continue
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, ok := i.(*ssa.Defer); ok {
						continue
					}
					if !ci.Common().IsInvoke() || strings.HasPrefix(extName(ci), "(net.") {
						continue
					}
					r.obligations++
					if g == f && !rel.deferred(i) && !doneBefore(rel, i) {
						r.report("no-release", fname(f), p.pos(i.Pos()), "a panic in %s ends %s without closing the connection", extName(ci), fname(f))
					}
				}
			}
		}
		// the state the release expects
		for _, s := range states {
			for _, g := range t.gos {
				r.obligations++
				if !s.hasFrom {
					// any value other than the initial one will do
					some := false
					vals := map[int64]bool{}
					for _, x := range c.transitions(s.key) {
						if !vals[x.to] && x.to != s.to {
							vals[x.to] = true
							some = some || c.setBefore(s.key, x.to, g, 3) || c.setInside(s.key, x.to, f, c.recovers(f))
						}
					}
					if !some && len(vals) > 0 {
						r.report("not-yet-connected", fname(f), p.pos(g.Pos()), "%s is started before the connection has the state in which it can be closed; when it ends early the socket stays open", fname(f))
					}
					continue
				}
				if !c.setBefore(s.key, s.from, g, 3) && !c.setInside(s.key, s.from, f, c.recovers(f)) {
					r.report("not-yet-connected", fname(f), p.pos(g.Pos()), "%s is started before the connection has the state in which it can be closed; when it ends early the socket stays open", fname(f))
				}
			}
		}
	}

	// waiting
	for _, t := range conns {
		for _, o := range c.waitOps(t, li) {
			if pkgOf(o.fn) != pkg || o.kind != "wait" || len(o.ch) == 0 {
				continue
			}
			r.obligations++
			r.sample("%s in %s", o.what, fname(o.fn))
			good, back := false, false
			switch x := o.at.(type) {
			case *ssa.Select:
				for k, s := range x.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					sig := false
					for _, cl := range c.chanClasses(s.Chan) {
						sig = sig || signal[cl]
					}
					timer, _ := c.timerChan(s.Chan)
					if !sig && !timer {
						continue
					}
					to := caseBlock(x, k)
					if to == nil {
						continue
					}
					if sig {
						if leadsTo(to, caseFrom(x, k), x.Block(), nil) {
							back = true
						} else {
							good = true
						}
					} else if !leadsToEdge(to, caseFrom(x, k), x.Block(), edge) {
						good = true
					}
				}
			case *ssa.UnOp:
				for _, cl := range c.chanClasses(x.X) {
					good = good || signal[cl]
				}
				if timer, why := c.timerChan(x.X); timer && why == "" {
					good = true
				}
				good = good || c.doneBySibling(x.X, conns) && didBefore(rel, o.at)
			case *ssa.Send:
				good = o.what == ""
			}
			if !good {
				why := "nothing that the end of the connection does ends the wait"
				if back {
					why = "it waits again after the connection has ended"
				}
				r.report("goroutine-stays", fname(o.fn), p.pos(o.at.Pos()), "the goroutine %s may wait for %s in %s for ever after the connection has ended: %s", t.name, o.what, fname(o.fn), why)
			}
		}
	}

	// close requests
	_, _, recvs := c.chanOps()
	queue := map[string]bool{}
	empty := false // the request is an empty message, not nil
	var nilArg func(v ssa.Value) bool
	nilParams := map[*ssa.Parameter]bool{}
	nilArg = func(v ssa.Value) bool {
		switch q := v.(type) {
		case *ssa.Const:
			return q.Value == nil
		case *ssa.Parameter:
			return nilParams[q]
		case *ssa.Slice:
			// an empty message
			if at, ok := deref(q.X.Type()).Underlying().(*types.Array); ok && at.Len() == 0 {
				empty = true
				return true
			}
		case *ssa.MakeSlice:
			if n, ok := constInt(q.Len); ok && n == 0 {
				empty = true
				return true
			}
		}
		return false
	}
	isRequest := func(i ssa.Instruction, k int) (bool, []string) {
		switch x := i.(type) {
		case *ssa.Send:
			if nilArg(x.X) {
				return true, c.chanClasses(x.Chan)
			}
		case *ssa.Select:
			s := x.States[k]
			if s.Dir == types.SendOnly && nilArg(s.Send) {
				return true, c.chanClasses(s.Chan)
			}
		}
		return false, nil
	}
	other := false // some other kind of request
	req := &mustWalk{c: c}
	req.hit = func(i ssa.Instruction) bool {
		if connClose(i) {
			return true
		}
		switch x := i.(type) {
		case *ssa.Send:
			if ok, cl := isRequest(i, 0); ok {
				for _, k := range cl {
					queue[k] = true
				}
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				for _, cl := range c.chanClasses(x.X) {
					if signal[cl] {
						return true
					}
				}
			}
		case ssa.CallInstruction:
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
				other = true
				return true
			}
			g := x.Common().StaticCallee()
			if g == nil || g.Blocks == nil || pkgOf(g) != pkg {
				break
			}
			var added []*ssa.Parameter
			for k, a := range x.Common().Args {
				if _, slice := a.Type().Underlying().(*types.Slice); slice && k < len(g.Params) && nilArg(a) && !nilParams[g.Params[k]] {
					nilParams[g.Params[k]] = true
					added = append(added, g.Params[k])
				}
			}
			if len(added) > 0 {
				sub := &mustWalk{c: c, hit: req.hit, edge: req.edge}
				ok := sub.must(g)
				for _, q := range added {
					delete(nilParams, q)
				}
				return ok
			}
		}
		return false
	}
	req.edge = func(b *ssa.BasicBlock, k int) bool {
		if edge(b, k) {
			return true
		}
		s, n := caseEdge(b, k)
		if s == nil {
			return false
		}
		if ok, cl := isRequest(s, n); ok {
			for _, k := range cl {
				queue[k] = true
			}
			return true
		}
		if s.States[n].Dir == types.RecvOnly {
			for _, cl := range c.chanClasses(s.States[n].Chan) {
				if signal[cl] {
					return true
				}
			}
		}
		return false
	}
	var closeFn *ssa.Function
	for _, f := range c.fns {
		if pkgOf(f) == pkg && f.Name() == "Close" && f.Signature.Recv() != nil && tname(deref(f.Signature.Recv().Type())) == "tcpnetwork.Connection" {
			closeFn = f
		}
	}
	if closeFn == nil {
		r.report("undecided", "Close", "", "Connection.Close is not found")
		return
	}
	r.obligations++
	if ret := req.miss(closeFn.Blocks[0], 0); ret != nil {
		r.report("close-has-no-effect", fname(closeFn), p.pos(ret.Pos()), "%s can return with the connection neither closed nor asked to close", fname(closeFn))
	}
	if len(queue) > 0 {
		n := 0
		for _, o := range recvs {
			if pkgOf(o.fn) != pkg || !hasKey(queue, o.classes) {
				continue
			}
			inConn := false
			for _, t := range conns {
				if _, ok := t.fns[o.fn]; ok {
					inConn = true
				}
			}
			if !inConn {
				continue
			}
			var vals []ssa.Value
			switch x := o.at.(type) {
			case *ssa.UnOp:
				if x.CommaOk {
					for _, q := range *x.Referrers() {
						if ex, ok := q.(*ssa.Extract); ok && ex.Index == 0 {
							vals = append(vals, ex)
						}
					}
				} else {
					vals = append(vals, x)
				}
			case *ssa.Select:
				k := 2
				for _, s := range x.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					if intersects(c.chanClasses(s.Chan), keysOf(queue)) {
						for _, q := range *x.Referrers() {
							if ex, ok := q.(*ssa.Extract); ok && ex.Index == k {
								vals = append(vals, ex)
							}
						}
					}
					k++
				}
			}
			n++
			r.obligations++
			if len(vals) == 0 {
				// nothing of the message is used
				r.report("request-ignored", fname(o.fn), p.pos(o.at.Pos()), "%s takes a message from the queue and does not look at it: a request to close is lost", fname(o.fn))
				continue
			}
			al := map[ssa.Value]bool{}
			for _, v := range vals {
				for a := range alias(v) {
					al[a] = true
				}
			}
			tested, helper := false, false
			for _, b := range o.fn.Blocks {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				notNil, ok := nilTest(iff, al)
				if !ok || empty {
					notNil, ok = lenTest(iff, al)
				}
				if !ok {
					continue
				}
				tested = true
				at := o.at.Block()
				if c.staysIn(rel, b.Succs[1-notNil], b, at) {
					r.report("request-ignored", fname(o.fn), p.pos(iff.Pos()), "%s goes on after a request to close the connection", fname(o.fn))
				}
			}
			for a := range al {
				for _, u := range *a.Referrers() {
					if ci, ok := u.(ssa.CallInstruction); ok {
						for _, g := range c.targets[ci] {
							if g.Blocks != nil && pkgOf(g) == pkg {
								helper = true
							}
						}
					}
					if _, ok := u.(*ssa.Return); ok {
						helper = true
					}
				}
			}
			if !tested && helper {
				r.report("undecided", fname(o.fn), p.pos(o.at.Pos()), "what %s does with a request to close is not followed through the functions it passes the message to", fname(o.fn))
			} else if !tested {
				r.report("request-ignored", fname(o.fn), p.pos(o.at.Pos()), "%s does not tell a request to close from a message", fname(o.fn))
			}
		}
		if n == 0 {
			r.report("request-ignored", fname(closeFn), p.pos(closeFn.Pos()), "no goroutine of the connection takes the requests %s makes", fname(closeFn))
		}
		// the goroutine that takes requests must not be stuck in a write
		for _, t := range conns {
			takes := false
			for _, o := range recvs {
				if _, ok := t.fns[o.fn]; ok && hasKey(queue, o.classes) {
					takes = true
				}
			}
			if !takes {
				continue
			}
			for _, f := range t.order {
				if pkgOf(f) != pkg {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						ci, ok := i.(ssa.CallInstruction)
						if !ok {
							continue
						}
						nm := ioName(ci)
						if !connIO[nm] || !strings.Contains(nm, "Write") && !strings.Contains(nm, "Flush") {
							continue
						}
						if what, ok := e.netOp(i); ok {
							r.obligations++
							if !c.writeDeadline(i, 3) {
								r.report("write-without-limit", fname(f), p.pos(i.Pos()), "%s in %s has no deadline: when the peer does not read, a request to close the connection is never seen", what, fname(f))
							}
						}
					}
				}
			}
		}
	}
	if other && len(queue) == 0 {
		r.report("undecided", fname(closeFn), p.pos(closeFn.Pos()), "%s asks for the end in a way that is not followed", fname(closeFn))
	}

	// the session
	ses := &mustWalk{c: c, edge: edge, hit: func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		return ok && ci.Common().StaticCallee() == closeFn
	}}
	for _, f := range c.fns {
		if pkgOf(f) != modPath || f.Name() != "Close" || f.Signature.Recv() == nil || tname(deref(f.Signature.Recv().Type())) != "rtspclient.RtspClientSession" {
			continue
		}
		r.obligations++
		if ret := ses.miss(f.Blocks[0], 0); ret != nil {
			r.report("session-not-closed", fname(f), p.pos(ret.Pos()), "%s can return without closing the session's connection", fname(f))
		}
	}
	r.coverage["goroutines of a connection"] = len(conns)
	r.coverage["places that close a socket"] = len(closers)
	r.coverage["signals of the end"] = len(signal)
	var ks []string
	for k := range signal {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.sample("the end is signalled by closing %s", strings.Join(ks, ", "))
}

func keysOf(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func hasKey(m map[string]bool, ks []string) bool {
	for _, k := range ks {
		if m[k] {
			return true
		}
	}
	return false
}

// doneBefore: something that does it dominates the instruction.
func doneBefore(m *mustWalk, at ssa.Instruction) bool { return didBefore(m, at) || m.deferred(at) }

func didBefore(m *mustWalk, at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Go, *ssa.Defer:
				continue
			}
			if i != at && dominates(i, at) && m.does(i) {
				return true
			}
		}
	}
	return false
}

// lenTest: the branch compares the length of one of the values with zero.
func lenTest(iff *ssa.If, vals map[ssa.Value]bool) (notNil int, ok bool) {
	cond, flip := iff.Cond, false
	for {
		u, is := cond.(*ssa.UnOp)
		if !is || u.Op != token.NOT {
			break
		}
		cond, flip = u.X, !flip
	}
	cmp, is := cond.(*ssa.BinOp)
	if !is {
		return
	}
	call, is := cmp.X.(*ssa.Call)
	num := cmp.Y
	op := cmp.Op
	if !is {
		if call, is = cmp.Y.(*ssa.Call); !is {
			return
		}
		num, op = cmp.X, flipOp(op)
	}
	bi, is := call.Call.Value.(*ssa.Builtin)
	if !is || bi.Name() != "len" || !vals[call.Call.Args[0]] {
		return
	}
	k, is := constInt(num)
	if !is {
		return
	}
	switch {
	case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0:
		notNil = 1
	case op == token.NEQ && k == 0, op == token.GTR && k == 0, op == token.GEQ && k == 1:
		notNil = 0
	default:
		return
	}
	if flip {
		notNil = 1 - notNil
	}
	return notNil, true
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// staysIn: from a branch the wait can be reached again without a release.
func (c *conc) staysIn(rel *mustWalk, from, pred, wait *ssa.BasicBlock) bool {
	return leadsTo(from, pred, wait, func(b *ssa.BasicBlock) bool {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Go, *ssa.Defer:
				continue
			}
			if rel.does(i) {
				return true
			}
		}
		return false
	})
}

// leadsTo: a block can be reached, following the constants phis take on the
// way.
func leadsTo(from, pred, to *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool) bool {
	return pathTo(from, pred, to, stop, nil)
}

func leadsToEdge(from, pred, to *ssa.BasicBlock, cut func(*ssa.BasicBlock, int) bool) bool {
	return pathTo(from, pred, to, nil, cut)
}

func pathTo(from, pred, to *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool, cut func(*ssa.BasicBlock, int) bool) bool {
	type env map[*ssa.Phi]*ssa.Const
	seen := map[string]bool{}
	n := 0
	var walk func(b, pred *ssa.BasicBlock, e env) bool
	walk = func(b, pred *ssa.BasicBlock, e env) bool {
		m := env{}
		for k, v := range e {
			m[k] = v
		}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			delete(m, ph)
			for k, q := range b.Preds {
				if q != pred {
					continue
				}
				switch v := ph.Edges[k].(type) {
				case *ssa.Const:
					m[ph] = v
				case *ssa.Phi:
					if w, ok := e[v]; ok {
						m[ph] = w
					}
				}
			}
		}
		key := b.String() + "|"
		var ks []string
		for k, v := range m {
			ks = append(ks, k.Name()+"="+v.String())
		}
		sort.Strings(ks)
		key += strings.Join(ks, ",")
		if seen[key] {
			return false
		}
		seen[key] = true
		if n++; n > 5000 || b == to {
			return true
		}
		if stop != nil && stop(b) {
			return false
		}
		only := -1
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := constCond(iff.Cond, func(ph *ssa.Phi) *ssa.Const { return m[ph] }); ok {
				only = 1
				if v {
					only = 0
				}
			}
		}
		for k, s := range b.Succs {
			if only >= 0 && k != only || cut != nil && cut(b, k) {
				continue
			}
			if walk(s, b, m) {
				return true
			}
		}
		return false
	}
	return walk(from, pred, env{})
}

// constCond evaluates a condition over phis whose values are known.
func constCond(v ssa.Value, of func(*ssa.Phi) *ssa.Const) (val, ok bool) {
	cst := func(v ssa.Value) *ssa.Const {
		switch x := v.(type) {
		case *ssa.Const:
			return x
		case *ssa.Phi:
			return of(x)
		}
		return nil
	}
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Const:
		if k := cst(v); k != nil && k.Value != nil {
			n, ok := constNum(k)
			return n == 1, ok
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := constCond(x.X, of)
			return !b, ok
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := cst(x.X), cst(x.Y)
			if a == nil || b == nil {
				return
			}
			if a.Value == nil || b.Value == nil {
				return (a.Value == nil && b.Value == nil) == (x.Op == token.EQL), a.Value == nil && b.Value == nil
			}
			return (a.Value.String() == b.Value.String()) == (x.Op == token.EQL), true
		}
	}
	return
}

func caseFrom(s *ssa.Select, k int) *ssa.BasicBlock {
	for _, b := range s.Parent().Blocks {
		if x, n := caseEdge(b, 0); x == s && n == k {
			return b
		}
	}
	return nil
}

// setBefore: the state is set before the instruction, in its function or in
// all that call it.
func (c *conc) setBefore(key string, val int64, at ssa.Instruction, depth int) bool {
	if g, ok := c.casGuard(at); ok && g.cas.key == key && g.cas.to == val {
		return true
	}
	for _, t := range c.transitions(key) {
		if t.to == val && t.at.Parent() == at.Parent() && dominates(t.at, at) {
			return true
		}
	}
	if depth == 0 || len(c.callers[at.Parent()]) == 0 {
		return false
	}
	n := 0
	for _, s := range c.callers[at.Parent()] {
		if len(c.threadsOf(s.fn)) == 0 {
			continue
		}
		n++
		if !c.setBefore(key, val, s.instr, depth-1) {
			return false
		}
	}
	return n > 0
}

// setInside: the goroutine sets it before anything can end it.
func (c *conc) setInside(key string, val int64, f *ssa.Function, rec bool) bool {
	for _, t := range c.transitions(key) {
		if t.to != val || t.at.Parent() != f {
			continue
		}
		ok := true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Return:
					ok = ok && dominates(t.at, i)
				case ssa.CallInstruction:
					if _, d := i.(*ssa.Defer); !d && x.Common().IsInvoke() {
						ok = ok && dominates(t.at, i)
					}
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// doneBySibling: the channel is closed or sent on by a goroutine of the
// connection when it ends.
func (c *conc) doneBySibling(ch ssa.Value, conns []*thread) bool {
	closes, sends, _ := c.chanOps()
	cl := c.chanClasses(ch)
	for _, t := range conns {
		for _, set := range [][]chanOp{closes, sends} {
			m := &mustWalk{c: c, hit: func(i ssa.Instruction) bool {
				for _, o := range set {
					if o.at == i && intersects(o.classes, cl) {
						return true
					}
				}
				return false
			}}
			if m.miss(t.roots[0].Blocks[0], 0) == nil {
				return true
			}
		}
	}
	return false
}

// writeDeadline: a deadline for writing is set before the instruction, here
// or by all callers.
func (c *conc) writeDeadline(at ssa.Instruction, depth int) bool {
	var sets func(i ssa.Instruction, depth int) bool
	sets = func(i ssa.Instruction, depth int) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := extName(ci)
		if strings.HasSuffix(n, ").SetWriteDeadline") || strings.HasSuffix(n, ").SetDeadline") {
			args := ci.Common().Args
			switch args[len(args)-1].(type) {
			case *ssa.Call, *ssa.Parameter, *ssa.Phi, *ssa.Extract:
				return true
			}
			return false
		}
		if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil && c.p.inModule(g) && depth > 0 {
			m := &mustWalk{c: c, hit: func(j ssa.Instruction) bool { return sets(j, depth-1) }}
			return m.must(g)
		}
		return false
	}
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			if i != at && dominates(i, at) && sets(i, 2) {
				return true
			}
		}
	}
	if depth == 0 || len(c.callers[at.Parent()]) == 0 {
		return false
	}
	n := 0
	for _, s := range c.callers[at.Parent()] {
		if len(c.threadsOf(s.fn)) == 0 {
			continue
		}
		n++
		if !c.writeDeadline(s.instr, depth-1) {
			return false
		}
	}
	return n > 0
}

func init() { checks["T04"] = checkT04 }
