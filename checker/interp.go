package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Hooks let a property watch and steer the interpretation.
type Hooks struct {
	// call is asked before the models; ok: the outcomes replace the call.
	call func(in *Interp, st *State, c *CallEv) (outs []outcome, ok bool)
	// oblige is told about every proof obligation against a run-time panic.
	oblige func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string)
	store  func(in *Interp, st *State, l Loc, v Val, at ssa.Instruction)
	load   func(in *Interp, st *State, l Loc, T types.Type, v Val, at ssa.Instruction) Val
	// write is told that array bytes/elements [lo,hi) of an object are written.
	write func(in *Interp, st *State, o *Obj, lo, hi Lin, at ssa.Instruction)
	send  func(in *Interp, st *State, ch, v Val, at ssa.Instruction)
	recv  func(in *Interp, st *State, ch Val, T types.Type, at ssa.Instruction) (Val, bool)
	// sel is told about each way a select can go (idx -1: default).
	sel      func(in *Interp, st *State, x *ssa.Select, idx int)
	recvDone func(in *Interp, st *State, x *ssa.UnOp)
	chOps    func(in *Interp, st *State, op string, ch Val, at ssa.Instruction)
	mapUpd   func(in *Interp, st *State, m Val, k, v Val, at ssa.Instruction)
	goCall   func(in *Interp, st *State, c *CallEv)
	block    func(in *Interp, st *State, b *ssa.BasicBlock)
	// part refines the partition of states.
	part func(in *Interp, st *State) string
	// prePart may set tags before a partition is chosen
	prePart func(in *Interp, st *State)
	// extern is told what a modelled call of another module returns.
	extern func(in *Interp, st *State, c *CallEv, outs []outcome)
	// ret is told about states that leave a function of interest.
	ret func(in *Interp, st *State, fn *ssa.Function, vals []Val, panicked bool)
	// loopDone is told about head and back-edge states of stable loops.
	loopDone func(in *Interp, l *Loop, head *State, backs []*State)
	// mayPanic: unknown callbacks may panic here.
	mayPanic func(in *Interp, st *State, c *CallEv) bool
	// inline decides whether a module function is analysed at its call site.
	inline func(in *Interp, st *State, fn *ssa.Function) bool
}

// CallEv is one call about to happen.
type CallEv struct {
	instr  ssa.Instruction
	common *ssa.CallCommon
	fn     *ssa.Function // nil if unknown
	unk    *Func         // unknown function value
	iface  *Iface        // unknown receiver of an interface method
	method *types.Func
	args   []Val // receiver first
	T      *types.Tuple
	name   string // qualified name of the callee
}

type outcome struct {
	st       *State
	vals     []Val
	panicked bool
}

type Found struct {
	rule, where string
	pos         token.Pos
	msg         string
	trace       []string
}

type Interp struct {
	p        *Prog
	hooks    *Hooks
	inputs   map[ObjID]inputInfo
	globals  map[ObjID]*Obj
	infos    map[*ssa.Function]*FnInfo
	inv      map[string]*Summ
	useInv   bool
	invNew   map[string]*Summ // collected during this round
	sites    map[string]int
	sink     *[]Found
	found    []Found
	obl      map[string]bool // distinct obligations
	steps    int
	maxStep  int
	calls    int
	fnSeen   map[*ssa.Function]bool
	mergeN   int
	retN     int
	depthMx  int
	recurs   func(fn *ssa.Function)
	extern   map[string]int
	debug    bool
	opts     map[string]bool
	ff       *FieldFacts
	mods     *Mods
	modular  bool
	havocAll bool
	exactCap int
	mapsBack bool // maps are walked from the last entry
	tightCap bool // a grown list has no spare capacity
	deadline time.Time
	free     func(*ssa.Function) bool // functions that may return anything
	exact    int                      // loops are followed this many times, without joins
	noConsts bool
}

func newInterp(p *Prog, h *Hooks) *Interp {
	in := &Interp{p: p, hooks: h, inputs: map[ObjID]inputInfo{}, globals: map[ObjID]*Obj{}, infos: map[*ssa.Function]*FnInfo{},
		inv: map[string]*Summ{}, invNew: map[string]*Summ{}, sites: map[string]int{}, obl: map[string]bool{},
		maxStep: 3000000, fnSeen: map[*ssa.Function]bool{}, mergeN: 5, retN: 6, depthMx: 40, extern: map[string]int{}, opts: map[string]bool{}}
	in.sink = &in.found
	in.ff = p.fieldFacts()
	return in
}

type giveUp struct{ why string }

func (g giveUp) Error() string { return g.why }

func (in *Interp) fail(format string, a ...any) {
	panic(giveUp{fmt.Sprintf(format, a...)})
}

func (in *Interp) report(st *State, rule, where string, pos token.Pos, format string, a ...any) {
	f := Found{rule: rule, where: where, pos: pos, msg: fmt.Sprintf(format, a...)}
	if st != nil {
		f.trace = st.trace
	}
	*in.sink = append(*in.sink, f)
}

func (in *Interp) invFor(key string) (*Summ, bool) {
	if !in.useInv {
		return nil, false
	}
	s, ok := in.inv[key]
	if !ok {
		return nil, false
	}
	return s, true
}

func (in *Interp) isGlobal(id ObjID) bool { return strings.HasPrefix(string(id), "g:") }

func (in *Interp) info(fn *ssa.Function) *FnInfo {
	f, ok := in.infos[fn]
	if !ok {
		f = newFnInfo(fn)
		in.infos[fn] = f
	}
	return f
}

func (in *Interp) site(ctx string, key string) int {
	k := ctx + "/" + key
	n, ok := in.sites[k]
	if !ok {
		n = len(in.sites) + 1
		in.sites[k] = n
	}
	return n
}

// newObj makes a fresh object for an allocation site.
func (in *Interp) newObj(st *State, at ssa.Instruction, sub string, o *Obj) ObjID {
	fn := at.Parent()
	key := fmt.Sprintf("%s:%d:%d:%s", fn.RelString(nil), at.Block().Index, instrIndex(at), sub)
	ctx := ""
	if st.fr != nil {
		ctx = st.fr.ctx
	}
	n := in.site(ctx, key)
	base := fmt.Sprintf("%s%d", sub, n)
	k := 0
	for {
		id := ObjID(fmt.Sprintf("%s#%d", base, k))
		if _, ok := st.heap[id]; !ok {
			o.id = id
			break
		}
		k++
		if k > 60 && (in.exact == 0 || k > 600) {
			in.fail("too many objects of one site %s", key)
		}
	}
	if o.site == "" {
		o.site = fmt.Sprintf("%s at %s", fname(fn), in.p.pos(at.Pos()))
	}
	st.setObj(o)
	return o.id
}

func instrIndex(at ssa.Instruction) int {
	for i, x := range at.Block().Instrs {
		if x == at {
			return i
		}
	}
	return -1
}

func (in *Interp) newArr(st *State, at ssa.Instruction, sub string, a *Arr) ObjID {
	if a.label == "" {
		a.label = sub
	}
	return in.newObj(st, at, sub, &Obj{T: a.elem, kind: 'a', arr: a})
}

// newBytes makes a byte array with the given content.
func (in *Interp) newBytes(st *State, at ssa.Instruction, sub string, t *Term, elem types.Type) Slice {
	a := &Arr{elem: elem, n: t.n, bytes: true, deps: t.deps, def: topByte, label: sub}
	if !(t.n.isK() && t.n.c == 0) {
		a.segs = []Seg{{K(0), t.n, t, K(0)}}
	}
	id := in.newArr(st, at, sub, a)
	return Slice{N: nonNil, Objs: []ObjID{id}, Off: K(0), Len: t.n, Cap: t.n}
}

// ---------------------------------------------------------------- frames

func (in *Interp) push(st *State, fn *ssa.Function, args, binds []Val, ctx string) {
	info := in.info(fn)
	if info.irred {
		in.fail("irreducible control flow in %s", fname(fn))
	}
	d := 0
	if st.fr != nil {
		st.fr.owner = nil
		d = st.fr.depth + 1
	}
	f := &Frame{owner: st, fn: fn, info: info, regs: make([]Val, len(info.vals)), parent: st.fr, ctx: ctx, depth: d}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[info.num[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			f.regs[info.num[p]] = binds[i]
		}
	}
	st.fr = f
	in.fnSeen[fn] = true
}

func (in *Interp) pop(st *State) {
	st.fr = st.fr.parent
	if st.fr != nil {
		// conservative: whoever writes next copies
		f := *st.fr
		f.regs = append([]Val(nil), f.regs...)
		f.owner = st
		st.fr = &f
	}
}

// ---------------------------------------------------------------- running functions

type region struct {
	exits map[int][]*State // target block index -> states
	backs []*State
	rets  []outcome
}

func (r *region) addExit(b int, st *State) { r.exits[b] = append(r.exits[b], st) }

// runFn runs the function on top of st's stack to its end.
func (in *Interp) runFn(st *State) []outcome {
	fn := st.fr.fn
	info := st.fr.info
	r := in.runRegion(info, nil, fn.Blocks[0], []*State{st})
	return in.mergeOuts(fn, r.rets)
}

// checkDeadline is when the engine stops exploring for the check being run.
var checkDeadline time.Time

func (in *Interp) tick(st *State) {
	in.steps++
	if !in.deadline.IsZero() && time.Now().After(in.deadline) {
		in.fail("analysis takes too long (in %s)", fname(st.fr.fn))
	}
	if in.steps&63 == 0 && !checkDeadline.IsZero() && time.Now().After(checkDeadline) {
		in.fail("the check takes too long (in %s)", fname(st.fr.fn))
	}
	if in.steps > in.maxStep {
		in.fail("analysis too expensive (in %s)", fname(st.fr.fn))
	}
}

func (in *Interp) runRegion(info *FnInfo, loop *Loop, entry *ssa.BasicBlock, sts []*State) *region {
	res := &region{exits: map[int][]*State{}}
	pend := map[int][]*State{entry.Index: sts}
	started := false
	inside := func(b int) bool { return loop == nil || loop.blocks[b] }
	deliver := func(from *ssa.BasicBlock, to *ssa.BasicBlock, st *State) {
		switch {
		case loop != nil && to == loop.head:
			res.backs = append(res.backs, st)
		case !inside(to.Index):
			res.addExit(to.Index, st)
		default:
			pend[to.Index] = append(pend[to.Index], st)
		}
	}
	for _, b := range info.rpo {
		if !inside(b.Index) || len(pend[b.Index]) == 0 {
			continue
		}
		cur := pend[b.Index]
		pend[b.Index] = nil
		l := info.loopOf[b.Index]
		if l != loop && l != nil && l.head == b && !(started && loop != nil && b == loop.head) {
			// an inner loop (possibly nested deeper: its head is the outermost one)
			for l.parent != loop {
				l = l.parent
				if l == nil {
					in.fail("loop nesting in %s", fname(info.fn))
				}
			}
			if l.head == b {
				x := in.runLoop(info, l, cur)
				res.rets = append(res.rets, x.rets...)
				for _, t := range sortedKeys(x.exits) {
					for _, s := range x.exits[t] {
						deliver(nil, info.fn.Blocks[t], s)
					}
				}
				continue
			}
		}
		started = true
		if b != entry || len(cur) > 1 {
			cur = in.merge(cur, in.mergeN)
		}
		for _, st := range cur {
			in.runBlock(info, b, st, func(to *ssa.BasicBlock, s *State) { deliver(b, to, s) }, func(o outcome) { res.rets = append(res.rets, o) })
		}
	}
	return res
}

func sortedKeys(m map[int][]*State) []int {
	var k []int
	for i := range m {
		k = append(k, i)
	}
	sort.Ints(k)
	return k
}

type headInfo struct {
	st    *State
	iter  int
	res   *region
	found []Found
	dirty bool
	backs []*State
	order int
}

func (in *Interp) runLoop(info *FnInfo, l *Loop, entry []*State) *region {
	if in.exact > 0 {
		return in.follow(info, l, entry)
	}
	if r, ok := in.unroll(info, l, entry); ok {
		return r
	}
	heads := map[string]*headInfo{}
	var order []string
	base := map[ObjID]bool{}
	add := func(st *State, isBack bool) {
		if in.hooks.prePart != nil {
			in.hooks.prePart(in, st)
		}
		st.prune(info.liveIn[l.head.Index])
		if isBack {
			st.canonical(base)
		} else {
			st.gc()
		}
		if st.poly.bot {
			return
		}
		k := in.part(st, true)
		h := heads[k]
		if h == nil {
			heads[k] = &headInfo{st: st, dirty: true, order: len(order)}
			order = append(order, k)
			if len(order) > 60 {
				in.fail("too many loop partitions in %s", fname(info.fn))
			}
			return
		}
		if ok, why := includes(h.st, st); ok {
			return
		} else if in.debug && h.iter > 4 {
			fmt.Printf("  %s iter %d: not included: %s\n", l, h.iter, why)
		}
		h.iter++
		if h.iter > 25 {
			_, why := includes(h.st, st)
			in.fail("loop in %s at %s does not stabilise: %s", fname(info.fn), in.p.pos(loopPos(l)), why)
		}
		widenIter = h.iter
		h.st = joinStates(h.st, st, h.iter <= 2)
		widenIter = 0
		h.dirty = true
	}
	for _, st := range entry {
		st.reachCounted(base)
		for id := range st.heap {
			base[id] = true
		}
	}
	for _, st := range entry {
		add(st, false)
	}
	save := in.sink
	for {
		var h *headInfo
		for _, k := range order {
			if heads[k].dirty {
				h = heads[k]
				break
			}
		}
		if h == nil {
			break
		}
		h.dirty = false
		h.found = nil
		in.sink = &h.found
		h.res = in.runRegion(info, l, l.head, []*State{h.st.clone()})
		in.sink = save
		h.backs = nil
		for _, b := range h.res.backs {
			h.backs = append(h.backs, b.clone())
			add(b, true)
		}
	}
	out := &region{exits: map[int][]*State{}}
	for _, k := range order {
		h := heads[k]
		*in.sink = append(*in.sink, h.found...)
		out.rets = append(out.rets, h.res.rets...)
		for _, t := range sortedKeys(h.res.exits) {
			out.exits[t] = append(out.exits[t], h.res.exits[t]...)
		}
		if in.hooks.loopDone != nil {
			in.hooks.loopDone(in, l, h.st, h.backs)
		}
	}
	return out
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return l.head.Parent().Pos()
}

// part is the partition key: states with different keys are never joined.
func (in *Interp) part(st *State, loop bool) string {
	if in.hooks.prePart != nil {
		in.hooks.prePart(in, st)
	}
	var sb strings.Builder
	for _, k := range sortedGhost(st.ghost) {
		if t, ok := st.ghost[k].(Tag); ok {
			sb.WriteString(k + "=" + t.S + ";")
		}
	}
	if st.panicking {
		sb.WriteString("P")
	}
	if st.fr != nil {
		f := st.fr
		for i, r := range f.regs {
			if r == nil {
				continue
			}
			if s := in.partVal(st, r); s != "" {
				fmt.Fprintf(&sb, "%d%s,", i, s)
			}
		}
		fmt.Fprintf(&sb, "d%d", len(f.defers))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ".%p", d.pos)
		}
	}
	for _, id := range sortedObjs(st.heap) {
		o := st.heap[id]
		if o.kind != 'v' || o.summ {
			continue
		}
		switch x := o.v.(type) {
		case Bool, Iface, Ptr, Func:
			if _, is := o.v.(Bool); is || !o.input {
				if s := in.partVal(st, x); s != "" {
					fmt.Fprintf(&sb, "%s%s,", id, s)
				}
			}
		case Struct:
			for i, f := range x.F {
				if b, ok := f.(Bool); ok {
					if s := in.partVal(st, b); s != "" {
						fmt.Fprintf(&sb, "%s.%d%s,", id, i, s)
					}
				}
			}
		}
	}
	if in.hooks.part != nil {
		sb.WriteString(in.hooks.part(in, st))
	}
	return sb.String()
}

func (in *Interp) partVal(st *State, v Val) string {
	switch x := v.(type) {
	case Bool:
		if x.C.op == 'c' {
			if x.C.val {
				return "T"
			}
			return "F"
		}
		if x.C.op == 'a' {
			if b, ok := st.facts[x.C.at]; ok {
				if b != x.C.neg {
					return "T"
				}
				return "F"
			}
		}
	case Iface:
		switch st.isNil(x.N) {
		case triNil:
			return "N"
		case triNon:
			s := "V"
			for _, a := range x.Alts {
				s += a.T.String()
			}
			return s
		}
	case Ptr:
		if t := st.isNil(x.N); t == triNil {
			return "N"
		} else if t == triNon {
			return "V"
		}
	case Func:
		if t := st.isNil(x.N); t == triNil {
			return "N"
		} else if t == triNon {
			return "V"
		}
	case Slice:
		if t := st.isNil(x.N); t == triNil {
			return "N"
		} else if t == triNon {
			return "V"
		}
	case Tuple:
		s := ""
		for _, y := range x.V {
			s += in.partVal(st, y) + "."
		}
		if strings.Trim(s, ".") == "" {
			return ""
		}
		return s
	}
	return ""
}

// merge joins states where control flow joins.
func (in *Interp) merge(sts []*State, limit int) []*State {
	if len(sts) <= 1 {
		return sts
	}
	if in.exact > 0 {
		if k := max(40, in.exactCap); len(sts) > k {
			sts = sts[:k]
		}
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, st := range sts {
		st.gc()
		if st.poly.bot {
			continue
		}
		k := in.part(st, false)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], st)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		if len(g) > 1 {
			var u []*State
		next:
			for _, s := range g {
				for _, t := range u {
					if ok, _ := includes(t, s); ok {
						continue next
					}
				}
				u = append(u, s)
			}
			g = u
		}
		if len(g) > limit || (len(order) > 24 && len(g) > 1) {
			j := g[0]
			for _, s := range g[1:] {
				j = joinStates(j, s, true)
			}
			g = []*State{j}
		}
		out = append(out, g...)
	}
	return out
}

func (in *Interp) mergeOuts(fn *ssa.Function, outs []outcome) []outcome { return outs }

// ---------------------------------------------------------------- blocks

func (in *Interp) runBlock(info *FnInfo, b *ssa.BasicBlock, st0 *State, edge func(*ssa.BasicBlock, *State), ret func(outcome)) {
	if in.hooks.block != nil {
		in.hooks.block(in, st0, b)
	}
	cur := []*State{st0}
	for _, instr := range b.Instrs {
		if _, ok := instr.(*ssa.Phi); ok {
			continue
		}
		switch x := instr.(type) {
		case *ssa.If:
			for _, st := range cur {
				c := in.boolOf(st, x.Cond)
				// a forced branch
				switch st.eval(c) {
				case 1:
					in.takeEdge(info, b, 0, st, edge)
				case 0:
					in.takeEdge(info, b, 1, st, edge)
				default:
					s2 := st.clone()
					if st.assume(c) {
						in.takeEdge(info, b, 0, st, edge)
					}
					if s2.assume(c.not()) {
						in.takeEdge(info, b, 1, s2, edge)
					}
				}
			}
			return
		case *ssa.Jump:
			for _, st := range cur {
				in.takeEdge(info, b, 0, st, edge)
			}
			return
		case *ssa.Return:
			for _, st := range cur {
				vals := make([]Val, len(x.Results))
				for i, r := range x.Results {
					vals[i] = in.get(st, r)
				}
				in.doRet(st, outcome{st: st, vals: vals}, ret)
			}
			return
		case *ssa.Panic:
			for _, st := range cur {
				in.oblige(st, "explicit panic", instr, cK(false))
				in.unwind(info, st, edge, ret)
			}
			return
		}
		var next []*State
		for _, st := range cur {
			in.tick(st)
			outs := in.step(st, instr)
			for _, o := range outs {
				if o.panicking && !st0.panicking {
					in.unwind(info, o, edge, ret)
					continue
				}
				next = append(next, o)
			}
		}
		cur = next
		if len(cur) == 0 {
			return
		}
		if len(cur) > 1 {
			if _, ok := instr.(ssa.CallInstruction); ok {
				for _, s := range cur {
					s.prune(info.liveAft[instr])
				}
				cur = in.merge(cur, in.retN)
			} else if len(cur) > 12 {
				cur = in.merge(cur, in.mergeN)
			}
		}
	}
}

func (in *Interp) doRet(st *State, o outcome, ret func(outcome)) {
	fn := st.fr.fn
	if in.hooks.ret != nil {
		in.hooks.ret(in, st, fn, o.vals, o.panicked)
	}
	in.pop(st)
	ret(o)
}

// unwind runs the deferred calls of a panicking frame.
func (in *Interp) unwind(info *FnInfo, st *State, edge func(*ssa.BasicBlock, *State), ret func(outcome)) {
	st.panicking = true
	for _, s := range in.runDefers(st) {
		if s.panicking {
			in.doRet(s, outcome{st: s, panicked: true}, ret)
			continue
		}
		// recovered
		fn := info.fn
		if fn.Recover != nil {
			r := in.runRegion(info, nil, fn.Recover, []*State{s})
			for _, o := range r.rets {
				ret(o)
			}
			continue
		}
		var vals []Val
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, s.zero(res.At(i).Type()))
		}
		in.doRet(s, outcome{st: s, vals: vals}, ret)
	}
}

// runDefers runs all deferred calls of the top frame, last first.
func (in *Interp) runDefers(st *State) []*State {
	work := []*State{st}
	var done []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		f := s.wFrame()
		if len(f.defers) == 0 {
			done = append(done, s)
			continue
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		for _, o := range in.invoke(s, d.pos, d.call, d.fn, d.args) {
			if o.panicked {
				o.st.panicking = true
			}
			work = append(work, o.st)
		}
	}
	return done
}

func (in *Interp) takeEdge(info *FnInfo, b *ssa.BasicBlock, k int, st *State, edge func(*ssa.BasicBlock, *State)) {
	to := b.Succs[k]
	// which predecessor edge of to is this?
	pi := -1
	cnt := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == to {
			cnt++
		}
	}
	for i, p := range to.Preds {
		if p == b {
			if cnt == 0 {
				pi = i
				break
			}
			cnt--
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, x := range to.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.get(st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		st.setReg(ph, vals[i])
	}
	st.prune(info.liveIn[to.Index])
	edge(to, st)
}

// ---------------------------------------------------------------- operands

func (in *Interp) get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(st, x)
	case *ssa.Global:
		return Ptr{N: nonNil, Locs: []Loc{{obj: in.global(x)}}}
	case *ssa.Function:
		return Func{N: nonNil, Fns: []FnVal{{Fn: x}}}
	case *ssa.Builtin:
		return Func{N: nonNil, Unknown: true, Label: "builtin " + x.Name()}
	}
	i, ok := st.fr.info.num[v]
	if !ok {
		in.fail("no register for %s in %s", v.Name(), fname(st.fr.fn))
	}
	r := st.fr.regs[i]
	if r == nil {
		in.fail("register %s of %s is not set", v.Name(), fname(st.fr.fn))
	}
	if o, ok := r.(Opaque); ok {
		r = st.expand(o)
		st.setReg(v, r)
	}
	return r
}

func (in *Interp) global(g *ssa.Global) ObjID {
	id := ObjID("g:" + g.RelString(nil))
	if _, ok := in.globals[id]; ok {
		return id
	}
	if !in.noConsts && g.Pkg != nil && in.p.byPath[g.Pkg.Pkg.Path()] == g.Pkg {
		if cg := in.p.constGlobals(); cg.ok[id] {
			in.globals[id] = cg.objs[id]
			if s, ok := cg.objs[id].v.(Slice); ok {
				for _, x := range s.Objs {
					in.globals[x] = cg.objs[x]
				}
			}
			if s, ok := cg.objs[id].v.(Ptr); ok {
				for _, x := range s.Locs {
					in.globals[x.obj] = cg.objs[x.obj]
				}
			}
			return id
		}
	}
	T := g.Type().(*types.Pointer).Elem()
	o := &Obj{id: id, T: T, kind: 'v', input: true, label: g.RelString(nil), site: "global " + g.RelString(nil)}
	o.v = Opaque{T: T, Label: g.RelString(nil), NN: true}
	if at, ok := T.Underlying().(*types.Array); ok {
		o.kind = 'a'
		o.T = at.Elem()
		o.arr = &Arr{elem: at.Elem(), n: K(at.Len()), label: o.label, bytes: isByteType(at.Elem()), def: summAny(at.Elem(), o.label, []string{o.label})}
	}
	in.globals[id] = o
	return id
}

func (in *Interp) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return st.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{cK(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			return Str{tConst(constant.StringVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if n, ok := constant.Int64Val(v); ok {
				return Int{K(n)}
			}
			y := keyedSym("const:"+v.ExactString(), noLo, noHi)
			y.info().wide = true
			return Int{LS(y)}
		}
		return Misc{nil, "const " + c.Value.String()}
	}
	return Misc{nil, "const"}
}

func (in *Interp) boolOf(st *State, v ssa.Value) Cond {
	if b, ok := in.get(st, v).(Bool); ok {
		return b.C
	}
	return cFresh("cond")
}

func (in *Interp) intOf(st *State, v ssa.Value) Lin {
	return in.asInt(st, in.get(st, v), v.Type())
}

func (in *Interp) asInt(st *State, x Val, T types.Type) Lin {
	if i, ok := x.(Int); ok {
		return i.L
	}
	lo, hi := int64(noLo), int64(noHi)
	wide := true
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		lo, hi, wide = intRange(b)
	}
	s := newSym("int?", lo, hi)
	s.info().wide = wide
	s.info().deps = valDeps(x)
	return LS(s)
}

func (in *Interp) strOf(st *State, x Val) *Term {
	switch s := x.(type) {
	case Str:
		return s.T
	}
	return tFresh("str?", valDeps(x))
}

// ---------------------------------------------------------------- obligations

// oblige demands c, reports it if it may fail, and assumes it. It returns
// false if the state cannot continue.
func (in *Interp) oblige(st *State, kind string, at ssa.Instruction, c Cond) bool {
	ok := st.eval(c) == 1
	key := kind + "|" + in.p.pos(at.Pos()) + "|" + at.String()
	in.obl[key] = true
	if in.hooks.oblige != nil {
		in.hooks.oblige(in, st, kind, at, ok, c.String())
	}
	if ok {
		return true
	}
	if os.Getenv("AI_DUMP") != "" {
		fmt.Println("DUMP", kind, c, "given")
		for _, x := range st.poly.cs {
			fmt.Println("    ", x)
		}
	}
	return st.assume(c)
}

func (in *Interp) notNil(st *State, n Null, what string, at ssa.Instruction, zl ...Lin) bool {
	switch st.isNil(n) {
	case triNon:
		in.obl["nil|"+in.p.pos(at.Pos())+"|"+at.String()] = true
		if in.hooks.oblige != nil {
			in.hooks.oblige(in, st, "nil "+what, at, true, "")
		}
		return true
	case triNil:
		in.oblige(st, "nil "+what, at, cK(false))
		return false
	}
	return in.oblige(st, "nil "+what, at, nilCond(n, zl...).not())
}

// alts splits st so that the pointer in v has one target.
func (in *Interp) ptrLocs(st *State, v ssa.Value, p Ptr) []*State {
	if len(p.Locs) <= 1 {
		return []*State{st}
	}
	var out []*State
	for i, l := range p.Locs {
		s := st
		if i < len(p.Locs)-1 {
			s = st.clone()
		}
		if _, isReg := s.fr.info.num[v]; isReg {
			s.setReg(v, Ptr{p.N, []Loc{l}})
		}
		out = append(out, s)
	}
	return out
}

func (in *Interp) one(st *State) []*State { return []*State{st} }

func dumpState(st *State) {
	for i, r := range st.fr.regs {
		if r != nil {
			fmt.Printf("   reg %d %s\n", i, showVal(r))
		}
	}
	for k, g := range st.ghost {
		fmt.Printf("   ghost %s %s\n", k, showVal(g))
	}
	for id, o := range st.heap {
		switch o.kind {
		case 'v':
			fmt.Printf("   obj %s %s\n", id, showVal(o.v))
		case 'm':
			fmt.Printf("   map %s n=%s k=%v v=%v\n", id, o.mp.n, o.mp.kdef, o.mp.vdef)
			for _, e := range o.mp.ents {
				fmt.Printf("      %s -> %s\n", showVal(e.k), showVal(e.v))
			}
		}
	}
	fmt.Println("   poly", st.poly)
}
