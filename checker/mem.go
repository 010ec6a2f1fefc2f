package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the memory a value refers to comes from: an inclusion analysis over
// all library functions. Fields are told apart by struct type and name.

// mbase is a piece of memory: what an instruction makes, a field, a global,
// or something outside that is given a label.
type mbase struct {
	v     ssa.Value
	key   string // field or global
	label string
	cont  *mnode
}

type mnode struct {
	has    map[*mbase]bool
	out    map[*mnode]bool
	loads  map[*mnode]bool // what the memory contains flows here
	stores map[*mnode]bool // flows into what the memory contains
	queued bool
}

type memory struct {
	p     *Prog
	nodes map[interface{}]*mnode
	bases map[interface{}]*mbase
	work  []*mnode
	taken map[string][]*ssa.Function
	rets  map[*ssa.Function][][]ssa.Value
	fns   []*ssa.Function
	n     int
	ctx   *memCtx // the call a small function is looked at for
	inst  []memInst
	have  map[memInst]bool
	ctxs  map[memCtx]*memCtx
}

// memCtx is the call site a small function is analysed for separately.
type memCtx struct {
	at    ssa.Instruction
	up    *memCtx
	depth int
}

type memInst struct {
	f   *ssa.Function
	ctx *memCtx
}

type ctxKey struct {
	ctx *memCtx
	k   interface{}
}

// small functions are analysed for each call.
func (m *memory) small(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n <= 24 && len(f.AnonFuncs) == 0 && f.Parent() == nil && len(f.FreeVars) == 0
}

// enter is the context of a function called at an instruction.
func (m *memory) enter(at ssa.Instruction, g *ssa.Function) *memCtx {
	if !m.small(g) || m.ctx != nil && m.ctx.depth >= 3 {
		return nil
	}
	k := memCtx{at: at, up: m.ctx, depth: 1}
	if m.ctx != nil {
		k.depth = m.ctx.depth + 1
	}
	c := m.ctxs[k]
	if c == nil {
		c = &k
		m.ctxs[k] = c
	}
	if i := (memInst{g, c}); !m.have[i] {
		m.have[i] = true
		m.inst = append(m.inst, i)
	}
	return c
}

// in: the key of a value in the current context.
func (m *memory) in(k interface{}) interface{} {
	if m.ctx == nil {
		return k
	}
	return ctxKey{m.ctx, k}
}

type tupleKey struct {
	v ssa.Value
	i int
}

func (m *memory) node(k interface{}) *mnode {
	n := m.nodes[k]
	if n == nil {
		n = &mnode{has: map[*mbase]bool{}, out: map[*mnode]bool{}, loads: map[*mnode]bool{}, stores: map[*mnode]bool{}}
		m.nodes[k] = n
	}
	return n
}

func (m *memory) base(k interface{}, v ssa.Value, key, label string) *mbase {
	b := m.bases[k]
	if b == nil {
		b = &mbase{v: v, key: key, label: label}
		if key != "" {
			b.cont = m.node("content " + key)
		} else {
			b.cont = m.node([2]interface{}{"content", b})
		}
		m.bases[k] = b
	}
	return b
}

func (m *memory) touch(n *mnode) {
	if !n.queued {
		n.queued = true
		m.work = append(m.work, n)
	}
}

func (m *memory) add(n *mnode, b *mbase) {
	if !n.has[b] {
		n.has[b] = true
		m.touch(n)
	}
}

func (m *memory) flow(a, b *mnode) {
	if a == b || a.out[b] {
		return
	}
	a.out[b] = true
	m.touch(a)
}

func (m *memory) load(p, to *mnode) {
	if !p.loads[to] {
		p.loads[to] = true
		m.touch(p)
	}
}

func (m *memory) store(p, from *mnode) {
	if !p.stores[from] {
		p.stores[from] = true
		m.touch(p)
	}
}

func (m *memory) solve() {
	for len(m.work) > 0 {
		n := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		n.queued = false
		m.n++
		for b := range n.has {
			for o := range n.out {
				m.add(o, b)
			}
			for o := range n.loads {
				m.flow(b.cont, o)
			}
			for o := range n.stores {
				m.flow(o, b.cont)
			}
		}
	}
}

// of is the node of a value.
func (m *memory) of(v ssa.Value) *mnode {
	switch x := v.(type) {
	case *ssa.Extract:
		return m.node(m.in(tupleKey{x.Tuple, x.Index}))
	case *ssa.Const:
		return m.node("no memory")
	case *ssa.Global:
		n := m.node(x)
		m.add(n, m.base(x, x, "global "+x.String(), ""))
		return n
	case *ssa.Function:
		return m.node("no memory")
	case *ssa.Call:
		if _, tuple := x.Type().(*types.Tuple); !tuple {
			return m.node(m.in(tupleKey{x, 0}))
		}
	}
	return m.node(m.in(v))
}

func (m *memory) fresh(n *mnode, v ssa.Value) *mbase {
	b := m.base(m.in(v), v, "", "")
	m.add(n, b)
	return b
}

// functions whose result is part of the memory of their first argument.
var sameMemory = map[string]bool{}

// functions that return pieces of the memory of their first argument.
var piecesOf = map[string]bool{}

// functions that return memory they use again.
var ownMemory = map[string]string{
	"(*bufio.Reader).Peek": "the reader's own buffer", "(*bufio.Reader).ReadSlice": "the reader's own buffer", "(*bufio.Reader).ReadLine": "the reader's own buffer",
	"(*bufio.Scanner).Bytes": "the scanner's own buffer", "(*sync.Pool).Get": "memory from a pool",
	"(*bufio.Writer).AvailableBuffer": "the writer's own buffer",
}

func init() {
	for _, n := range []string{"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "CutPrefix", "CutSuffix", "Cut"} {
		sameMemory["bytes."+n] = true
		sameMemory["strings."+n] = true
	}
	for _, n := range []string{"ToLower", "ToUpper", "Title", "ToTitle", "Replace", "ReplaceAll", "Map", "ToValidUTF8", "Repeat"} {
		sameMemory["strings."+n] = true
	}
	for _, n := range []string{"Split", "SplitN", "SplitAfter", "SplitAfterN", "Fields", "FieldsFunc"} {
		piecesOf["bytes."+n] = true
		piecesOf["strings."+n] = true
	}
	sameMemory["(*bytes.Buffer).Bytes"] = false
}

func (p *Prog) memory() *memory {
	m := &memory{p: p, nodes: map[interface{}]*mnode{}, bases: map[interface{}]*mbase{}, taken: map[string][]*ssa.Function{}, have: map[memInst]bool{}, ctxs: map[memCtx]*memCtx{}, fns: p.conc().fns}
	have := map[*ssa.Function]bool{}
	for _, f := range m.fns {
		have[f] = true
	}
	for _, f := range p.funcs {
		if !have[f] && f.Blocks != nil {
			m.fns = append(m.fns, f)
		}
	}
	for _, f := range m.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				callee := ssa.Value(nil)
				if ci, ok := i.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				var ops [12]*ssa.Value
				for _, o := range i.Operands(ops[:0]) {
					if *o == nil || *o == callee {
						continue
					}
					switch g := (*o).(type) {
					case *ssa.Function:
						k := g.Signature.String()
						m.taken[k] = append(m.taken[k], g)
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					m.taken[g.Signature.String()] = append(m.taken[g.Signature.String()], g)
					for k, v := range mc.Bindings {
						m.flow(m.of(v), m.of(g.FreeVars[k]))
					}
				}
			}
		}
	}
	for _, f := range m.fns {
		m.have[memInst{f, nil}] = true
		m.inst = append(m.inst, memInst{f, nil})
	}
	for k := 0; k < len(m.inst); k++ {
		m.ctx = m.inst[k].ctx
		for _, b := range m.inst[k].f.Blocks {
			for _, i := range b.Instrs {
				m.instr(i)
			}
		}
	}
	m.ctx = nil
	m.solve()
	return m
}

func refersToMemory(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Chan, *types.Signature, *types.Array, *types.Struct, *types.Tuple:
		return true
	}
	return false
}

func isBytes(T types.Type) bool {
	s, ok := T.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

func (m *memory) instr(i ssa.Instruction) {
	v, isVal := i.(ssa.Value)
	if isVal && v.Type() != nil {
		if _, call := i.(*ssa.Call); !call && !refersToMemory(v.Type()) {
			return
		}
	}
	switch x := i.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		m.fresh(m.of(v), v)
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.flow(m.of(e), m.of(x))
		}
	case *ssa.ChangeType:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.MakeInterface:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.ChangeInterface:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.TypeAssert:
		if x.CommaOk {
			m.flow(m.of(x.X), m.node(m.in(tupleKey{x, 0})))
		} else {
			m.flow(m.of(x.X), m.of(x))
		}
	case *ssa.Slice:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.SliceToArrayPointer:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.Convert:
		if isString(x.X.Type()) != isString(x.Type()) {
			m.fresh(m.of(x), x)
		} else {
			m.flow(m.of(x.X), m.of(x))
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			m.fresh(m.of(x), x)
		}
	case *ssa.FieldAddr:
		k := fieldKeyOf(x.X.Type(), x.Field)
		m.add(m.of(x), m.base("field "+k, nil, k, ""))
	case *ssa.Field:
		m.flow(m.node("content "+fieldKeyOf(x.X.Type(), x.Field)), m.of(x))
	case *ssa.IndexAddr:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.Index:
		m.load(m.of(x.X), m.of(x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			m.load(m.of(x.X), m.of(x))
		case token.ARROW:
			if x.CommaOk {
				m.load(m.of(x.X), m.node(m.in(tupleKey{x, 0})))
			} else {
				m.load(m.of(x.X), m.of(x))
			}
		}
	case *ssa.Lookup:
		if x.CommaOk {
			m.load(m.of(x.X), m.node(m.in(tupleKey{x, 0})))
		} else {
			m.load(m.of(x.X), m.of(x))
		}
	case *ssa.Range:
		m.flow(m.of(x.X), m.of(x))
	case *ssa.Next:
		m.load(m.of(x.Iter), m.node(m.in(tupleKey{x, 1})))
		m.load(m.of(x.Iter), m.node(m.in(tupleKey{x, 2})))
	case *ssa.Select:
		k := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				m.load(m.of(s.Chan), m.node(m.in(tupleKey{x, k})))
				k++
			} else {
				m.store(m.of(s.Chan), m.of(s.Send))
			}
		}
	case *ssa.Send:
		m.store(m.of(x.Chan), m.of(x.X))
	case *ssa.Store:
		if refersToMemory(x.Val.Type()) {
			m.store(m.of(x.Addr), m.of(x.Val))
		}
	case *ssa.MapUpdate:
		m.store(m.of(x.Map), m.of(x.Key))
		m.store(m.of(x.Map), m.of(x.Value))
	case *ssa.Return:
		f := x.Parent()
		for k, r := range x.Results {
			m.flow(m.of(r), m.node(m.in(tupleKey{f, k})))
		}
	case ssa.CallInstruction:
		m.call(x)
	}
}

func (m *memory) callees(ci ssa.CallInstruction) (out []*ssa.Function) {
	c := m.p.conc()
	if ts, ok := c.targets[ci]; ok {
		return ts
	}
	out = m.p.callees(ci)
	cc := ci.Common()
	if len(out) == 0 && !cc.IsInvoke() && cc.StaticCallee() == nil {
		if _, bi := cc.Value.(*ssa.Builtin); !bi {
			if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
				out = m.taken[s.String()]
				// methods in tables have their receiver in front
				for k, fs := range m.taken {
					if k == s.String() {
						continue
					}
					for _, g := range fs {
						if g.Signature.Recv() != nil && types.Identical(types.NewSignature(nil, types.NewTuple(append([]*types.Var{types.NewVar(0, nil, "", g.Signature.Recv().Type())}, tupleVars(g.Signature.Params())...)...), g.Signature.Results(), g.Signature.Variadic()), s) {
							out = append(out, g)
						}
					}
				}
			}
		}
	}
	return
}

func tupleVars(t *types.Tuple) (vs []*types.Var) {
	for k := 0; k < t.Len(); k++ {
		vs = append(vs, t.At(k))
	}
	return
}

func (m *memory) call(ci ssa.CallInstruction) {
	cc := ci.Common()
	call, _ := ci.(*ssa.Call)
	res := func(k int) *mnode {
		if call == nil {
			return m.node("dropped")
		}
		return m.node(m.in(tupleKey{call, k}))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			m.flow(m.of(cc.Args[0]), res(0))
			if call != nil {
				b := m.fresh(res(0), call)
				// elements that refer to memory come along
				if !isBytes(cc.Args[0].Type()) {
					t := m.node(m.in([2]interface{}{"elements", call}))
					m.load(m.of(cc.Args[0]), t)
					if len(cc.Args) > 1 {
						m.load(m.of(cc.Args[1]), t)
						m.store(res(0), t)
					}
					m.flow(t, b.cont)
				}
			}
		case "copy":
			if !isBytes(cc.Args[0].Type()) {
				t := m.node(m.in([2]interface{}{"elements", ci}))
				m.load(m.of(cc.Args[1]), t)
				m.store(m.of(cc.Args[0]), t)
			}
		case "String", "StringData", "SliceData", "Slice", "Add":
			m.flow(m.of(cc.Args[0]), res(0))
		}
		return
	}
	inMod := false
	for _, g := range m.callees(ci) {
		if g.Blocks == nil || !m.p.inModule(g) {
			continue
		}
		if cc.StaticCallee() != nil && cc.StaticCallee() != g && !m.p.inModule(cc.StaticCallee()) {
			// run by a function outside
			continue
		}
		inMod = true
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, cc.Args...)
		}
		// a bound method or closure has no receiver argument here
		if len(args) == len(g.Params) {
			from := make([]*mnode, len(args))
			for k, a := range args {
				from[k] = m.of(a)
			}
			c := m.enter(ci, g)
			out := m.ctx
			m.ctx = c
			for k := range args {
				m.flow(from[k], m.of(g.Params[k]))
			}
			for k := 0; k < g.Signature.Results().Len(); k++ {
				n := m.node(m.in(tupleKey{g, k}))
				m.ctx = out
				m.flow(n, res(k))
				m.ctx = c
			}
			m.ctx = out
			continue
		}
		for k := 0; k < g.Signature.Results().Len(); k++ {
			m.flow(m.node(tupleKey{g, k}), res(k))
		}
	}
	if inMod && !cc.IsInvoke() {
		return
	}
	if call == nil {
		return
	}
	n := extName(ci)
	switch {
	case ownMemory[n] != "":
		m.add(res(0), m.base(m.in(call), call, "", ownMemory[n]))
	case sameMemory[n]:
		m.flow(m.of(cc.Args[0]), res(0))
		m.flow(m.of(cc.Args[0]), res(1))
	case piecesOf[n]:
		b := m.fresh(res(0), call)
		m.flow(m.of(cc.Args[0]), b.cont)
	case n == "bytes.NewBuffer" || n == "bytes.NewReader" || n == "strings.NewReader" || n == "bytes.NewBufferString":
		b := m.fresh(res(0), call)
		m.flow(m.of(cc.Args[0]), b.cont)
	case n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).Next":
		m.load(m.of(cc.Args[0]), res(0))
		m.flow(m.of(cc.Args[0]), res(0)) // the buffer stands for its bytes
	default:
		k := 1
		if t, ok := call.Type().(*types.Tuple); ok {
			k = t.Len()
		}
		for j := 0; j < k; j++ {
			m.add(res(j), m.base(m.in(tupleKey{call, j}), call, "", ""))
		}
	}
}

func (m *memory) sorted(n *mnode) (out []*mbase) {
	for b := range n.has {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return m.name(out[i]) < m.name(out[j]) })
	return
}

func (m *memory) name(b *mbase) string {
	switch {
	case b.label != "":
		return b.label
	case b.key != "":
		return b.key
	case b.v != nil:
		f := ""
		if b.v.Parent() != nil {
			f = fname(b.v.Parent()) + " "
		}
		return f + strings.TrimSpace(b.v.String()) + " at " + m.p.pos(b.v.Pos())
	}
	return "?"
}
