package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The concurrency model: goroutines are the functions go statements start and
// the API; values are traced back to where they come from, field by field.

type origin struct {
	kind byte // a: allocation, f: field, g: global, e: element, r: received, c: constant, u: application, x: call outside the module, F: function, p: unknown parameter
	key  string
	v    ssa.Value // allocation, function value, or the FieldAddr/Field read
	pos  token.Pos
}

type callSite struct {
	fn    *ssa.Function
	instr ssa.CallInstruction
	args  []ssa.Value
}

type conc struct {
	p       *Prog
	fns     []*ssa.Function
	callers map[*ssa.Function][]callSite
	stores  map[string][]ssa.Value // field key -> values stored
	gstores map[*ssa.Global][]ssa.Value
	closure map[*ssa.Function][]*ssa.MakeClosure
	targets map[ssa.CallInstruction][]*ssa.Function
	user    map[ssa.CallInstruction]bool // may call the application
	api     map[*ssa.Function]bool
	memo    map[ssa.Value][]origin
	starts  map[*types.Named]bool
	threads []*thread
}

type thread struct {
	name  string
	roots []*ssa.Function
	fns   map[*ssa.Function]ssa.Instruction
	order []*ssa.Function
	gos   []*ssa.Go
}

func fieldKeyOf(T types.Type, i int) string {
	T = deref(T)
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return tname(T) + "." + st.Field(i).Name()
}

func (p *Prog) conc() *conc {
	if p.concModel != nil {
		return p.concModel
	}
	c := &conc{p: p, callers: map[*ssa.Function][]callSite{}, stores: map[string][]ssa.Value{}, gstores: map[*ssa.Global][]ssa.Value{},
		closure: map[*ssa.Function][]*ssa.MakeClosure{}, targets: map[ssa.CallInstruction][]*ssa.Function{}, user: map[ssa.CallInstruction]bool{}, api: map[*ssa.Function]bool{}}
	p.concModel = c
	for _, f := range p.apiRoots() {
		if pkgOf(f) == modPath && c.sessionAPI(f) {
			c.api[f] = true
		}
	}
	// every function with a body that belongs to the transport and session
	// layers, with closures and synthetic wrappers of bound methods
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) || pkgOf(f) == sdpPath {
			return
		}
		seen[f] = true
		c.fns = append(c.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, g := range p.callees(i) {
					add(g)
				}
			}
		}
	}
	for _, f := range p.funcs {
		if pkgOf(f) != sdpPath {
			add(f)
		}
	}
	sort.Slice(c.fns, func(i, j int) bool { return c.fns[i].String() < c.fns[j].String() })
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldKeyOf(a.X.Type(), a.Field)
						c.stores[k] = append(c.stores[k], x.Val)
					case *ssa.Global:
						c.gstores[a] = append(c.gstores[a], x.Val)
					}
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					c.closure[g] = append(c.closure[g], x)
				}
			}
		}
	}
	// direct calls first, then calls of function values
	for pass := 0; pass < 3; pass++ {
		c.memo = map[ssa.Value][]origin{}
		callers := map[*ssa.Function][]callSite{}
		for _, f := range c.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c.resolve(ci, pass)
					for _, g := range c.targets[ci] {
						cc := ci.Common()
						args := cc.Args
						if cc.IsInvoke() {
							args = append([]ssa.Value{cc.Value}, cc.Args...)
						}
						if len(args) == len(g.Params) {
							callers[g] = append(callers[g], callSite{f, ci, args})
						}
					}
				}
			}
		}
		c.callers = callers
	}
	c.memo = map[ssa.Value][]origin{}
	c.makeThreads()
	return c
}

// sessionAPI: f makes, or is a method of, a type of the module whose methods
// start goroutines: what an application uses while the library's goroutines run.
func (c *conc) sessionAPI(f *ssa.Function) bool {
	var T types.Type
	if f.Signature.Recv() != nil {
		T = deref(f.Signature.Recv().Type())
	} else if f.Signature.Results().Len() > 0 {
		T = deref(f.Signature.Results().At(0).Type())
	}
	n, ok := T.(*types.Named)
	if !ok {
		return false
	}
	if r, ok := c.starts[n]; ok {
		return r
	}
	r := false
	for _, g := range c.p.funcs {
		if g.Signature.Recv() == nil || !types.Identical(deref(g.Signature.Recv().Type()), n) {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					r = true
				}
			}
		}
	}
	if c.starts == nil {
		c.starts = map[*types.Named]bool{}
	}
	c.starts[n] = r
	return r
}

// resolve finds the functions a call runs.
func (c *conc) resolve(ci ssa.CallInstruction, pass int) {
	cc := ci.Common()
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		for _, g := range out {
			if g == f {
				return
			}
		}
		out = append(out, f)
	}
	seenF := map[string]bool{}
	var fromValue func(v ssa.Value)
	fromValue = func(v ssa.Value) {
		for _, o := range c.origins(v) {
			switch o.kind {
			case 'f', 'g':
				if seenF[o.key] {
					continue
				}
				seenF[o.key] = true
				for _, w := range c.stores[o.key] {
					fromValue(w)
				}
				if g, ok := o.v.(*ssa.Global); ok {
					for _, w := range c.gstores[g] {
						fromValue(w)
					}
				}
			case 'F':
				switch x := o.v.(type) {
				case *ssa.Function:
					add(x)
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				}
			case 'u':
				c.user[ci] = true
			}
		}
	}
	switch {
	case cc.IsInvoke():
		for _, f := range c.p.implementations(cc.Method, cc.Value.Type()) {
			if f.Blocks != nil {
				add(f)
			}
		}
	case cc.StaticCallee() != nil:
		f := cc.StaticCallee()
		add(f)
		if f.Blocks == nil || !c.p.inModule(f) {
			// a function outside the module runs the functions it is given
			if pass > 0 {
				for _, a := range cc.Args {
					if _, ok := a.Type().Underlying().(*types.Signature); ok {
						fromValue(a)
					}
				}
			}
			// and buffered readers and writers use the connection
			for _, m := range c.ioMethods(f) {
				add(m)
			}
		}
	default:
		if _, ok := cc.Value.(*ssa.Builtin); !ok && pass > 0 {
			fromValue(cc.Value)
		}
	}
	c.targets[ci] = out
}

// ioMethods: methods of the module's connections a function of bufio or io may
// call.
func (c *conc) ioMethods(f *ssa.Function) (out []*ssa.Function) {
	o := f.Object()
	if o == nil || o.Pkg() == nil {
		return
	}
	switch o.Pkg().Path() {
	case "bufio", "io":
	default:
		return
	}
	n := f.Name()
	if strings.HasPrefix(n, "New") {
		return
	}
	want := map[string]bool{}
	if strings.Contains(n, "Read") || n == "Peek" || n == "Discard" || strings.HasPrefix(n, "Copy") {
		want["Read"] = true
	}
	if strings.HasPrefix(n, "Write") || n == "Flush" || strings.HasPrefix(n, "Copy") || n == "ReadFrom" {
		want["Write"] = true
	}
	for _, g := range c.fns {
		if want[g.Name()] && g.Signature.Recv() != nil && g.Signature.Params().Len() == 1 && g.Synthetic == "" {
			if s, ok := g.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
				out = append(out, g)
			}
		}
	}
	return
}

// origins says where a value comes from.
func (c *conc) origins(v ssa.Value) []origin {
	if r, ok := c.memo[v]; ok {
		return r
	}
	seen := map[ssa.Value]bool{}
	var out []origin
	dup := map[origin]bool{}
	add := func(o origin) {
		if !dup[o] {
			dup[o] = true
			out = append(out, o)
		}
	}
	var walk func(v ssa.Value)
	cell := func(a ssa.Value) {
		// a local variable: everything stored in it
		var refs func(a ssa.Value)
		refs = func(a ssa.Value) {
			if a.Referrers() == nil {
				return
			}
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == a {
						walk(r.Val)
					}
				case *ssa.MakeClosure:
					for k, b := range r.Bindings {
						if b == a {
							refs(r.Fn.(*ssa.Function).FreeVars[k])
						}
					}
				}
			}
		}
		refs(a)
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			add(origin{kind: 'c', v: x})
		case *ssa.Alloc, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
			add(origin{kind: 'a', v: x, pos: x.Pos()})
		case *ssa.Function, *ssa.MakeClosure:
			add(origin{kind: 'F', v: x})
		case *ssa.Global:
			add(origin{kind: 'g', key: x.String(), v: x})
		case *ssa.Parameter:
			f := x.Parent()
			if c.api[f] {
				add(origin{kind: 'u', key: x.Name(), v: x})
			}
			for k, q := range f.Params {
				if q == x {
					for _, s := range c.callers[f] {
						walk(s.args[k])
					}
				}
			}
			if len(c.callers[f]) == 0 && !c.api[f] {
				add(origin{kind: 'u', key: x.Name(), v: x})
			}
		case *ssa.FreeVar:
			f := x.Parent()
			for k, q := range f.FreeVars {
				if q == x {
					for _, m := range c.closure[f] {
						walk(m.Bindings[k])
					}
				}
			}
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					add(origin{kind: 'f', key: fieldKeyOf(a.X.Type(), a.Field), v: a})
				case *ssa.IndexAddr:
					add(origin{kind: 'e', v: a.X})
				case *ssa.Alloc:
					cell(a)
				case *ssa.FreeVar:
					for _, m := range c.closure[a.Parent()] {
						for k, q := range a.Parent().FreeVars {
							if q == a {
								if al, ok := m.Bindings[k].(*ssa.Alloc); ok {
									cell(al)
								} else {
									add(origin{kind: 'e', v: m.Bindings[k]})
								}
							}
						}
					}
				case *ssa.Global:
					add(origin{kind: 'g', key: a.String(), v: a})
				default:
					add(origin{kind: 'e', v: x.X})
				}
			case token.ARROW:
				add(origin{kind: 'r', v: x.X})
			}
		case *ssa.Field:
			add(origin{kind: 'f', key: fieldKeyOf(x.X.Type(), x.Field), v: x})
		case *ssa.FieldAddr:
			add(origin{kind: 'f', key: "&" + fieldKeyOf(x.X.Type(), x.Field), v: x})
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Lookup:
			add(origin{kind: 'e', v: x.X})
		case *ssa.Index:
			add(origin{kind: 'e', v: x.X})
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				c.results(t, x.Index, walk, add)
			case *ssa.TypeAssert:
				walk(t.X)
			case *ssa.Lookup:
				add(origin{kind: 'e', v: t.X})
			case *ssa.UnOp:
				add(origin{kind: 'r', v: t.X})
			case *ssa.Select:
				k := 2
				for _, s := range t.States {
					if s.Dir == types.RecvOnly {
						if k == x.Index {
							add(origin{kind: 'r', v: s.Chan})
						}
						k++
					}
				}
			case *ssa.Next:
				if r, ok := t.Iter.(*ssa.Range); ok {
					add(origin{kind: 'e', v: r.X})
				}
			}
		case *ssa.Call:
			c.results(x, 0, walk, add)
		}
	}
	walk(v)
	c.memo[v] = out
	return out
}

func (c *conc) results(x *ssa.Call, idx int, walk func(ssa.Value), add func(origin)) {
	ts := c.targets[x]
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			walk(x.Call.Args[0])
		}
		add(origin{kind: 'x', key: b.Name(), v: x})
		return
	}
	n := 0
	for _, f := range ts {
		if f.Blocks == nil || !c.p.inModule(f) {
			continue
		}
		if x.Call.StaticCallee() != nil && x.Call.StaticCallee() != f {
			continue // run by the function that is called
		}
		n++
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				walk(r.Results[idx])
			}
		}
	}
	if n == 0 {
		key := "?"
		if g := x.Call.StaticCallee(); g != nil {
			key = g.String()
		} else if x.Call.IsInvoke() {
			key = x.Call.Method.FullName()
		} else if c.user[x] {
			key = "application"
		}
		add(origin{kind: 'x', key: key, v: x})
	}
}

// chanClasses names the channels a value can be: by the field they are kept
// in, or by where they are made.
func (c *conc) chanClasses(v ssa.Value) []string {
	m := map[string]bool{}
	for _, o := range c.origins(v) {
		switch o.kind {
		case 'f', 'g':
			m[o.key] = true
		case 'a':
			for _, k := range c.fieldsOf(o.v) {
				m[k] = true
			}
		case 'x':
			m["call "+o.key] = true
		case 'u':
			m["application "+o.key] = true
		case 'e', 'r':
			m["element"] = true
		}
	}
	return sortedNames(m)
}

// fieldsOf are the fields a made value is stored in, or the place it is made.
func (c *conc) fieldsOf(v ssa.Value) (out []string) {
	for k, vs := range c.stores {
		for _, w := range vs {
			for _, o := range c.origins(w) {
				if o.kind == 'a' && o.v == v {
					out = append(out, k)
				}
			}
		}
	}
	for g, vs := range c.gstores {
		for _, w := range vs {
			for _, o := range c.origins(w) {
				if o.kind == 'a' && o.v == v {
					out = append(out, g.String())
				}
			}
		}
	}
	if len(out) == 0 {
		out = append(out, "made at "+c.p.pos(v.Pos()))
	}
	sort.Strings(out)
	return
}

func (c *conc) makeThreads() {
	loops := map[*ssa.Function]bool{} // functions go statements start
	var order []*ssa.Function
	byFn := map[*ssa.Function]*thread{}
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var start []*ssa.Function
				g, isGo := i.(*ssa.Go)
				if isGo {
					start = c.targets[g]
				} else if ci, ok := i.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && s.String() == "time.AfterFunc" {
						for _, t := range c.targets[ci] {
							if t != s {
								start = append(start, t)
							}
						}
					}
				}
				for _, t := range start {
					if !loops[t] {
						loops[t] = true
						order = append(order, t)
						byFn[t] = &thread{name: fname(t), roots: []*ssa.Function{t}}
					}
					if isGo {
						byFn[t].gos = append(byFn[t].gos, g)
					}
				}
			}
		}
	}
	wrapped := map[*ssa.Function]bool{}
	for f := range loops {
		wrapped[f] = true
		for _, g := range c.calledBy(f) {
			if c.onlyRuns(f, map[*ssa.Function]bool{g: true}) {
				wrapped[g] = true
			}
		}
	}
	api := &thread{name: "API"}
	for _, f := range c.p.apiRoots() {
		if !c.api[f] {
			continue
		}
		// an exported function that only runs what a goroutine runs is that
		// goroutine when the application starts it
		if c.onlyRuns(f, wrapped) || loops[f] || f.Name() == "HandleConn" {
			continue
		}
		api.roots = append(api.roots, f)
	}
	c.threads = append(c.threads, api)
	for _, f := range order {
		c.threads = append(c.threads, byFn[f])
	}
	for _, t := range c.threads {
		t.fns = map[*ssa.Function]ssa.Instruction{}
		q := append([]*ssa.Function{}, t.roots...)
		for _, f := range q {
			t.fns[f] = nil
		}
		for len(q) > 0 {
			f := q[0]
			q = q[1:]
			t.order = append(t.order, f)
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if _, ok := i.(*ssa.Go); ok {
						continue
					}
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if s := ci.Common().StaticCallee(); s != nil && s.String() == "time.AfterFunc" {
						continue
					}
					for _, g := range c.targets[ci] {
						if g.Blocks == nil || !c.p.inModule(g) || pkgOf(g) == sdpPath {
							continue
						}
						if _, ok := t.fns[g]; !ok {
							t.fns[g] = i
							q = append(q, g)
						}
					}
				}
			}
		}
	}
}

func (c *conc) calledBy(f *ssa.Function) (out []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, g := range c.targets[ci] {
					if g.Blocks != nil && c.p.inModule(g) {
						out = append(out, g)
					}
				}
			}
		}
	}
	return
}

// onlyRuns: f calls a function goroutines run, and no other of the module.
func (c *conc) onlyRuns(f *ssa.Function, loops map[*ssa.Function]bool) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := i.(*ssa.Go); ok {
				return false
			}
			for _, g := range c.targets[ci] {
				if g.Blocks == nil || !c.p.inModule(g) {
					continue
				}
				if !loops[g] {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

func (c *conc) thread(name string) *thread {
	for _, t := range c.threads {
		if t.name == name {
			return t
		}
	}
	return nil
}

// threadsOf are the goroutines that can run a function.
func (c *conc) threadsOf(f *ssa.Function) (ts []*thread) {
	for _, t := range c.threads {
		if _, ok := t.fns[f]; ok {
			ts = append(ts, t)
		}
	}
	return
}

func (t *thread) path(p *Prog, f *ssa.Function) string { return p.path(t.fns, f) }

// extName is the full name of a called function outside the module, or of an
// interface method.
func extName(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		if o := f.Object(); o != nil {
			if fn, ok := o.(*types.Func); ok {
				return fn.FullName()
			}
		}
		return f.String()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// constInt evaluates a constant number.
func constInt(v ssa.Value) (int64, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				return constant.Int64Val(x.Value)
			}
		}
		return 0, false
	}
}

// after lists the blocks and the index from which control goes on after i.
func cfgReach(from *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	q := []*ssa.BasicBlock{from}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		if seen[b] || stop != nil && stop(b) {
			continue
		}
		seen[b] = true
		q = append(q, b.Succs...)
	}
	return seen
}

func indexOf(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if i == j {
			return k
		}
	}
	return -1
}

// canFollow: j may run after i in the same activation.
func canFollow(i, j ssa.Instruction) bool {
	if i.Parent() != j.Parent() {
		return false
	}
	if i.Block() == j.Block() && indexOf(j) > indexOf(i) {
		return true
	}
	for _, s := range i.Block().Succs {
		if cfgReach(s, nil)[j.Block()] {
			return true
		}
	}
	return false
}

// dominates: i always runs before j.
func dominates(i, j ssa.Instruction) bool {
	if i.Parent() != j.Parent() {
		return false
	}
	if i.Block() == j.Block() {
		return indexOf(i) < indexOf(j)
	}
	return i.Block().Dominates(j.Block())
}

func sortedNames(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func debugConc(p *Prog) {
	c := p.conc()
	for _, t := range c.threads {
		fmt.Println("thread", t.name)
		for _, f := range t.order {
			fmt.Println("   ", fname(f))
		}
	}
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case ssa.CallInstruction:
					if x.Common().StaticCallee() == nil {
						var n []string
						for _, g := range c.targets[x] {
							n = append(n, fname(g))
						}
						if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
							fmt.Println("dyn", p.pos(i.Pos()), n, c.user[x])
						}
					}
				case *ssa.Select:
					for _, s := range x.States {
						fmt.Println("select", p.pos(i.Pos()), c.chanClasses(s.Chan))
					}
				}
			}
		}
	}
}
