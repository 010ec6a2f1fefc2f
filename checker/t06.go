package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T06: state shared between goroutines is accessed under a common lock or
// atomically.

type lockset map[string]bool

func (l lockset) clone() lockset {
	m := lockset{}
	for k := range l {
		m[k] = true
	}
	return m
}

func meetLocks(a, b lockset) lockset {
	m := lockset{}
	for k := range a {
		if b[k] {
			m[k] = true
		}
	}
	return m
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// lockOp recognises operations of sync.Mutex and sync.RWMutex.
func (c *conc) lockOp(ci ssa.CallInstruction) (key, op string) {
	n := extName(ci)
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		op = "lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		op = "unlock"
	case "(*sync.RWMutex).RLock":
		op = "rlock"
	case "(*sync.RWMutex).RUnlock":
		op = "runlock"
	default:
		return "", ""
	}
	cc := ci.Common()
	v := cc.Value
	if !cc.IsInvoke() {
		v = cc.Args[0]
	}
	var ks []string
	for _, o := range c.origins(v) {
		switch o.kind {
		case 'f', 'g':
			ks = append(ks, strings.TrimPrefix(o.key, "&"))
		default:
			ks = append(ks, fmt.Sprintf("lock at %s", c.p.pos(v.Pos())))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "/"), op
}

func (l lockset) apply(key, op string) {
	switch op {
	case "lock":
		l[key], l[key+" r"] = true, true
	case "unlock":
		delete(l, key)
		delete(l, key+" r")
	case "rlock":
		l[key+" r"] = true
	case "runlock":
		delete(l, key+" r")
	}
}

// lockEffect is what a call does to the locks held: acquired on all returns,
// possibly released.
type lockEffect struct{ gain, lose lockset }

type lockInfo struct {
	c    *conc
	eff  map[*ssa.Function]*lockEffect
	busy map[*ssa.Function]bool
}

func (li *lockInfo) step(l lockset, i ssa.Instruction) {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return
	}
	switch i.(type) {
	case *ssa.Go, *ssa.Defer:
		return
	}
	if k, op := li.c.lockOp(ci); op != "" {
		l.apply(k, op)
		return
	}
	ts := li.c.targets[ci]
	var gain lockset
	for _, g := range ts {
		if g.Blocks == nil || !li.c.p.inModule(g) {
			continue
		}
		e := li.effect(g)
		for k := range e.lose {
			delete(l, k)
		}
		if gain == nil {
			gain = e.gain.clone()
		} else {
			gain = meetLocks(gain, e.gain)
		}
	}
	for k := range gain {
		l[k] = true
	}
}

func (li *lockInfo) effect(f *ssa.Function) *lockEffect {
	if e := li.eff[f]; e != nil {
		return e
	}
	if li.busy[f] {
		return &lockEffect{lockset{}, lockset{}}
	}
	li.busy[f] = true
	e := &lockEffect{nil, lockset{}}
	in := li.flow(f, lockset{})
	for _, b := range f.Blocks {
		l, ok := in[b]
		if !ok {
			continue
		}
		l = l.clone()
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if k, op := li.c.lockOp(ci); op == "unlock" || op == "runlock" {
					e.lose[k] = true
					e.lose[k+" r"] = true
				}
			}
			li.step(l, i)
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for k := range li.deferred(f) {
				delete(l, k)
			}
			if e.gain == nil {
				e.gain = l
			} else {
				e.gain = meetLocks(e.gain, l)
			}
		}
	}
	if e.gain == nil {
		e.gain = lockset{}
	}
	for k := range e.gain {
		delete(e.lose, k)
	}
	delete(li.busy, f)
	li.eff[f] = e
	return e
}

// deferred are the locks a function releases when it returns.
func (li *lockInfo) deferred(f *ssa.Function) lockset {
	m := lockset{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok {
				continue
			}
			if k, op := li.c.lockOp(d); op == "unlock" || op == "runlock" {
				m[k], m[k+" r"] = true, true
			}
			for _, g := range li.c.targets[d] {
				if g.Blocks != nil && li.c.p.inModule(g) {
					for k := range li.effect(g).lose {
						m[k] = true
					}
				}
			}
		}
	}
	return m
}

// flow computes the locks certainly held at the entry of each block.
func (li *lockInfo) flow(f *ssa.Function, entry lockset) map[*ssa.BasicBlock]lockset {
	in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: entry}
	q := []*ssa.BasicBlock{f.Blocks[0]}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		l := in[b].clone()
		for _, i := range b.Instrs {
			li.step(l, i)
		}
		for _, s := range b.Succs {
			o, ok := in[s]
			if !ok {
				in[s] = l.clone()
				q = append(q, s)
				continue
			}
			if m := meetLocks(o, l); !sameLocks(m, o) {
				in[s] = m
				q = append(q, s)
			}
		}
	}
	if f.Recover != nil {
		if _, ok := in[f.Recover]; !ok {
			in[f.Recover] = lockset{}
		}
	}
	return in
}

// entries computes the locks held whenever a function of a thread is entered.
func (li *lockInfo) entries(t *thread) map[*ssa.Function]lockset {
	ent := map[*ssa.Function]lockset{}
	var q []*ssa.Function
	for _, f := range t.roots {
		ent[f] = lockset{}
		q = append(q, f)
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		in := li.flow(f, ent[f])
		for _, b := range f.Blocks {
			l, ok := in[b]
			if !ok {
				continue
			}
			l = l.clone()
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if _, isGo := i.(*ssa.Go); !isGo {
						held := l.clone()
						if _, isDefer := i.(*ssa.Defer); isDefer {
							held = lockset{}
						}
						for _, g := range li.c.targets[ci] {
							if _, ok := t.fns[g]; !ok {
								continue
							}
							o, ok := ent[g]
							if !ok {
								ent[g] = held.clone()
								q = append(q, g)
							} else if m := meetLocks(o, held); !sameLocks(m, o) {
								ent[g] = m
								q = append(q, g)
							}
						}
					}
				}
				li.step(l, i)
			}
		}
	}
	return ent
}

type access struct {
	t      *thread
	fn     *ssa.Function
	at     ssa.Instruction
	key    string
	write  bool
	atomic bool
	locks  lockset
	base   ssa.Value // the object the field belongs to, or the value itself
}

func (a *access) what() string {
	s := "reads"
	if a.write {
		s = "writes"
	}
	if a.atomic {
		s += " atomically"
	}
	return s
}

// accesses lists what the functions of a thread read and write in shared
// places.
func (c *conc) accesses(t *thread, li *lockInfo, ent map[*ssa.Function]lockset) (out []*access) {
	for _, f := range t.order {
		in := li.flow(f, ent[f])
		for _, b := range f.Blocks {
			l, ok := in[b]
			if !ok {
				continue
			}
			l = l.clone()
			for _, i := range b.Instrs {
				add := func(key string, write, atomic bool, base ssa.Value) {
					out = append(out, &access{t, f, i, key, write, atomic, l.clone(), base})
				}
				c.accessesOf(i, add)
				li.step(l, i)
			}
		}
	}
	return
}

func (c *conc) accessesOf(i ssa.Instruction, add func(key string, write, atomic bool, base ssa.Value)) {
	// the place an address points to
	place := func(a ssa.Value) (string, ssa.Value) {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			base := x.X
			for { // a field of an embedded or nested struct value
				y, ok := base.(*ssa.FieldAddr)
				if !ok {
					break
				}
				base = y.X
			}
			if g, ok := base.(*ssa.Global); ok {
				return g.String(), nil
			}
			return fieldKeyOf(x.X.Type(), x.Field), base
		case *ssa.Global:
			return x.String(), nil
		case *ssa.IndexAddr:
			if arr, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldKeyOf(arr.X.Type(), arr.Field) + "[]", arr.X
			}
			if k, b := c.content(x.X); k != "" {
				return k, b
			}
		}
		return "", nil
	}
	contents := func(v ssa.Value, write bool) {
		if k, b := c.content(v); k != "" {
			add(k, write, false, b)
		}
	}
	switch x := i.(type) {
	case *ssa.Store:
		if k, b := place(x.Addr); k != "" {
			add(k, true, false, b)
		} else if st, ok := deref(x.Addr.Type()).Underlying().(*types.Struct); ok && c.inModuleType(x.Addr.Type()) {
			for k := 0; k < st.NumFields(); k++ {
				add(fieldKeyOf(x.Addr.Type(), k), true, false, x.Addr)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if k, b := place(x.X); k != "" {
			add(k, false, false, b)
		} else if st, ok := x.Type().Underlying().(*types.Struct); ok && c.inModuleType(x.Type()) {
			for k := 0; k < st.NumFields(); k++ {
				add(fieldKeyOf(x.Type(), k), false, false, x.X)
			}
		}
	case *ssa.MapUpdate:
		contents(x.Map, true)
	case *ssa.Lookup:
		contents(x.X, false)
	case *ssa.Range:
		contents(x.X, false)
	case ssa.CallInstruction:
		if _, ok := i.(*ssa.Go); ok {
			return
		}
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete":
				contents(cc.Args[0], true)
			case "copy":
				contents(cc.Args[0], true)
			case "len":
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					contents(cc.Args[0], false)
				}
			}
			return
		}
		n := extName(x)
		if strings.HasPrefix(n, "sync/atomic.") && len(cc.Args) > 0 {
			if k, b := place(cc.Args[0]); k != "" {
				add(k, !strings.Contains(n, "Load"), true, b)
			}
			return
		}
		f := cc.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || c.p.inModule(f) || len(cc.Args) == 0 {
			return
		}
		// a method of a library object kept in a field
		T := deref(cc.Args[0].Type())
		nt, ok := T.(*types.Named)
		if !ok || nt.Obj().Pkg() == nil {
			return
		}
		switch nt.Obj().Pkg().Path() {
		case "sync", "log", "time", "net", "reflect", "context", "net/url", "os", "github.com/gorilla/websocket":
			return
		case "sync/atomic":
			if k, b := place(cc.Args[0]); k != "" {
				add(k, !strings.Contains(n, "Load"), true, b)
			}
			return
		}
		part := ""
		if nt.Obj().Pkg().Path() == "bufio" {
			part = " (reader)"
			if strings.HasPrefix(f.Name(), "Write") || f.Name() == "Flush" || f.Name() == "ReadFrom" || f.Name() == "Available" || nt.Obj().Name() == "Writer" {
				part = " (writer)"
			}
		}
		if k, b := place(cc.Args[0]); k != "" {
			add(k+part, true, false, b)
			return
		}
		for _, o := range c.origins(cc.Args[0]) {
			switch o.kind {
			case 'f':
				key := strings.TrimPrefix(o.key, "&")
				fa, _ := o.v.(*ssa.FieldAddr)
				var base ssa.Value
				if fa != nil {
					base = fa.X
				}
				// the reader and the writer of a bufio.ReadWriter
				if key == "bufio.ReadWriter.Writer" || key == "bufio.ReadWriter.Reader" {
					if fa != nil {
						for _, o2 := range c.origins(fa.X) {
							if o2.kind == 'f' {
								key = o2.key
								if g, ok := o2.v.(*ssa.FieldAddr); ok {
									base = g.X
								}
							}
						}
					}
				}
				add(key+part, true, false, base)
			case 'g':
				add(o.key+part, true, false, nil)
			}
		}
	}
}

func (c *conc) inModuleType(T types.Type) bool {
	n, ok := deref(T).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// content names the contents of the map or list kept in a field.
func (c *conc) content(v ssa.Value) (string, ssa.Value) {
	for _, o := range c.origins(v) {
		switch o.kind {
		case 'f':
			var base ssa.Value
			if fa, ok := o.v.(*ssa.FieldAddr); ok {
				base = fa.X
			}
			return strings.TrimPrefix(o.key, "&") + "[]", base
		case 'g':
			return o.key + "[]", nil
		}
	}
	return "", nil
}

// owned: the object is one the goroutine made itself and has not yet given to
// anybody else when the instruction runs.
func (c *conc) owned(t *thread, v ssa.Value, at ssa.Instruction, depth int) bool {
	if v == nil || depth > 6 {
		return false
	}
	os := c.originsIn(t, v)
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		switch o.kind {
		case 'a':
			if !c.unpublished(t, o.v, at) {
				return false
			}
		case 'c':
		case 'f':
			fa, ok := o.v.(*ssa.FieldAddr)
			if !ok || !c.owned(t, fa.X, at, depth+1) {
				return false
			}
		case 'e':
			if !c.owned(t, o.v, at, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// originsIn are the origins of a value when its function runs on a goroutine:
// only calls made on that goroutine count.
func (c *conc) originsIn(t *thread, v ssa.Value) []origin {
	save, memo := c.callers, c.memo
	cs := map[*ssa.Function][]callSite{}
	for f, ss := range save {
		for _, s := range ss {
			if _, ok := t.fns[s.fn]; ok {
				_, isGo := s.instr.(*ssa.Go)
				if !isGo {
					cs[f] = append(cs[f], s)
				}
			}
		}
	}
	c.callers, c.memo = cs, map[ssa.Value][]origin{}
	out := c.origins(v)
	c.callers, c.memo = save, memo
	return out
}

// unpublished: no instruction that makes the allocated object known to others
// may have run before at, seen from the function that allocates it.
func (c *conc) unpublished(t *thread, alloc ssa.Value, at ssa.Instruction) bool {
	g := alloc.Parent()
	ai, ok := alloc.(ssa.Instruction)
	if !ok || g == nil {
		return false
	}
	pubs := c.publishes(alloc, map[ssa.Value]bool{})
	var points []ssa.Instruction // where in g the access happens
	if at.Parent() == g {
		points = append(points, at)
	} else {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				for _, h := range c.targets[ci] {
					if h.Blocks != nil && c.p.inModule(h) && c.runs(h, at.Parent()) {
						points = append(points, i)
					}
				}
			}
		}
		if len(points) == 0 {
			// returned to a caller that uses it: followed from there
			return len(pubs) == 0
		}
	}
	for _, p := range pubs {
		for _, q := range points {
			if p != q && canFollow(p, q) && !dominatesReset(p, ai, q) {
				return false
			}
		}
	}
	return true
}

// dominatesReset: between p and q the object is always allocated anew.
func dominatesReset(p, alloc, q ssa.Instruction) bool {
	if alloc.Block() == q.Block() && indexOf(alloc) < indexOf(q) && !(p.Block() == q.Block() && indexOf(p) < indexOf(q) && indexOf(p) > indexOf(alloc)) {
		return true
	}
	if p.Block() == q.Block() && indexOf(p) < indexOf(q) {
		return false
	}
	for _, s := range p.Block().Succs {
		if cfgReach(s, func(b *ssa.BasicBlock) bool { return b == alloc.Block() })[q.Block()] {
			return false
		}
	}
	return true
}

func (c *conc) runs(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if f == g {
			return true
		}
		if seen[f] || f.Blocks == nil || !c.p.inModule(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					continue
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, h := range c.targets[ci] {
						if w(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return w(f)
}

// publishes lists the instructions that give an object away: to a channel, a
// goroutine, a map, or a field of another object.
func (c *conc) publishes(v ssa.Value, seen map[ssa.Value]bool) (out []ssa.Instruction) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					// a local variable
					for _, r2 := range *a.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok {
							out = append(out, c.publishes(u, seen)...)
						}
					}
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if a, ok := fa.X.(*ssa.Alloc); ok {
						// part of another new object: known when that one is
						out = append(out, c.publishes(a, seen)...)
						continue
					}
				}
				out = append(out, x)
			}
		case *ssa.Send:
			if x.X == v {
				out = append(out, x)
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Send == v {
					out = append(out, x)
				}
			}
		case *ssa.MapUpdate:
			if x.Value == v {
				out = append(out, x)
			}
		case *ssa.Go:
			out = append(out, x)
		case *ssa.MakeClosure:
			for _, r2 := range *x.Referrers() {
				if g, ok := r2.(*ssa.Go); ok {
					out = append(out, g)
				}
			}
		case *ssa.Phi:
			out = append(out, c.publishes(x, seen)...)
		case *ssa.MakeInterface:
			out = append(out, c.publishes(x, seen)...)
		case *ssa.ChangeType:
			out = append(out, c.publishes(x, seen)...)
		case ssa.CallInstruction:
			cc := x.Common()
			for _, g := range c.targets[x] {
				if g.Blocks == nil || !c.p.inModule(g) {
					continue
				}
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				for k, a := range args {
					if a == v && k < len(g.Params) && len(c.publishes(g.Params[k], seen)) > 0 {
						out = append(out, x)
					}
				}
			}
			if len(c.targets[x]) == 0 && c.user[x] {
				out = append(out, x)
			}
		}
	}
	return
}

// beforeStart: the write is made to an object of its caller's own making
// before the goroutine that also uses the object is started.
func (c *conc) beforeStart(w *access, b *thread) bool {
	if w.base == nil || len(b.gos) == 0 {
		return false
	}
	par, ok := w.base.(*ssa.Parameter)
	if !ok {
		return false
	}
	f := par.Parent()
	k := -1
	for i, q := range f.Params {
		if q == par {
			k = i
		}
	}
	// the goroutine may start another one: the first one counts
	started := append([]*ssa.Go{}, b.gos...)
	for _, t := range c.threads {
		for _, g := range b.gos {
			if _, ok := t.fns[g.Parent()]; ok && t != w.t {
				started = append(started, t.gos...)
			}
		}
	}
	n := 0
	for _, s := range c.callers[f] {
		if _, ok := w.t.fns[s.fn]; !ok {
			continue
		}
		n++
		if !c.newObject(s.args[k], s.instr) {
			return false
		}
		// every start of the goroutine in this function comes later
		for _, blk := range s.fn.Blocks {
			for _, i := range blk.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || i == s.instr.(ssa.Instruction) {
					continue
				}
				starts := false
				for _, g := range started {
					if i == ssa.Instruction(g) {
						starts = true
					}
					for _, h := range c.targets[ci] {
						if c.runs(h, g.Parent()) {
							starts = true
						}
					}
				}
				if starts && canFollow(i, s.instr) && !c.newAfter(s.args[k], i, s.instr) {
					return false
				}
			}
		}
	}
	return n > 0
}

// newObject: v, used at at, is what a constructor just returned, or is loaded
// from where that was stored in the same function.
func (c *conc) newObject(v ssa.Value, at ssa.Instruction) bool { return c.creation(v, at) != nil }

func (c *conc) creation(v ssa.Value, at ssa.Instruction) ssa.Instruction {
	if i := c.freshValue(v); i != nil {
		return i
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	return c.creationIn(fieldKeyOf(fa.X.Type(), fa.Field), fa.X, at)
}

// freshValue: the value is an object made by this instruction.
func (c *conc) freshValue(v ssa.Value) ssa.Instruction {
	i, ok := v.(ssa.Instruction)
	if !ok {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return i
	case *ssa.Call:
		all := true
		for _, o := range c.origins(x) {
			if o.kind != 'a' && o.kind != 'c' {
				all = false
			}
		}
		if all && len(c.origins(x)) > 0 {
			return i
		}
	}
	return nil
}

// creationIn: a new object is stored in the field before at.
func (c *conc) creationIn(key string, base ssa.Value, at ssa.Instruction) ssa.Instruction {
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := st.Addr.(*ssa.FieldAddr)
			if ok && fieldKeyOf(a.X.Type(), a.Field) == key && sameValue(a.X, base) && dominates(st, at) {
				if i := c.freshValue(st.Val); i != nil {
					return i
				}
			}
		}
	}
	return nil
}

// sameValue: the same value, or loads of the same local variable.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X {
		return false
	}
	switch x.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}

// newAfter: the object is made between the start and the write.
func (c *conc) newAfter(v ssa.Value, start, at ssa.Instruction) bool {
	i := c.creation(v, at)
	return i != nil && !canFollow(i, start)
}

func checkT06(p *Prog, r *Result) {
	r.explanation = "The functions each goroutine can run are found from the go statements and the API; every read and write of a field, package variable, map or buffered reader or writer is collected with the locks certainly held. Two accesses from different goroutines, one of them a write, must both be atomic or share a lock, unless one is to an object its goroutine made and has not given away, or is made before the other goroutine is started."
	r.assume = append(r.assume, "one application goroutine uses a session at a time; the exported configuration setters of a Connection are used before Run")
	c := p.conc()
	li := &lockInfo{c: c, eff: map[*ssa.Function]*lockEffect{}, busy: map[*ssa.Function]bool{}}
	byKey := map[string][]*access{}
	total, exempt := 0, 0
	for _, t := range c.threads {
		for _, a := range c.accesses(t, li, li.entries(t)) {
			total++
			byKey[a.key] = append(byKey[a.key], a)
		}
	}
	keys := make([]string, 0, len(byKey))
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	shared, pairs := 0, 0
	for _, k := range keys {
		as := byKey[k]
		ts := map[*thread]bool{}
		w := false
		for _, a := range as {
			ts[a.t] = true
			w = w || a.write
		}
		if len(ts) < 2 || !w {
			continue
		}
		shared++
		own := map[*access]int{}
		mine := func(a *access) bool {
			if own[a] == 0 {
				own[a] = 1
				if a.base != nil && c.owned(a.t, a.base, a.at, 0) {
					own[a] = 2
					exempt++
				}
			}
			return own[a] == 2
		}
		for _, a := range as {
			if !a.write {
				continue
			}
			for _, b := range as {
				if a.t == b.t {
					continue
				}
				pairs++
				r.obligations++
				if a.atomic && b.atomic {
					continue
				}
				held := false
				for l := range a.locks {
					if !strings.HasSuffix(l, " r") && (b.locks[l+" r"]) || strings.HasSuffix(l, " r") && !b.write && false {
						held = true
					}
				}
				if held || mine(a) || mine(b) || c.beforeStart(a, b.t) || b.write && c.beforeStart(b, a.t) {
					continue
				}
				r.report("data-race", k, p.pos(a.at.Pos()), "%s %s %s on the goroutine of %s (%s); %s %s it at %s on the goroutine of %s (%s), without a common lock", fname(a.fn), a.what(), k, a.t.name, a.t.path(p, a.fn), fname(b.fn), b.what(), p.pos(b.at.Pos()), b.t.name, b.t.path(p, b.fn))
			}
		}
	}
	r.coverage["goroutines"] = len(c.threads)
	r.coverage["functions"] = len(c.fns)
	r.coverage["accesses"] = total
	r.coverage["places_written_and_used_by_several_goroutines"] = shared
	r.coverage["pairs_of_accesses"] = pairs
	r.require("goroutines", len(c.threads), 4)
	r.require("accesses", total, 200)
	for _, t := range c.threads {
		r.sample("goroutine %s: %d functions", t.name, len(t.fns))
	}
}

func init() { checks["T06"] = checkT06 }
