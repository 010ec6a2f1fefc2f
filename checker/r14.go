package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R14: processing what was received ends.
//
// Every loop of the client and its transport is examined: a pass that changes
// nothing is repeated for ever, and so is one whose exit compares numbers the
// loop does not change, one that ignores the error of the connection it reads
// from, and one that advances by a length taken from the data which may be
// zero. A function that calls itself with its own arguments does not end.

type r14Loop struct {
	p     *Prog
	r     *Result
	c     *conc
	f     *ssa.Function
	l     *Loop
	seen  map[string]bool
	paths int
	mem   bool // branches depend on memory
}

// quiet: the call changes nothing a later pass could notice.
func quietCall(ci ssa.CallInstruction) bool {
	if _, ok := ci.(*ssa.Call); !ok {
		return false
	}
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "min", "max", "append":
			return true
		}
		return false
	}
	n := extName(ci)
	for _, s := range []string{"strings.", "strconv.", "bytes.Compare", "bytes.Equal", "bytes.Index", "bytes.HasPrefix", "bytes.Contains", "log.", "(*log.Logger).", "errors.New", "fmt.Sprint", "fmt.Print", "(encoding/binary."} {
		if strings.HasPrefix(n, s) && !strings.Contains(n, "Put") {
			return true
		}
	}
	return false
}

func changes(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.IndexAddr); ok {
			if al, ok := a.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				return false
			}
		}
		return true
	case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Next, *ssa.Defer, *ssa.Go, *ssa.RunDefers:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		return !quietCall(x)
	}
	return false
}

// passes follows the paths of a loop from its head back to it; env gives the
// values of phis on the path.
func (w *r14Loop) passes(visit func(path []*ssa.BasicBlock, env, to map[*ssa.Phi]ssa.Value, changed bool)) {
	n := 0
	var walk func(b *ssa.BasicBlock, path []*ssa.BasicBlock, env map[*ssa.Phi]ssa.Value, on map[int]bool, changed bool)
	walk = func(b *ssa.BasicBlock, path []*ssa.BasicBlock, env map[*ssa.Phi]ssa.Value, on map[int]bool, changed bool) {
		if n > 3000 {
			return
		}
		for _, i := range b.Instrs {
			changed = changed || changes(i)
		}
		path = append(append([]*ssa.BasicBlock(nil), path...), b)
		for k, s := range b.Succs {
			if !w.l.blocks[s.Index] || k == 1 && s == b.Succs[0] {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c, ok := env2(env, iff.Cond).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != (k == 0) {
					continue
				}
			}
			e := map[*ssa.Phi]ssa.Value{}
			for x, v := range env {
				e[x] = v
			}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for j, q := range s.Preds {
					if q == b {
						e[ph] = env2(env, ph.Edges[j])
					}
				}
			}
			if s == w.l.head {
				n++
				visit(path, env, e, changed)
				continue
			}
			if on[s.Index] {
				continue
			}
			o := map[int]bool{s.Index: true}
			for x := range on {
				o[x] = true
			}
			walk(s, path, e, o, changed)
		}
	}
	walk(w.l.head, nil, map[*ssa.Phi]ssa.Value{}, map[int]bool{}, false)
	w.paths += n
}

func env2(env map[*ssa.Phi]ssa.Value, v ssa.Value) ssa.Value {
	for k := 0; k < 20; k++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		x, ok := env[ph]
		if !ok || x == v {
			return v
		}
		v = x
	}
	return v
}

func (w *r14Loop) phis() (ps []*ssa.Phi) {
	for _, i := range w.l.head.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			ps = append(ps, ph)
		}
	}
	return
}

// steering: the phis of the head that the branches of the loop depend on.
func (w *r14Loop) steering() (ps []*ssa.Phi) {
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if seen[v] || !w.inside(v) {
			return
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.IndexAddr); !ok {
				w.mem = true
			}
		}
		for _, o := range v.(ssa.Instruction).Operands(nil) {
			if *o != nil {
				back(*o)
			}
		}
	}
	for _, b := range w.f.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && w.l.blocks[b.Index] {
			back(iff.Cond)
		}
	}
	for _, ph := range w.phis() {
		if seen[ph] {
			ps = append(ps, ph)
		}
	}
	return
}

func (w *r14Loop) pos() token.Pos {
	for _, b := range w.f.Blocks {
		if !w.l.blocks[b.Index] {
			continue
		}
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return w.f.Pos()
}

func (w *r14Loop) bad(rule, format string, a ...interface{}) {
	k := rule + fmt.Sprint(w.l.head.Index)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.r.report(rule, fname(w.f)+" "+w.p.pos(w.pos()), w.p.pos(w.pos()), format, a...)
}

func (w *r14Loop) inside(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Parent() == w.f && i.Block() != nil && w.l.blocks[i.Block().Index]
}

// fixed: the value is the same on every pass. phis: those it depends on.
func (w *r14Loop) fixed(v ssa.Value, depth int, phis map[*ssa.Phi]bool) bool {
	if !w.inside(v) {
		return true
	}
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return w.fixed(x.X, depth+1, phis) && w.fixed(x.Y, depth+1, phis)
	case *ssa.Convert:
		return w.fixed(x.X, depth+1, phis)
	case *ssa.ChangeType:
		return w.fixed(x.X, depth+1, phis)
	case *ssa.Phi:
		if x.Block() == w.l.head {
			phis[x] = true
			return true
		}
		return false
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return w.fixed(x.Call.Args[0], depth+1, phis)
		}
	}
	return false
}

// readsStream: the call takes bytes from a connection.
func (w *r14Loop) readsStream(ci ssa.CallInstruction, depth int, seen map[*ssa.Function]bool) bool {
	n := ""
	if ci.Common().IsInvoke() {
		n = ci.Common().Method.Name()
	} else if g := ci.Common().StaticCallee(); g != nil && !w.p.inModule(g) {
		n = g.Name()
		if g.Signature.Recv() == nil && n != "ReadFull" && n != "ReadAtLeast" && n != "ReadAll" {
			n = ""
		}
	}
	switch n {
	case "Read", "ReadMessage", "ReadByte", "ReadFull", "ReadAtLeast", "NextReader", "ReadAll", "ReadString", "ReadBytes", "ReadSlice", "Peek":
		for _, a := range append([]ssa.Value{ci.Common().Value}, ci.Common().Args...) {
			if s := a.Type().String(); strings.Contains(s, "strings.Reader") || strings.Contains(s, "bytes.") {
				return false
			}
		}
		return true
	}
	if depth > 4 {
		return false
	}
	for _, g := range w.c.targets[ci] {
		if !w.p.inModule(g) || seen[g] {
			continue
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Go); ok {
					continue
				}
				if cj, ok := i.(ssa.CallInstruction); ok && w.readsStream(cj, depth+1, seen) {
					return true
				}
			}
		}
	}
	return false
}

// errOf is the call whose error the value is.
func errOf(v ssa.Value) ssa.CallInstruction {
	switch x := v.(type) {
	case *ssa.Call:
		if isErr(x.Type()) {
			return x
		}
	case *ssa.Extract:
		if isErr(x.Type()) {
			if c, ok := x.Tuple.(*ssa.Call); ok {
				return c
			}
		}
	}
	return nil
}

func (w *r14Loop) check() {
	head := w.l.head
	ps := w.steering()
	headIf, _ := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	exits := headIf != nil && (!w.l.blocks[head.Succs[0].Index] || !w.l.blocks[head.Succs[1].Index])
	// numbers the loop does not change
	if exits {
		if b, ok := headIf.Cond.(*ssa.BinOp); ok {
			phis := map[*ssa.Phi]bool{}
			if bt, ok := b.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && w.fixed(b.X, 0, phis) && w.fixed(b.Y, 0, phis) && len(phis) == 0 {
				w.bad("exit-never-changes", "the loop ends when %s, which no pass changes", b)
			}
		}
	}
	w.passes(func(path []*ssa.BasicBlock, env, to map[*ssa.Phi]ssa.Value, changed bool) {
		same := true
		for _, ph := range ps {
			if to[ph] != ssa.Value(ph) {
				same = false
			}
		}
		if same && !changed {
			w.bad("pass-changes-nothing", "a pass through %d blocks leaves everything as it was, so it is repeated for ever", len(path))
		}
		// an error of the connection that is not heeded
		for k, b := range path {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
				continue
			}
			ev, ended := cmp.X, isEnd(cmp.X) || isEnd(cmp.Y)
			if isNilK(ev) || isEnd(ev) {
				ev = cmp.Y
			} else if !isNilK(cmp.Y) && !ended {
				continue
			}
			call := errOf(env2(env, ev))
			if call == nil || !w.inside(call.Value()) || !w.readsStream(call, 0, map[*ssa.Function]bool{}) {
				continue
			}
			next := head
			if k+1 < len(path) {
				next = path[k+1]
			}
			notNil := b.Succs[0]
			if (cmp.Op == token.EQL) != ended {
				notNil = b.Succs[1]
			}
			if next != notNil || b.Succs[0] == b.Succs[1] {
				continue
			}
			// can the loop be left after the error
			out := false
			vis := map[int]bool{}
			var go2 func(x *ssa.BasicBlock)
			go2 = func(x *ssa.BasicBlock) {
				if !w.l.blocks[x.Index] {
					out = true
					return
				}
				if vis[x.Index] || x == head {
					return
				}
				vis[x.Index] = true
				for _, i := range x.Instrs {
					if changes(i) {
						if ci, ok := i.(ssa.CallInstruction); !ok || len(w.c.targets[ci]) > 0 {
							// something is noted
							out = true
						}
					}
				}
				for _, s := range x.Succs {
					go2(s)
				}
			}
			go2(notNil)
			if exits && !w.stores(path) {
				// what the exit asks for is as before
				for _, ph := range ps {
					if d, ok := stepOf(env, to[ph], ph); to[ph] != ssa.Value(ph) && !(ok && d != nil && ofCall(env2(env, d), call)) {
						out = true
					}
				}
			} else if exits {
				phis := map[*ssa.Phi]bool{}
				bo, _ := headIf.Cond.(*ssa.BinOp)
				if bo == nil || !w.fixed(bo.X, 0, phis) || !w.fixed(bo.Y, 0, phis) {
					out = true
				}
				for ph := range phis {
					if to[ph] != ssa.Value(ph) {
						out = true
					}
				}
			}
			if !out {
				w.bad("error-ignored", "after an error of the connection (%s) the loop goes on reading", w.p.pos(call.Pos()))
			}
		}
		// lengths that may be zero
		if changed {
			for _, b := range path {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok && w.readsStream(ci, 0, map[*ssa.Function]bool{}) {
						return
					}
				}
			}
		}
		moved, zero := false, ""
		for _, ph := range ps {
			v := to[ph]
			if v == ssa.Value(ph) {
				continue
			}
			d, ok := stepOf(env, v, ph)
			if !ok || d == nil {
				moved = true
				continue
			}
			if src := fromData(env, d, 0); src != "" && !w.zeroTested(d) {
				zero = src
			} else {
				moved = true
			}
		}
		if zero != "" && !moved && !(w.mem && w.stores(path)) {
			w.bad("step-may-be-zero", "a pass advances by %s, which may be zero", zero)
		}
	})
}

// stores: the path writes to memory or runs code of the module.
func (w *r14Loop) stores(path []*ssa.BasicBlock) bool {
	for _, b := range path {
		for _, i := range b.Instrs {
			if storing(w.p, i) {
				return true
			}
		}
	}
	return false
}

func storing(p *Prog, i ssa.Instruction) bool {
	if !changes(i) {
		return false
	}
	if ci, ok := i.(*ssa.Call); ok {
		if g := ci.Call.StaticCallee(); g != nil && !p.inModule(g) && !strings.Contains(g.String(), "sync") {
			return false
		}
		if ci.Call.IsInvoke() && ci.Call.Method.Pkg() != nil && !strings.HasPrefix(ci.Call.Method.Pkg().Path(), modPath) {
			return false
		}
	}
	return true
}

func ofCall(v ssa.Value, call ssa.CallInstruction) bool {
	x, ok := v.(*ssa.Extract)
	return ok && x.Tuple == call.Value()
}

// isEnd: the value is the error of a connection that has ended.
func isEnd(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	switch g.Name() {
	case "EOF", "ErrUnexpectedEOF", "ErrClosed", "ErrClosedPipe":
		return true
	}
	return false
}

func isNilK(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// stepOf: v is ph advanced by d; d nil: by something else.
func stepOf(env map[*ssa.Phi]ssa.Value, v ssa.Value, ph *ssa.Phi) (ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if env2(env, x.X) == ssa.Value(ph) {
				return x.Y, true
			}
			if env2(env, x.Y) == ssa.Value(ph) {
				return x.X, true
			}
		}
		if x.Op == token.SUB && env2(env, x.X) == ssa.Value(ph) {
			return x.Y, true
		}
	case *ssa.Slice:
		if env2(env, x.X) == ssa.Value(ph) && x.Low != nil && x.High == nil {
			return x.Low, true
		}
	}
	return nil, false
}

// fromData: the number is taken from bytes or found in a text.
func fromData(env map[*ssa.Phi]ssa.Value, v ssa.Value, depth int) string {
	v = env2(env, v)
	if depth > 8 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return fromData(env, x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.IndexAddr); ok {
				if b, ok := deref(a.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					return "a byte of the data"
				}
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.SHL, token.SHR, token.AND:
			return fromData(env, x.X, depth+1)
		case token.OR, token.ADD:
			a, b := fromData(env, x.X, depth+1), fromData(env, x.Y, depth+1)
			if a != "" && b != "" {
				return a
			}
		}
	case *ssa.Call:
		n := extName(x)
		switch {
		case strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, ").Uint"):
			return "a number of the data"
		case strings.HasPrefix(n, "strings.Index"), strings.HasPrefix(n, "bytes.Index"):
			return "the position of something in the data"
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && strings.HasPrefix(extName(c), "strconv.") {
			return "a number in the data"
		}
	}
	return ""
}

// zeroTested: some test tells zero from one.
func (w *r14Loop) zeroTested(d ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rel func(v ssa.Value)
	rel = func(v ssa.Value) {
		if v == nil || seen[v] || len(seen) > 60 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			rel(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rel(e)
			}
		}
		if rs := v.Referrers(); rs != nil {
			for _, i := range *rs {
				if c, ok := i.(*ssa.Convert); ok {
					rel(c)
				}
			}
		}
	}
	rel(d)
	for v := range seen {
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, i := range *rs {
			b, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch b.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				continue
			}
			o, left := b.Y, true
			if b.Y == v {
				o, left = b.X, false
			}
			k, ok := o.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				if _, isLen := o.(*ssa.Const); !isLen {
					continue
				}
			}
			ev := func(n int64) bool {
				a, c := constant.MakeInt64(n), k.Value
				if left {
					return constant.Compare(a, b.Op, c)
				}
				return constant.Compare(c, b.Op, a)
			}
			if ev(0) != ev(1) {
				return true
			}
		}
	}
	return false
}

func checkR14(p *Prog, r *Result) {
	r.explanation = "Every loop of the client and of the transport is followed over every path of one pass: a pass that changes nothing, an exit that compares numbers no pass changes, an error of the connection after which reading goes on, and an advance by a length taken from the data that may be zero are reported; so is a function that calls itself with its own arguments. The interpretation of every kind of packet must find no unbounded recursion."
	r.assume = []string{"functions of the standard library and of the websocket library end, or wait for the network", "a loop of another form than these is not judged", "scanning and decoding of descriptions is S11"}
	c := p.conc()
	loops, paths, fns := 0, 0, 0
	for _, f := range c.fns {
		if k := pkgOf(f); k != modPath && k != tcpPath || f.Blocks == nil {
			continue
		}
		fns++
		r.obligations++
		seen := map[string]bool{}
		for _, l := range newFnInfo(f).loops {
			loops++
			r.obligations++
			w := &r14Loop{p: p, r: r, c: c, f: f, l: l, seen: seen}
			w.check()
			paths += w.paths
			r.sample("%s: loop at %s, %d passes", fname(f), p.pos(w.pos()), w.paths)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(*ssa.Call)
				if !ok || ci.Call.StaticCallee() != f {
					continue
				}
				r.obligations++
				own := true
				for k, a := range ci.Call.Args {
					if k >= len(f.Params) || a != ssa.Value(f.Params[k]) {
						own = false
					}
				}
				if own && !p.changesBefore(f, ci) {
					r.report("unbounded-recursion", fname(f), p.pos(ci.Pos()), "%s calls itself with its own arguments", fname(f))
				}
			}
		}
	}
	md := mediaOf(p)
	r.obligations += md.runs
	for _, f := range md.found["R14"] {
		r.report(f.rule, f.where, p.pos(f.pos), "%s", f.msg)
	}
	r.coverage["functions"] = fns
	r.coverage["loops"] = loops
	r.coverage["passes"] = paths
	r.coverage["packet_runs"] = md.runs
	r.require("functions", fns, 20)
	r.require("loops", loops, 1)
}

// changesBefore: something is stored or called before the instruction.
func (p *Prog) changesBefore(f *ssa.Function, at ssa.Instruction) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if i != at && storing(p, i) && canFollow(i, at) {
				return true
			}
		}
	}
	return false
}

func init() { checks["R14"] = checkR14 }
