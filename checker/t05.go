package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T05: errors of network operations are looked at, and end what they belong to.

type errFlow struct {
	c    *conc
	net  map[*ssa.Function]bool // module functions that return errors of the network
	memo map[*ssa.Function]int
}

func isError(T types.Type) bool { return T.String() == "error" }

func errResult(s *types.Signature) int {
	n := s.Results().Len()
	if n > 0 && isError(s.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

var dials = map[string]bool{
	"net.Dial": true, "net.DialTimeout": true, "(*net.Dialer).Dial": true, "(*net.Dialer).DialContext": true, "net.DialTCP": true,
	"crypto/tls.Dial": true, "crypto/tls.DialWithDialer": true, "(*github.com/gorilla/websocket.Dialer).Dial": true, "(*github.com/gorilla/websocket.Dialer).DialContext": true,
}

// netOp: the call reads, writes, flushes or connects.
func (e *errFlow) netOp(i ssa.Instruction) (what string, ok bool) {
	ci, is := i.(ssa.CallInstruction)
	if !is {
		return
	}
	cc := ci.Common()
	n := ioName(ci)
	if dials[n] {
		return n, true
	}
	if connIO[n] {
		r := cc.Value
		if !cc.IsInvoke() {
			if len(cc.Args) == 0 {
				return
			}
			r = cc.Args[0]
			if n == "io.Copy" && len(cc.Args) > 1 && e.c.netValue(cc.Args[1]) {
				r = cc.Args[1]
			}
		}
		return n, e.c.netValue(r)
	}
	if g := cc.StaticCallee(); g != nil && e.returnsNet(g) {
		return fname(g), true
	}
	return
}

// returnsNet: the function of the module does network operations and returns
// an error.
func (e *errFlow) returnsNet(g *ssa.Function) bool {
	return g.Blocks != nil && e.c.p.inModule(g) && errResult(g.Signature) >= 0 && e.doesNet(g)
}

func (e *errFlow) doesNet(g *ssa.Function) bool {
	switch e.memo[g] {
	case 1:
		return false
	case 2:
		return false
	case 3:
		return true
	}
	if g.Blocks == nil || !e.c.p.inModule(g) || g.Name() == "Close" && errResult(g.Signature) >= 0 {
		return false
	}
	e.memo[g] = 1
	r := false
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Go, *ssa.Defer:
				continue
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := ioName(ci)
			cc := ci.Common()
			switch {
			case dials[n]:
				r = true
			case connIO[n]:
				v := cc.Value
				if !cc.IsInvoke() && len(cc.Args) > 0 {
					v = cc.Args[0]
				}
				r = r || e.c.netValue(v)
			default:
				if h := cc.StaticCallee(); h != nil && e.doesNet(h) {
					r = true
				}
			}
		}
	}
	if r {
		e.memo[g] = 3
	} else {
		e.memo[g] = 2
	}
	return r
}

// alias are the values that may be v: through phis, conversions and local
// variables.
func alias(v ssa.Value) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || m[v] || v.Referrers() == nil {
			return
		}
		m[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeInterface:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, s := range *al.Referrers() {
						if u, ok := s.(*ssa.UnOp); ok && u.Op == token.MUL {
							walk(u)
						}
					}
				}
			}
		}
	}
	walk(v)
	return m
}

// nilTest: the branch compares one of the values with nil; the successor
// taken when it is not nil.
func nilTest(iff *ssa.If, vals map[ssa.Value]bool) (notNil int, ok bool) {
	cond, flip := iff.Cond, false
	for {
		u, is := cond.(*ssa.UnOp)
		if !is || u.Op != token.NOT {
			break
		}
		cond, flip = u.X, !flip
	}
	b, is := cond.(*ssa.BinOp)
	if !is || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	isNil := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value == nil
	}
	if !(vals[b.X] && isNil(b.Y) || vals[b.Y] && isNil(b.X)) {
		return
	}
	n := 0
	if b.Op == token.EQL {
		n = 1
	}
	if flip {
		n = 1 - n
	}
	return n, true
}

func stored(vals map[ssa.Value]bool) bool {
	for v := range vals {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				switch x.Addr.(type) {
				case *ssa.FieldAddr, *ssa.Global, *ssa.FreeVar:
					if x.Val == v {
						return true
					}
				}
			case *ssa.Send, *ssa.MapUpdate, *ssa.MakeClosure:
				return true
			}
		}
	}
	return false
}

// delivers: the call gives bytes to the application or to another goroutine.
func (e *errFlow) delivers(i ssa.Instruction) bool {
	ci, ok := i.(*ssa.Call)
	if !ok {
		if s, ok := i.(*ssa.Send); ok {
			k, isConst := s.X.(*ssa.Const)
			return !(isConst && k.Value == nil)
		}
		return false
	}
	reaches := e.c.user[ci]
	for _, g := range e.c.targets[ci] {
		if g.Blocks != nil && e.c.p.inModule(g) && e.reachesUser(g) {
			reaches = true
		}
	}
	if !reaches {
		return false
	}
	for _, a := range ci.Call.Args {
		if s, ok := a.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			if k, ok := a.(*ssa.Const); !ok || k.Value != nil {
				return true
			}
		}
	}
	return false
}

func (e *errFlow) reachesUser(g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(g *ssa.Function) bool
	w = func(g *ssa.Function) bool {
		if seen[g] || g.Blocks == nil || !e.c.p.inModule(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(*ssa.Call); ok {
					if e.c.user[ci] {
						return true
					}
					for _, h := range e.c.targets[ci] {
						if w(h) {
							return true
						}
					}
				}
				if _, ok := i.(*ssa.Send); ok {
					return true
				}
			}
		}
		return false
	}
	return w(g)
}

func checkT05(p *Prog, r *Result) {
	r.explanation = "Every call that reads, writes, flushes or connects, and every call of a function of the module that returns such an error, must have its error compared with nil before anything else is read, written, delivered or returned; on the path of the error the function must return, with an error if it returns one, without another network operation, a delivery of data or use of the failed call's connection or bytes."
	r.assume = append(r.assume, "errors of closing a socket, of setting deadlines and of the closing message of a WebSocket do not matter")
	c := p.conc()
	e := &errFlow{c: c, net: map[*ssa.Function]bool{}, memo: map[*ssa.Function]int{}}
	ops := 0
	for _, f := range c.fns {
		if f.Synthetic != "" {
			continue
		}
		if f.Name() == "Close" && errResult(f.Signature) >= 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				what, ok := e.netOp(i)
				if !ok {
					continue
				}
				ops++
				r.obligations++
				r.sample("%s in %s", what, fname(f))
				call, plain := i.(*ssa.Call)
				if !plain {
					if _, isGo := i.(*ssa.Go); isGo {
						if g := i.(ssa.CallInstruction).Common().StaticCallee(); g != nil && c.p.inModule(g) {
							continue // the goroutine ends with the error
						}
					}
					r.report("error-discarded", fname(f), p.pos(i.Pos()), "%s discards the error of %s", fname(f), what)
					continue
				}
				e.judge(p, r, f, call, what)
			}
		}
	}
	r.coverage["network operations"] = ops
	r.coverage["functions"] = len(c.fns)
	r.require("network operations", ops, 8)
}

// judge follows the error of one call.
func (e *errFlow) judge(p *Prog, r *Result, f *ssa.Function, call *ssa.Call, what string) {
	var err ssa.Value
	var results []ssa.Value
	if isError(call.Type()) {
		err = call
	} else if t, ok := call.Type().(*types.Tuple); ok {
		for _, ref := range *call.Referrers() {
			x, ok := ref.(*ssa.Extract)
			if !ok {
				if _, ok := ref.(*ssa.Return); ok {
					return
				}
				continue
			}
			if isError(t.At(x.Index).Type()) {
				err = x
			} else if _, isSlice := x.Type().Underlying().(*types.Slice); isSlice || types.NewMethodSet(x.Type()).Lookup(nil, "SetReadDeadline") != nil {
				results = append(results, x)
			}
		}
	}
	var vals map[ssa.Value]bool
	used := false
	if err != nil {
		vals = alias(err)
		if stored(vals) {
			return // kept for somebody else
		}
		for v := range vals {
			if len(*v.Referrers()) > 0 {
				used = true
			}
		}
	}
	res := map[ssa.Value]bool{}
	for _, x := range results {
		for v := range alias(x) {
			res[v] = true
		}
	}
	fails := errResult(f.Signature) >= 0
	type pt struct {
		b      *ssa.BasicBlock
		k      int
		failed bool
		pred   *ssa.BasicBlock
	}
	type key struct {
		b      *ssa.BasicBlock
		failed bool
	}
	seen := map[key]bool{}
	q := []pt{{call.Block(), indexOf(call) + 1, false, nil}}
	bad := func(at ssa.Instruction, rule, format string, args ...interface{}) {
		pos := at.Pos()
		if !pos.IsValid() {
			pos = call.Pos()
		}
		args = append([]interface{}{fname(f)}, args...)
		r.report(rule, fname(f)+" "+what, p.pos(call.Pos()), "%s "+format+" (%s)", append(args, p.pos(pos))...)
	}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		stop := false
		for _, i := range x.b.Instrs[x.k:] {
			if i == ssa.Instruction(call) {
				if used {
					bad(i, "goes-on-after-error", "goes on with %s after it may have failed", what)
				} else {
					bad(i, "error-discarded", "discards the error of %s and goes on", what)
				}
				stop = true
				break
			}
			if rt, ok := i.(*ssa.Return); ok {
				stop = true
				if !fails {
					break
				}
				v := rt.Results[len(rt.Results)-1]
				if vals[v] {
					break
				}
				k, isConst := v.(*ssa.Const)
				if isConst && k.Value == nil {
					if x.failed {
						bad(i, "error-hidden", "returns no error although %s failed", what)
					} else {
						bad(i, "error-discarded", "returns no error without having looked at the error of %s", what)
					}
				} else if !x.failed && !used {
					bad(i, "error-discarded", "returns without having looked at the error of %s", what)
				}
				break
			}
			if other, ok := e.netOp(i); ok {
				if _, isDefer := i.(*ssa.Defer); !isDefer {
					if x.failed {
						bad(i, "goes-on-after-error", "goes on with %s after %s failed", other, what)
					} else {
						bad(i, "error-discarded", "goes on with %s without having looked at the error of %s", other, what)
					}
					stop = true
					break
				}
			}
			if e.delivers(i) {
				if x.failed {
					bad(i, "goes-on-after-error", "delivers data after %s failed", what)
				} else {
					bad(i, "error-discarded", "delivers data without having looked at the error of %s", what)
				}
				stop = true
				break
			}
			if x.failed && len(res) > 0 {
				for _, o := range i.Operands(nil) {
					if o == nil || !res[*o] {
						continue
					}
					if _, isPhi := i.(*ssa.Phi); isPhi {
						continue
					}
					if rt, isRet := i.(*ssa.Return); isRet {
						_ = rt
						continue
					}
					if b, isBin := i.(*ssa.BinOp); isBin && (b.Op == token.EQL || b.Op == token.NEQ) {
						continue
					}
					if e.closes(i) {
						continue
					}
					bad(i, "goes-on-after-error", "uses the result of %s although it failed", what)
					stop = true
				}
			}
		}
		if stop {
			continue
		}
		var succs []*ssa.BasicBlock
		failed := x.failed
		if iff, ok := x.b.Instrs[len(x.b.Instrs)-1].(*ssa.If); ok && err != nil {
			if n, is := nilTest(iff, vals); is {
				succs = []*ssa.BasicBlock{x.b.Succs[n]}
				failed = true
			}
		}
		if succs == nil {
			succs = x.b.Succs
		}
		for _, s := range succs {
			k := key{s, failed}
			if !seen[k] {
				seen[k] = true
				q = append(q, pt{s, 0, failed, x.b})
			}
		}
	}
}

// closes: the instruction only closes the connection.
func (e *errFlow) closes(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	return ok && strings.HasSuffix(extName(ci), ").Close")
}

func init() { checks["T05"] = checkT05 }
