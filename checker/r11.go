package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dispatchers are the goroutines that hand media to the application.
func (c *conc) dispatchers() (out []*thread) {
	for _, t := range c.threads {
		if t.name == "API" {
			continue
		}
		found := false
		for _, f := range t.order {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok || !c.user[ci] {
						continue
					}
					for _, a := range ci.Common().Args {
						if tname(deref(a.Type())) == "rtspclient.RtspData" {
							found = true
						}
					}
				}
			}
		}
		if found {
			out = append(out, t)
		}
	}
	return
}

func chanOf(v ssa.Value, elem string) bool {
	ch, ok := v.Type().Underlying().(*types.Chan)
	return ok && tname(deref(ch.Elem())) == elem
}

const responseElem = "rtspclient.RtspResponseContext"

func checkR11(p *Prog, r *Result) {
	r.explanation = "No function the dispatching goroutine runs may wait for anything but the connection's events: every other channel operation must be a select with a default case, no lock it takes may be held during a wait elsewhere, and the loop goes on after data has been handled. The channel responses are handed over with has room for one, and what waits in it is thrown away only before a request is sent."
	r.assume = append(r.assume, "callbacks of the application return")
	c := p.conc()
	li := newLockInfo(c)
	ds := c.dispatchers()
	n := 0
	var parser *ssa.Function
	for _, f := range c.fns {
		if f.Name() == "ParserRtspResponse" {
			parser = f
		}
	}
	for _, d := range ds {
		ops := c.waitOps(d, li)
		for _, o := range ops {
			r.obligations++
			n++
			if o.kind == "user" {
				continue
			}
			if o.kind == "lock" {
				for _, t := range c.threads {
					if t == d {
						continue
					}
					for _, x := range c.waitOps(t, li) {
						if x.held[o.key] && x.kind != "lock" {
							r.report("may-stall", fname(o.fn), p.pos(o.at.Pos()), "%s locks %s, which %s holds at %s during %s", fname(o.fn), o.key, fname(x.fn), p.pos(x.at.Pos()), x.what)
						}
					}
					ent := li.entries(t)
					for _, f := range t.order {
						c.lockLeaks(p, r, li, t, f, ent[f], map[string]bool{o.key: true})
					}
				}
				if o.held[o.key] {
					r.report("may-stall", fname(o.fn), p.pos(o.at.Pos()), "%s locks %s, which it holds already", fname(o.fn), o.key)
				}
				continue
			}
			events := len(o.ch) > 0
			for _, ch := range o.ch {
				if !chanOf(ch, "tcpnetwork.ConnEvent") {
					if ct, ok := ch.Type().Underlying().(*types.Chan); !ok || !types.Identical(ct.Elem().Underlying(), types.NewStruct(nil, nil)) {
						events = false
					}
				}
			}
			if _, isSend := o.at.(*ssa.Send); events && !isSend {
				some := false
				for _, ch := range o.ch {
					some = some || chanOf(ch, "tcpnetwork.ConnEvent")
				}
				if some {
					continue
				}
			}
			if o.kind == "io" && strings.HasPrefix(pkgOf(o.fn), modPath+"/tcpnetwork") && d.name != "" && !c.sends(o) {
				continue // the goroutine reads itself
			}
			r.report("may-stall", fname(o.fn), p.pos(o.at.Pos()), "%s in %s holds up the goroutine that handles received data (%s)", o.what, fname(o.fn), d.path(p, o.fn))
		}
		if parser != nil {
			c.goesOn(p, r, d, parser)
		}
		r.sample("%d functions of goroutine %s", len(d.order), d.name)
	}
	// the hand-over
	room := 0
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				m, ok := i.(*ssa.MakeChan)
				if !ok || !chanOf(m, responseElem) {
					continue
				}
				r.obligations++
				room++
				if k, ok := constInt(m.Size); ok && k < 1 {
					r.report("response-may-be-lost", fname(f), p.pos(m.Pos()), "the channel responses are handed over with has no room, a response that comes before somebody waits is dropped")
				}
			}
		}
	}
	c.drains(p, r)
	r.coverage["operations that may wait"] = n
	r.coverage["dispatching goroutines"] = len(ds)
	r.require("dispatching goroutines", len(ds), 1)
	r.require("channels of responses", room, 1)
}

func (c *conc) sends(o waitOp) bool {
	return strings.Contains(o.what, "Write") || strings.Contains(o.what, "Flush")
}

// goesOn: after a response has been handled the goroutine takes the next event.
func (c *conc) goesOn(p *Prog, r *Result, d *thread, parser *ssa.Function) {
	takes := map[ssa.Instruction]bool{}
	loop := map[*ssa.Function]bool{}
	for _, f := range d.order {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && chanOf(x.X, "tcpnetwork.ConnEvent") {
						takes[i], loop[f] = true, true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && chanOf(s.Chan, "tcpnetwork.ConnEvent") {
							takes[i], loop[f] = true, true
						}
					}
				}
			}
		}
	}
	handles := func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		switch i.(type) {
		case *ssa.Go, *ssa.Defer:
			return false
		}
		for _, g := range c.targets[ci] {
			if _, in := d.fns[g]; in && c.runs(g, parser) {
				return true
			}
		}
		return false
	}
	type point struct {
		b *ssa.BasicBlock
		k int
	}
	// follow from an instruction to the returns
	var follow func(f *ssa.Function, at ssa.Instruction, depth int)
	results := func(f *ssa.Function, at ssa.Instruction, call ssa.Value, val map[bool]bool) (rets []*ssa.Return) {
		seen := map[*ssa.BasicBlock]bool{}
		q := []point{{at.Block(), indexOf(at) + 1}}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			stop := false
			for _, i := range x.b.Instrs[x.k:] {
				if takes[i] {
					stop = true
					break
				}
				if rt, ok := i.(*ssa.Return); ok {
					rets = append(rets, rt)
				}
			}
			if stop {
				continue
			}
			for n, s := range x.b.Succs {
				if iff, ok := x.b.Instrs[len(x.b.Instrs)-1].(*ssa.If); ok && val != nil {
					cond, yes := iff.Cond, n == 0
					for {
						u, ok := cond.(*ssa.UnOp)
						if !ok || u.Op != token.NOT {
							break
						}
						cond, yes = u.X, !yes
					}
					if cond == call && !val[yes] {
						continue
					}
				}
				if !seen[s] {
					seen[s] = true
					q = append(q, point{s, 0})
				}
			}
		}
		return
	}
	val := map[ssa.Instruction]map[bool]bool{}
	follow = func(f *ssa.Function, at ssa.Instruction, depth int) {
		var call ssa.Value
		call, _ = at.(ssa.Value)
		rets := results(f, at, call, val[at])
		if len(rets) == 0 {
			return
		}
		r.obligations++
		if loop[f] {
			r.report("stops-receiving", fname(f), p.pos(rets[0].Pos()), "%s ends after %s has handled data, later media and events are not processed any more", fname(f), p.pos(at.Pos()))
			return
		}
		if depth == 0 {
			return
		}
		var out map[bool]bool
		if s := f.Signature.Results(); s.Len() == 1 && types.Identical(s.At(0).Type().Underlying(), types.Typ[types.Bool]) {
			out = map[bool]bool{}
			for _, rt := range rets {
				if k, ok := rt.Results[0].(*ssa.Const); ok && k.Value != nil {
					out[constant.BoolVal(k.Value)] = true
				} else {
					return // not a constant: cannot say
				}
			}
		} else if s.Len() > 0 {
			return
		}
		for _, s := range c.callers[f] {
			if _, in := d.fns[s.fn]; in {
				if _, plain := s.instr.(*ssa.Call); plain {
					val[s.instr] = out
					follow(s.fn, s.instr, depth-1)
				}
			}
		}
	}
	// the functions nearest to the loop that handle data and nothing else
	for _, f := range d.order {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || !handles(i) {
					continue
				}
				direct := false
				for _, g := range c.targets[ci] {
					direct = direct || g == parser
				}
				if direct {
					follow(f, i, 8)
				}
			}
		}
	}
}

// drains: what waits in the response queue is thrown away before the request
// is sent, not after it.
func (c *conc) drains(p *Prog, r *Result) {
	api := c.thread("API")
	drop := map[ssa.Instruction]bool{}
	wait := map[ssa.Instruction]bool{}
	for _, f := range api.order {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && chanOf(x.X, responseElem) {
						if len(*x.Referrers()) == 0 {
							drop[i] = true
						} else {
							wait[i] = true
						}
					}
				case *ssa.Select:
					for k, s := range x.States {
						if s.Dir != types.RecvOnly || !chanOf(s.Chan, responseElem) {
							continue
						}
						if x.Blocking {
							wait[i] = true
						} else if !c.usesReceived(x, k) {
							drop[i] = true
						} else {
							wait[i] = true
						}
					}
				}
			}
		}
	}
	isSend := func(g *ssa.Function) bool {
		return strings.HasSuffix(pkgOf(g), "/tcpnetwork") && g.Name() == "Send" && g.Signature.Recv() != nil
	}
	type fx struct{ dropsFirst, sendsLast, waits bool }
	memo := map[*ssa.Function]*fx{}
	var effect func(f *ssa.Function) *fx
	kind := func(i ssa.Instruction) (drops, sends, waits bool) {
		if drop[i] {
			drops = true
		}
		if wait[i] {
			waits = true
		}
		if ci, ok := i.(*ssa.Call); ok {
			for _, g := range c.targets[ci] {
				if isSend(g) {
					sends = true
					continue
				}
				if _, in := api.fns[g]; in {
					e := effect(g)
					drops = drops || e.dropsFirst
					sends = sends || e.sendsLast
					waits = waits || e.waits
				}
			}
		}
		return
	}
	// next: the instructions that matter, after one
	forward := func(b *ssa.BasicBlock, k int, visit func(i ssa.Instruction) bool) (end bool) {
		type pt struct {
			b *ssa.BasicBlock
			k int
		}
		seen := map[*ssa.BasicBlock]bool{}
		q := []pt{{b, k}}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			stop := false
			for _, i := range x.b.Instrs[x.k:] {
				if !visit(i) {
					stop = true
					break
				}
				if _, ok := i.(*ssa.Return); ok {
					end = true
				}
			}
			if stop {
				continue
			}
			for _, s := range x.b.Succs {
				if !seen[s] {
					seen[s] = true
					q = append(q, pt{s, 0})
				}
			}
		}
		return
	}
	effect = func(f *ssa.Function) *fx {
		if e := memo[f]; e != nil {
			return e
		}
		e := &fx{}
		memo[f] = e
		if len(f.Blocks) == 0 {
			return e
		}
		res := &fx{}
		forward(f.Blocks[0], 0, func(i ssa.Instruction) bool {
			d, s, w := kind(i)
			if d {
				res.dropsFirst = true
			}
			return !d && !s && !w
		})
		for _, b := range f.Blocks {
			for k, i := range b.Instrs {
				d, s, w := kind(i)
				_ = d
				if w {
					res.waits = true
				}
				if s {
					if forward(b, k+1, func(i ssa.Instruction) bool {
						d, _, w := kind(i)
						return !d && !w
					}) {
						res.sendsLast = true
					}
				}
			}
		}
		memo[f] = res
		return res
	}
	for _, f := range api.order {
		for _, b := range f.Blocks {
			for k, i := range b.Instrs {
				_, s, _ := kind(i)
				if !s {
					continue
				}
				r.obligations++
				forward(b, k+1, func(j ssa.Instruction) bool {
					d, _, w := kind(j)
					if d {
						r.report("response-may-be-lost", fname(f), p.pos(j.Pos()), "%s throws away what waits in the response queue after the request has been sent at %s, the answer may be there already", fname(f), p.pos(i.Pos()))
						return false
					}
					return !w
				})
			}
		}
	}
	r.coverage["places that drop responses"] = len(drop)
}

// usesReceived: the value a select case received is used.
func (c *conc) usesReceived(x *ssa.Select, state int) bool {
	k := 2
	for n, s := range x.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		if n == state {
			for _, ref := range *x.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == k && len(*e.Referrers()) > 0 {
					return true
				}
			}
			return false
		}
		k++
	}
	return false
}
