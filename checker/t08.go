package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T08: waits of API calls are bounded. R11: the goroutine that handles
// received data does not wait.

// waitOp is an operation that may take time that depends on somebody else.
type waitOp struct {
	t    *thread
	fn   *ssa.Function
	at   ssa.Instruction
	rule string // why it may last forever, empty when it is bounded
	what string
	kind string // wait, lock, io, user
	key  string // of a lock
	held lockset
	ch   []ssa.Value // channels
}

// timerChan: the channel becomes ready on its own: "" or why not.
func (c *conc) timerChan(v ssa.Value) (timer bool, why string) {
	for _, o := range c.origins(v) {
		switch o.kind {
		case 'f':
			if o.key == "time.Timer.C" || o.key == "time.Ticker.C" {
				timer = true
				if fa, ok := o.v.(*ssa.FieldAddr); ok {
					for _, p := range c.origins(fa.X) {
						if call, ok := p.v.(*ssa.Call); ok && len(call.Call.Args) == 1 {
							why = c.tooLong(call.Call.Args[0])
						}
					}
				}
			}
		case 'x':
			switch {
			case o.key == "time.After" || o.key == "time.Tick":
				timer = true
				if call, ok := o.v.(*ssa.Call); ok {
					why = c.tooLong(call.Call.Args[0])
				}
			case strings.HasSuffix(o.key, "context.Context).Done"):
				timer = true
				call := o.v.(*ssa.Call)
				for _, p := range c.origins(call.Call.Value) {
					if p.kind == 'x' && (p.key == "context.Background" || p.key == "context.TODO" || p.key == "context.WithCancel") {
						timer = false
					}
				}
			}
		}
	}
	return
}

// tooLong: the duration is a constant nobody waits for.
func (c *conc) tooLong(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok && n > int64(24*3600e9) {
			return fmt.Sprintf("only after %d hours", n/int64(3600e9))
		}
	}
	return ""
}

// unlimited: the duration means that there is no limit.
func (c *conc) unlimited(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := constNum(x)
		return ok && n <= 0
	case *ssa.Convert:
		return c.unlimited(x.X)
	case *ssa.ChangeType:
		return c.unlimited(x.X)
	case *ssa.BinOp:
		if x.Op == token.MUL {
			return c.unlimited(x.X) || c.unlimited(x.Y)
		}
	case *ssa.UnOp:
		key := placeKey(x.X)
		if x.Op != token.MUL || key == "" || !strings.Contains(key, ".") {
			return false
		}
		vals := c.stores[key]
		if g, ok := x.X.(*ssa.Global); ok {
			vals = c.gstores[g]
			for _, b := range g.Pkg.Func("init").Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok && st.Addr == g {
						vals = append(vals, st.Val)
					}
				}
			}
		}
		for _, w := range vals {
			if !c.unlimited(w) {
				return false
			}
		}
		return true
	}
	return false
}

// dialing and other calls outside the module that wait for somebody.
var endless = map[string]string{
	"net.Dial": "has no timeout", "net.DialTCP": "has no timeout", "net.DialIP": "has no timeout", "net.DialUnix": "has no timeout", "crypto/tls.Dial": "has no timeout",
	"net/http.Get": "has no timeout", "net/http.Post": "has no timeout", "net/http.PostForm": "has no timeout", "net/http.Head": "has no timeout",
	"(net.Listener).Accept": "waits for a client", "(*sync.WaitGroup).Wait": "waits for other goroutines", "(*sync.Cond).Wait": "waits for another goroutine",
	"net.LookupHost": "has no timeout", "net.LookupIP": "has no timeout", "net.LookupAddr": "has no timeout",
}

var connIO = map[string]bool{
	"(net.Conn).Read": true, "(net.Conn).Write": true, "(*net.TCPConn).Read": true, "(*net.TCPConn).Write": true, "(io.Reader).Read": true, "(io.Writer).Write": true,
	"(*bufio.Writer).Flush": true, "(*bufio.Writer).Write": true, "(*bufio.Writer).WriteString": true, "(*bufio.Reader).Read": true, "(*bufio.Reader).ReadByte": true,
	"(*bufio.Reader).Peek": true, "(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true, "(*bufio.Reader).ReadLine": true,
	"(*github.com/gorilla/websocket.Conn).ReadMessage": true, "(*github.com/gorilla/websocket.Conn).WriteMessage": true, "(*github.com/gorilla/websocket.Conn).NextReader": true, "(*github.com/gorilla/websocket.Conn).NextWriter": true,
	"(*github.com/gorilla/websocket.Conn).ReadJSON": true, "(*github.com/gorilla/websocket.Conn).WriteJSON": true,
	"io.ReadFull": true, "io.ReadAll": true, "io.Copy": true, "io/ioutil.ReadAll": true, "io.ReadAtLeast": true, "io.WriteString": true,
}

// promoted names of embedded buffers, such as bufio.ReadWriter's.
func ioName(ci ssa.CallInstruction) string {
	n := extName(ci)
	return strings.Replace(n, "(*bufio.ReadWriter)", "(*bufio.Writer)", 1)
}

// netValue: the reader or writer is a connection or wraps one.
func (c *conc) netValue(v ssa.Value) bool {
	T := v.Type()
	has := func(T types.Type) bool {
		return types.NewMethodSet(T).Lookup(nil, "SetReadDeadline") != nil
	}
	if has(T) || has(types.NewPointer(T)) {
		return true
	}
	buffered := strings.HasPrefix(deref(T).String(), "bufio.")
	for _, o := range c.origins(v) {
		if call, ok := o.v.(*ssa.Call); ok && o.kind == 'x' && strings.HasPrefix(o.key, "bufio.New") {
			if c.netValue(call.Call.Args[0]) {
				return true
			}
			buffered = false
			continue
		}
		if o.v != nil && o.v != v && has(o.v.Type()) {
			return true
		}
	}
	return buffered
}

// deadlineBefore: a deadline is set before the instruction.
func (c *conc) deadlineBefore(at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok || !dominates(i, at) {
				continue
			}
			n := extName(ci)
			if strings.HasSuffix(n, "Deadline") && strings.Contains(n, ").Set") {
				return true
			}
		}
	}
	return false
}

// waitOps lists what a goroutine may wait for.
func (c *conc) waitOps(t *thread, li *lockInfo) (out []waitOp) {
	ent := li.entries(t)
	for _, f := range t.order {
		in := li.flow(f, ent[f])
		for _, b := range f.Blocks {
			l, ok := in[b]
			if !ok {
				continue
			}
			l = l.clone()
			for _, i := range b.Instrs {
				op := waitOp{t: t, fn: f, at: i, held: l.clone(), kind: "wait"}
				switch x := i.(type) {
				case *ssa.Send:
					op.what, op.rule = "a send on "+strings.Join(c.chanClasses(x.Chan), ", "), "nothing ends the wait for room"
					op.ch = []ssa.Value{x.Chan}
					if c.roomFor(x) {
						op.what = ""
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						op.what = "a receive from " + strings.Join(c.chanClasses(x.X), ", ")
						op.ch = []ssa.Value{x.X}
						if ok, why := c.timerChan(x.X); !ok {
							op.rule = "nothing ends the wait"
						} else {
							op.rule = why
						}
					}
				case *ssa.Select:
					if x.Blocking {
						op.what, op.rule = "a select", "no case is a timer"
						for _, s := range x.States {
							op.ch = append(op.ch, s.Chan)
							if s.Dir == types.RecvOnly {
								if ok, why := c.timerChan(s.Chan); ok {
									op.rule = why
								}
							}
						}
					}
				case ssa.CallInstruction:
					switch i.(type) {
					case *ssa.Go, *ssa.Defer:
					}
					if _, isGo := i.(*ssa.Go); isGo {
						break
					}
					n := ioName(x)
					cc := x.Common()
					if k, lop := c.lockOp(x); lop == "lock" || lop == "rlock" {
						op.kind, op.key, op.what = "lock", k, "locking "+k
						break
					}
					if why := endless[n]; why != "" {
						op.what, op.rule = n, why
						break
					}
					switch {
					case connIO[n]:
						r := cc.Value
						if !cc.IsInvoke() {
							r = cc.Args[0]
						}
						if c.netValue(r) {
							op.kind, op.what = "io", n
							if !c.deadlineBefore(i) {
								op.rule = "no deadline is set before it"
							}
						}
					case n == "net.DialTimeout" || n == "crypto/tls.DialWithDialer":
						op.what = n
						if n == "net.DialTimeout" && c.unlimited(cc.Args[2]) {
							op.rule = "its timeout is never positive, which means none"
						}
					case n == "(*net.Dialer).Dial" || n == "(*github.com/gorilla/websocket.Dialer).Dial":
						op.what = n
						op.rule = c.dialerLimit(cc.Args[0], i)
					case n == "time.Sleep":
						op.what, op.rule = n, c.tooLong(cc.Args[0])
					case c.user[x]:
						op.kind, op.what = "user", "a call of the application"
					}
				}
				if op.what != "" {
					out = append(out, op)
				}
				li.step(l, i)
			}
		}
	}
	return
}

// roomFor: a send that always finds room: the only one to a new buffered
// channel.
func (c *conc) roomFor(s *ssa.Send) bool {
	os := c.origins(s.Chan)
	if len(os) != 1 || os[0].kind != 'a' {
		return false
	}
	m, ok := os[0].v.(*ssa.MakeChan)
	if !ok {
		return false
	}
	n, ok := constInt(m.Size)
	if !ok || n < 1 || m.Referrers() == nil {
		return false
	}
	_, sends, _ := c.chanOps()
	k := 0
	for _, o := range sends {
		for _, p := range c.origins(o.ch) {
			if p.v == os[0].v {
				k++
			}
		}
	}
	return int64(k) <= n && !inCycle(s.Block())
}

// dialerLimit: why dialing may last forever.
func (c *conc) dialerLimit(d ssa.Value, at ssa.Instruction) string {
	for _, o := range c.origins(d) {
		if o.kind != 'a' {
			continue
		}
		limited := false
		for _, f := range c.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					k := fieldKeyOf(fa.X.Type(), fa.Field)
					if strings.HasSuffix(k, "Dialer.Timeout") || strings.HasSuffix(k, "Dialer.HandshakeTimeout") || strings.HasSuffix(k, "Dialer.Deadline") {
						if !c.unlimited(st.Val) {
							limited = true
						}
					}
				}
			}
		}
		if !limited {
			return "the dialer has no timeout"
		}
	}
	return ""
}

// loopsAround are the natural loops an instruction is in.
type natLoop struct {
	head  *ssa.BasicBlock
	latch []*ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
}

func loopsAround(b *ssa.BasicBlock) (out []*natLoop) {
	f := b.Parent()
	byHead := map[*ssa.BasicBlock]*natLoop{}
	var heads []*ssa.BasicBlock
	for _, l := range f.Blocks {
		for _, h := range l.Succs {
			if h.Dominates(l) {
				n := byHead[h]
				if n == nil {
					n = &natLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
					byHead[h] = n
					heads = append(heads, h)
				}
				n.latch = append(n.latch, l)
				q := []*ssa.BasicBlock{l}
				for len(q) > 0 {
					x := q[0]
					q = q[1:]
					if n.body[x] {
						continue
					}
					n.body[x] = true
					q = append(q, x.Preds...)
				}
			}
		}
	}
	for _, h := range heads {
		if byHead[h].body[b] {
			out = append(out, byHead[h])
		}
	}
	return
}

// bounded: the loop ends on its own: it counts, goes over a collection, looks
// at the clock, or has a timer that was started before it.
func (c *conc) bounded(l *natLoop) bool {
	always := func(b *ssa.BasicBlock) bool {
		for _, x := range l.latch {
			if !b.Dominates(x) {
				return false
			}
		}
		return true
	}
	for _, b := range l.head.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if s := c.timerCase(iff, l); s != nil && l.body[s.Block()] && always(s.Block()) {
			return true
		}
		if !l.body[b] || l.body[b.Succs[0]] && l.body[b.Succs[1]] || !always(b) {
			continue
		}
		if c.endsLoop(iff.Cond, l) {
			return true
		}
	}
	return false
}

func (c *conc) endsLoop(v ssa.Value, l *natLoop) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return c.endsLoop(x.X, l)
		}
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		for _, y := range []ssa.Value{x.X, x.Y} {
			if induction(y, l) || clock(y, 4) {
				return true
			}
		}
	case *ssa.Call:
		return clock(x, 4)
	}
	return false
}

func induction(v ssa.Value, l *natLoop) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != l.head {
		return false
	}
	for k, e := range phi.Edges {
		if !l.body[phi.Block().Preds[k]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != phi || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		if _, ok := b.Y.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// clock: the value depends on the time that has passed.
func clock(v ssa.Value, depth int) bool {
	if depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		n := extName(x)
		if n == "time.Since" || n == "time.Until" || n == "(time.Time).Sub" || n == "(time.Time).Before" || n == "(time.Time).After" || n == "(context.Context).Err" {
			return true
		}
		for _, a := range x.Call.Args {
			if clock(a, depth-1) {
				return true
			}
		}
	case *ssa.BinOp:
		return clock(x.X, depth-1) || clock(x.Y, depth-1)
	case *ssa.Convert:
		return clock(x.X, depth-1)
	case *ssa.UnOp:
		return clock(x.X, depth-1)
	}
	return false
}

// timerCase: the branch is on a select with a timer made before the loop, and
// its case leaves the loop.
func (c *conc) timerCase(iff *ssa.If, l *natLoop) *ssa.Select {
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	e, ok := cmp.X.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return nil
	}
	s, ok := e.Tuple.(*ssa.Select)
	if !ok {
		return nil
	}
	n, _ := constInt(cmp.Y)
	k := int(n)
	if cmp.Op != token.EQL || k >= len(s.States) || s.States[k].Dir != types.RecvOnly {
		return nil
	}
	isTimer, _ := c.timerChan(s.States[k].Chan)
	if !isTimer {
		return nil
	}
	for _, o := range c.origins(s.States[k].Chan) {
		if i, ok := o.v.(ssa.Instruction); ok && i.Parent() == s.Parent() && l.body[i.Block()] {
			if fa, ok := o.v.(*ssa.FieldAddr); ok {
				// the timer's channel: where the timer is made
				inLoop := false
				for _, p := range c.origins(fa.X) {
					if j, ok := p.v.(ssa.Instruction); ok && j.Parent() == s.Parent() && l.body[j.Block()] {
						inLoop = true
					}
				}
				if !inLoop {
					continue
				}
			}
			return nil
		}
	}
	if cfgReach(iff.Block().Succs[0], func(b *ssa.BasicBlock) bool { return !l.body[b] })[l.head] {
		return nil
	}
	return s
}

// mayWait: the functions that wait.
func (c *conc) mayWait(ops []waitOp) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, o := range ops {
		if o.kind == "wait" || o.kind == "io" {
			m[o.fn] = true
		}
	}
	return m
}

func checkT08(p *Prog, r *Result) {
	r.explanation = "Every operation of the functions an API call can run that may wait - channel operations, dialing, network input and output, locks, waits of package sync - must have a limit: a timer case, a timeout, a deadline. Loops and call cycles around such waits must be bounded. A lock the API takes must not be held by any goroutine while it waits for something else, calls the application, or returns."
	r.assume = append(r.assume, "HandleConn is the loop that handles events and runs until the connection ends", "callbacks of the application return", "closing a socket and setting deadlines do not wait")
	c := p.conc()
	li := newLockInfo(c)
	api := c.thread("API")
	ops := c.waitOps(api, li)
	ent := li.entries(api)
	for _, o := range ops {
		r.obligations++
		if o.rule != "" {
			r.report("may-block-forever", fname(o.fn), p.pos(o.at.Pos()), "%s in %s may block forever: %s (%s)", o.what, fname(o.fn), o.rule, api.path(p, o.fn))
		}
		r.sample("%s in %s", o.what, fname(o.fn))
	}
	wait := c.mayWait(ops)
	reach := map[*ssa.Function]bool{}
	for _, f := range api.order {
		for g := range wait {
			if c.runs(f, g) {
				reach[f] = true
			}
		}
	}
	loops := 0
	for _, f := range api.order {
		if !reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				waits := ""
				for _, o := range ops {
					if o.at == i && (o.kind == "wait" || o.kind == "io") {
						waits = o.what
					}
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					if _, isGo := i.(*ssa.Go); isGo {
						continue
					}
					for _, g := range c.targets[ci] {
						if _, in := api.fns[g]; in && reach[g] {
							r.obligations++
							waits = "a call of " + fname(g)
							if c.runs(g, f) {
								r.report("unbounded-recursion", fname(f), p.pos(i.Pos()), "%s waits and calls %s, which calls it again and waits again", fname(f), fname(g))
							}
						}
					}
				}
				if waits == "" {
					continue
				}
				for _, l := range loopsAround(b) {
					loops++
					r.obligations++
					if !c.bounded(l) {
						r.report("unbounded-wait-loop", fname(f), p.pos(i.Pos()), "%s waits in a loop that nothing bounds: %s", fname(f), waits)
					}
				}
			}
		}
	}
	// locks
	apiLocks := map[string]bool{}
	for _, o := range ops {
		if o.kind == "lock" {
			apiLocks[o.key] = true
			if o.held[o.key] {
				r.report("deadlock", fname(o.fn), p.pos(o.at.Pos()), "%s locks %s, which it holds already (%s)", fname(o.fn), o.key, api.path(p, o.fn))
			}
		}
	}
	for _, t := range c.threads {
		tops := ops
		if t != api {
			tops = c.waitOps(t, li)
			ent = li.entries(t)
		} else {
			ent = li.entries(api)
		}
		for _, o := range tops {
			for k := range o.held {
				if !apiLocks[k] {
					continue
				}
				r.obligations++
				switch {
				case o.kind == "user":
					r.report("deadlock", fname(o.fn), p.pos(o.at.Pos()), "%s calls the application while it holds %s, which API calls lock (goroutine %s)", fname(o.fn), k, t.name)
				case o.kind == "lock" && o.key == k && t != api:
					r.report("deadlock", fname(o.fn), p.pos(o.at.Pos()), "%s locks %s, which it holds already (goroutine %s)", fname(o.fn), k, t.name)
				case t != api && (o.kind == "io" || o.kind == "wait" && o.rule != ""):
					r.report("wait-under-lock", fname(o.fn), p.pos(o.at.Pos()), "%s in %s happens under %s, which API calls lock (goroutine %s)", o.what, fname(o.fn), k, t.name)
				}
			}
		}
		for _, f := range t.order {
			c.lockLeaks(p, r, li, t, f, ent[f], apiLocks)
		}
	}
	r.coverage["operations that may wait"] = len(ops)
	r.coverage["loops around waits"] = loops
	r.coverage["functions"] = len(api.order)
	r.require("functions of the API", len(api.order), 15)
	r.require("operations that may wait", len(ops), 4)
}

func newLockInfo(c *conc) *lockInfo {
	return &lockInfo{c: c, eff: map[*ssa.Function]*lockEffect{}, busy: map[*ssa.Function]bool{}}
}

// lockLeaks: a lock is held on one return and not on another, or when a
// goroutine or API call ends.
func (c *conc) lockLeaks(p *Prog, r *Result, li *lockInfo, t *thread, f *ssa.Function, entry lockset, of map[string]bool) {
	root := false
	for _, g := range t.roots {
		root = root || f == g
	}
	in := li.flow(f, entry)
	var at []ssa.Instruction
	var held []lockset
	for _, b := range f.Blocks {
		l, ok := in[b]
		if !ok || b == f.Recover {
			continue
		}
		l = l.clone()
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Return); ok {
				for k := range c.deferredBefore(li, i) {
					delete(l, k)
				}
				at = append(at, i)
				held = append(held, l.clone())
			}
			li.step(l, i)
		}
	}
	for k := range of {
		for n, l := range held {
			if !l[k] || entry[k] {
				continue
			}
			r.obligations++
			leak := root
			for _, m := range held {
				if !m[k] {
					leak = true
				}
			}
			if leak {
				r.report("lock-not-released", fname(f), p.pos(at[n].Pos()), "%s returns while it holds %s, the next one who locks it waits forever (%s)", fname(f), k, t.path(p, f))
			}
		}
	}
}

// deferredBefore: the locks released by what may have been deferred before a
// return.
func (c *conc) deferredBefore(li *lockInfo, ret ssa.Instruction) lockset {
	m := lockset{}
	for _, b := range ret.Parent().Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok || !canFollow(i, ret) {
				continue
			}
			if k, op := c.lockOp(d); op == "unlock" || op == "runlock" {
				m[k], m[k+" r"] = true, true
			}
			for _, g := range c.targets[d] {
				if g.Blocks != nil && c.p.inModule(g) {
					for k := range li.effect(g).lose {
						m[k] = true
					}
				}
			}
		}
	}
	return m
}

func init() { checks["T08"] = checkT08; checks["R11"] = checkR11 }
