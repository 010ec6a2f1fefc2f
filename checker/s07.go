package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S07: encoding is deterministic.
//
// (a) The encoder is followed exactly on a message, then once more on the same
// message with the entries of its maps in another order: the lines must be the
// same. (b) No function of the encoding and formatting part asks for the time,
// randomness or the environment, or reads a package variable that is written
// after initialisation.

func orderCases() (cs []encCase) {
	pool := []string{"ab", "ac", "Ab", "cb", "abc", "a-b"}
	all := func(path string) bool {
		if path == "" || path == "Medias" || path == "Medias[0]" {
			return true
		}
		path = strings.TrimPrefix(path, "Medias[0].")
		return strings.HasPrefix(path, "Attributes") && !strings.Contains(path, "[2]") || strings.HasPrefix(path, "Bandwidths")
	}
	add := func(into bool, perm []int, keys ...string) {
		cs = append(cs, encCase{name: fmt.Sprintf("keys %s, then in the order %v", strings.Join(keys, " "), perm), on: all, unit: 3600e9, keys: keys, perm: perm, into: into})
	}
	for i := range pool {
		for j := range pool[:i] {
			add(false, []int{1, 0}, pool[i], pool[j])
		}
	}
	for i, perm := range [][]int{{2, 1, 0}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}} {
		add(i%2 == 0, perm, "ab", "ac", "Ab")
		add(i%2 == 1, perm, "cb", "abc", "a-b")
	}
	add(false, []int{8, 7, 6, 5, 4, 3, 2, 1, 0}, "i", "b", "h", "c", "g", "a", "f", "d", "e")
	add(true, []int{0, 1}, "ab", "ac")
	// every message of S08 and S09, whose maps have one entry
	for i, c := range encCases() {
		if i > 6 && c.on("Info") && c.on("Timing") && !c.old && !c.v6 {
			continue
		}
		c.perm = []int{0}
		c.name += ", encoded again"
		cs = append(cs, c)
	}
	return
}

// unstable are library functions whose results are not determined by their
// arguments.
func unstable(f *ssa.Function) bool {
	if f.Pkg == nil && f.Object() == nil {
		return false
	}
	pkg := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch pkg {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return true
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until", "After", "NewTimer", "Tick", "NewTicker", "Local", "LoadLocation":
			return true
		}
	case "os":
		switch f.Name() {
		case "Getenv", "LookupEnv", "Environ", "Getpid", "Hostname", "Getwd", "ReadFile", "Open", "Stat", "ExpandEnv":
			return true
		}
	case "runtime":
		switch f.Name() {
		case "NumGoroutine", "Stack", "Callers", "Caller", "ReadMemStats":
			return true
		}
	}
	return false
}

// encodingRoots are the API functions that build lines and text from values.
func (p *Prog) encodingRoots() (fs []*ssa.Function) {
	for _, f := range p.apiRoots() {
		if pkgOf(f) == sdpPath && !decodes(f) && !hidden(f) {
			fs = append(fs, f)
		}
	}
	return
}

func checkS07(p *Prog, r *Result) {
	r.explanation = "Message.Append is followed, every path on its own, on messages whose maps have two, three and nine entries, and then once more on the same message with the map entries in another order, also into the lines of the first run: the lines must be the same. No function the encoding API reaches asks for time, randomness or the environment or reads a package variable written after initialisation."
	fn := p.encoderFn()
	if fn == nil {
		r.report("undecided", "sdp", "-", "Message.Append not found")
		return
	}
	pos := p.pos(fn.Pos())
	paths, lines, steps := 0, 0, 0
	for _, c := range orderCases() {
		run := followEncode(p, c)
		steps += run.steps
		if run.gaveUp != "" {
			r.report("undecided", c.name, pos, "encoding a message twice (%s): %s", c.name, run.gaveUp)
		}
		rule := "encoding-differs"
		if len(run.first) > 1 {
			// the two encodings may stand for different messages
			rule = "undecided"
		}
		for i, a := range run.first {
			b, st := run.again[i], run.st[i]
			paths++
			r.obligations++
			if len(a) != len(b) {
				r.report(rule, "Message.Append", pos, "encoding the message again makes %d lines, not %d (%s)", len(b), len(a), c.name)
				continue
			}
			for k := range a {
				lines++
				r.obligations++
				ty, tx := st.eval(cEQ(a[k].typ.sub(b[k].typ))), st.eval(st.strCond(a[k].txt, b[k].txt))
				if a[k].txt == b[k].txt || sameText(st, a[k].txt, b[k].txt) {
					tx = 1
				}
				switch {
				case ty == 0 || tx == 0:
					r.report(rule, "Message.Append", pos, "line %d is %s=%s when the message is encoded again, not %s=%s (%s)", k+1, showType(b[k].typ), b[k].txt, showType(a[k].typ), a[k].txt, c.name)
				case ty == -1 || tx == -1:
					if d := differ(st, a[k].txt, b[k].txt); d != "" {
						r.report(rule, "Message.Append", pos, "line %d when the message is encoded again: %s (%s)", k+1, d, c.name)
					} else {
						r.report("undecided", c.name, pos, "line %d may differ when the message is encoded again: %s=%s, %s=%s (%s)", k+1, showType(a[k].typ), a[k].txt, showType(b[k].typ), b[k].txt, c.name)
					}
				}
			}
		}
	}
	r.coverage["encodings"] = len(orderCases())
	r.coverage["encoder_paths"] = paths
	r.coverage["encoder_steps"] = steps
	r.require("lines compared", lines, 500)

	// (b)
	roots := p.encodingRoots()
	reach := p.reachable(roots)
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	written := p.writtenGlobals()
	calls, globals, n := 0, 0, 0
	for _, f := range fs {
		if f.Blocks == nil || !p.inModule(f) {
			continue
		}
		n++
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					calls++
					r.obligations++
					if g := c.Common().StaticCallee(); g != nil && unstable(g) {
						r.report("unstable-source", fname(f), p.pos(i.Pos()), "%s calls %s while encoding: %s", fname(f), g, p.path(reach, f))
					}
				}
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						continue
					}
					globals++
					r.obligations++
					if w := written[g]; w != nil {
						r.report("unstable-source", fname(f), p.pos(i.Pos()), "%s uses the package variable %s, which %s writes: %s", fname(f), g.Name(), fname(w), p.path(reach, f))
					}
				}
			}
		}
	}
	r.coverage["functions"] = n
	r.coverage["calls"] = calls
	r.coverage["uses_of_package_variables"] = globals
	r.require("encoding API functions", len(roots), 10)
	r.sample("%d encodings compared with a second one; %d functions reachable from %d API functions searched for other sources", len(orderCases()), n, len(roots))
}

func showType(l Lin) string {
	if l.isK() && l.c > 32 && l.c < 127 {
		return string(rune(l.c))
	}
	return l.String()
}

// sameText: byte for byte the same.
func sameText(st *State, a, b *Term) bool {
	x, y := encAtoms(st, a), encAtoms(st, b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		switch {
		case x[i].t != nil:
			if y[i].t != x[i].t && (y[i].t == nil || y[i].t.id != x[i].t.id) {
				return false
			}
		case x[i].b != nil:
			if y[i].b == nil || !x[i].b.eq(*y[i].b) {
				return false
			}
		default:
			if y[i].t != nil || y[i].b != nil || x[i].c != y[i].c {
				return false
			}
		}
	}
	return true
}

// differ names parts of the message in one text that are not in the other.
func differ(st *State, a, b *Term) string {
	deps := func(t *Term) map[string]bool {
		m := map[string]bool{}
		for _, x := range encAtoms(st, t) {
			for _, d := range x.deps {
				m[d] = true
			}
		}
		return m
	}
	x, y := deps(a), deps(b)
	for d := range x {
		if !y[d] && len(y) > 0 {
			return "it is not made from " + d
		}
	}
	return ""
}

// writtenGlobals are the package variables of the module that are written, or
// whose maps are changed, by functions other than initialisers.
func (p *Prog) writtenGlobals() map[*ssa.Global]*ssa.Function {
	out := map[*ssa.Global]*ssa.Function{}
	root := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			case *ssa.Slice:
				v = x.X
			case *ssa.Convert:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return nil
			}
		}
	}
	for _, f := range p.funcs {
		if strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Parent() == nil && (f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if g := root(x.Addr); g != nil {
						out[g] = f
					}
				case *ssa.MapUpdate:
					if g := root(x.Map); g != nil {
						out[g] = f
					}
				case ssa.CallInstruction:
					// a method of a package variable such as a pool, a counter or a lock
					for _, a := range x.Common().Args {
						g, ok := a.(*ssa.Global)
						if !ok {
							continue
						}
						if n, ok := deref(g.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
							switch n.Obj().Pkg().Path() {
							case "sync/atomic":
								out[g] = f
							}
						} else if c := x.Common().StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "sync/atomic" {
							out[g] = f
						}
					}
				}
			}
		}
	}
	return out
}

func init() { checks["S07"] = checkS07 }
