package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Modular panic-freedom. Functions are analysed bottom-up, each with
// arbitrary arguments (pointers valid, everything else anything). A function
// whose obligations all hold that way is not analysed again at its calls: its
// effects are unknown there. A function with an obligation left is analysed
// in the context of each of its callers instead; what is left at a function
// applications can call is looked at once more without joining paths, and
// reported if it fails on a path on which nothing is lost.

type failedObl struct {
	kind, where, instr, detail string
	pos                        token.Pos
	exact                      bool // fails without any loss of precision
	fn                         *ssa.Function
	at                         ssa.Instruction
	notes                      string
}

type modFn struct {
	fn     *ssa.Function
	clean  bool
	gaveUp string
	failed map[string]*failedObl
	obl    map[string]bool
	steps  int
	exits  int
	dur    time.Duration
	inl    map[string]bool
}

type modular struct {
	p    *Prog
	res  map[*ssa.Function]*modFn
	busy map[*ssa.Function]bool
	inv  map[string]*Summ
	next map[string]*Summ
	api  map[*ssa.Function]bool
	in   map[*ssa.Function]bool // functions in scope
	all  map[string]bool
	// extra is asked for more hooks
	extra func(h *Hooks)
	until time.Time
	// given are parameters applications pass a value for
	given  map[*ssa.Parameter]bool
	exempt func(*failedObl) bool
	opaque func(*ssa.Function) bool // looked at elsewhere
}

func (m *modular) param(p *ssa.Parameter, i int) bool {
	if m.given[p] {
		return true
	}
	switch p.Type().Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface, *types.Signature:
		// handed over by the application or a library
		return i == 0 && p.Parent().Signature.Recv() != nil
	}
	return false
}

// inlineAt decides how a call is treated.
func (m *modular) inlineAt(f *ssa.Function) bool {
	if m.opaque != nil && m.opaque(f) {
		return false
	}
	if !m.in[f] || m.busy[f] {
		return true
	}
	if f.Parent() != nil {
		return true
	}
	return !m.analyse(f).clean || small(f)
}

// small functions are followed in the context of their callers anyway.
func small(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return n <= 60
}

const counterMax = int64(1) << 62

const modSteps = 400000

func (m *modular) interp(f *ssa.Function, r *modFn, exact bool) *Interp {
	h := &Hooks{}
	h.inline = func(in *Interp, st *State, g *ssa.Function) bool {
		if m.opaque != nil && m.opaque(g) || !exact && !m.inlineAt(g) {
			return false
		}
		r.inl[fname(g)] = true
		return true
	}
	h.oblige = func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string) {
		k := fmt.Sprintf("%s|%s|%s", kind, m.p.pos(at.Pos()), at)
		r.obl[k] = true
		if !ok {
			if exact && (st.inexact || imprecise(detail)) {
				return
			}
			if r.failed[k] == nil {
				r.failed[k] = &failedObl{kind: kind, where: fname(at.Parent()), instr: at.String(), detail: detail, pos: at.Pos(), at: at, exact: exact, fn: at.Parent()}
			}
		}
	}
	if m.extra != nil {
		m.extra(h)
	}
	in := newInterp(m.p, h)
	in.ff = m.p.fieldFacts()
	in.useInv, in.inv = true, m.inv
	in.maxStep = modSteps
	in.mergeN, in.retN = modN, modR
	in.modular = true
	in.deadline = time.Now().Add(m.budget(40))
	if exact {
		in.free = m.opaque
		in.exact = 8
		in.exactCap = 60
		in.maxStep = 200000
	}
	return in
}

// budget is the time the next analysis may take.
func (m *modular) budget(sec int) time.Duration {
	if m.until.IsZero() {
		m.until = time.Now().Add(200 * time.Second)
	}
	d := time.Duration(sec) * time.Second
	if left := time.Until(m.until); left < d {
		d = left
	}
	return d
}

func (m *modular) run(f *ssa.Function, exact bool) *modFn {
	r := &modFn{fn: f, failed: map[string]*failedObl{}, obl: map[string]bool{}, inl: map[string]bool{}}
	t0 := time.Now()
	in := m.interp(f, r, exact)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if g, ok := e.(giveUp); ok {
					r.gaveUp = g.why
					return
				}
				r.gaveUp = fmt.Sprint(e)
			}
		}()
		st := in.rootState(f, m.param)
		for _, o := range in.runFn(st) {
			r.exits++
			in.escape(o.st, o.vals)
			for i, v := range o.vals {
				if i < f.Signature.Results().Len() {
					in.noteVal(o.st, f.Signature.Results().At(i).Type(), v)
				}
			}
			for _, id := range sortedObjs(o.st.heap) {
				if ob := o.st.heap[id]; ob.input {
					in.snapshot(o.st, ob)
				}
			}
		}
	}()
	for _, x := range in.found {
		if x.rule == "unbounded-recursion" {
			r.failed[x.rule+x.where] = &failedObl{kind: x.rule, where: x.where, detail: x.msg, pos: x.pos, fn: f}
		}
	}
	if !exact {
		for k, s := range in.invNew {
			if o, ok := m.next[k]; ok {
				s = joinSumm(o, s, false)
			}
			m.next[k] = s
		}
	}
	r.steps, r.dur = in.steps, time.Since(t0)
	r.clean = r.gaveUp == "" && len(r.failed) == 0
	return r
}

func (m *modular) analyse(f *ssa.Function) *modFn {
	if r := m.res[f]; r != nil {
		return r
	}
	if m.busy[f] {
		return &modFn{fn: f}
	}
	m.busy[f] = true
	save := noLadder
	r := m.run(f, false)
	noLadder = save
	delete(m.busy, f)
	m.res[f] = r
	for k := range r.obl {
		m.all[k] = true
	}
	return r
}

// decide analyses the roots until the field invariants are stable.
func (m *modular) decide(roots []*ssa.Function) {
	ff := m.p.fieldFacts()
	m.inv = map[string]*Summ{}
	for k, v := range ff.all {
		if !v.Exported() && !ff.addr[k] && isInt(v.Type()) {
			m.inv[k] = &Summ{kind: 'i', lo: 0, hi: 0, set: []int64{0}}
		}
	}
	for round := 0; round < 10; round++ {
		m.res, m.busy, m.next = map[*ssa.Function]*modFn{}, map[*ssa.Function]bool{}, map[string]*Summ{}
		m.all = map[string]bool{}
		for _, f := range roots {
			m.analyse(f)
		}
		// everything else that applications or libraries may reach
		stable := true
		if m.budget(1) <= 0 {
			return // out of time; what is left is not decided
		}
		for k, s := range m.next {
			if s.kind != 'i' {
				continue
			}
			o, ok := m.inv[k]
			if !ok {
				continue // others may set it
			}
			// no 64-bit counter is stepped past 1<<62
			if o.hi == counterMax && s.hi <= counterMax+1024 && s.lo >= o.lo {
				continue
			}
			j := joinSumm(o, s, round > 1)
			j = &Summ{kind: 'i', lo: j.lo, hi: j.hi, set: unionInts(o.set, s.set)}
			if len(j.set) > 8 || o.set == nil || s.set == nil {
				j.set = nil
			} else if n := len(j.set); n > 0 {
				j.lo, j.hi = j.set[0], j.set[n-1]
			}
			if j.lo > -counterMax && j.hi > counterMax && j.hi-counterMax > 0 && s.lo >= o.lo {
				j.hi = counterMax
			}
			if round > 6 {
				j.lo, j.hi = noLo, noHi
			}
			if j.lo != o.lo || j.hi != o.hi || len(j.set) != len(o.set) {
				if os.Getenv("MOD_DEBUG") != "" && strings.Contains(k, os.Getenv("MOD_DEBUG")) {
					fmt.Println("round", round, k, o.lo, o.hi, "->", j.lo, j.hi)
				}
				m.inv[k] = j
				stable = false
			}
		}
		if stable {
			return
		}
	}
	m.inv = map[string]*Summ{}
}

// imprecise: the condition speaks of values joins or unknown calls made.
func imprecise(detail string) bool {
	for _, s := range []string{"+j#", "*j#", "lost", "havoc", "?#", "mapval"} {
		if strings.Contains(detail, s) {
			return true
		}
	}
	return false
}

// left is what is not proved at the roots.
func (m *modular) left(roots []*ssa.Function) (bad []*failedObl, undecided []string) {
	seen := map[string]bool{}
	for _, f := range roots {
		r := m.res[f]
		if r == nil || r.clean {
			continue
		}
		x := m.run(f, true)
		for _, k := range sortedKeysS(r.failed) {
			o := r.failed[k]
			if m.exempt != nil && m.exempt(o) {
				continue
			}
			if e := x.failed[k]; e != nil && e.exact {
				if !seen[k] {
					seen[k] = true
					e.notes = fname(f)
					bad = append(bad, e)
				}
				continue
			}
			undecided = append(undecided, fmt.Sprintf("%s: %s at %s (%s): %s not proved", fname(f), o.kind, m.p.pos(o.pos), o.where, o.detail))
		}
		if r.gaveUp != "" {
			for k, e := range x.failed {
				if e.exact && !seen[k] {
					seen[k] = true
					e.notes = fname(f)
					bad = append(bad, e)
				}
			}
			undecided = append(undecided, fmt.Sprintf("%s: %s", fname(f), r.gaveUp))
		}
	}
	sort.Slice(bad, func(i, j int) bool { return bad[i].pos < bad[j].pos })
	return
}

func sortedKeysS(m map[string]*failedObl) []string {
	var k []string
	for i := range m {
		k = append(k, i)
	}
	sort.Strings(k)
	return k
}

func newModular(p *Prog, pkg string) (*modular, []*ssa.Function) {
	m := &modular{p: p, api: map[*ssa.Function]bool{}, in: map[*ssa.Function]bool{}}
	for _, f := range p.allFuncs() {
		g := f
		for g.Parent() != nil {
			g = g.Parent()
		}
		if g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), pkg) && f.Synthetic == "" {
			m.in[f] = true
		}
	}
	var roots []*ssa.Function
	for _, f := range p.apiRoots() {
		if m.in[f] {
			roots = append(roots, f)
		}
	}
	return m, roots
}

func debugModular(p *Prog, pkg string) {
	m, roots := newModular(p, pkg)
	m.decide(roots)
	var fs []*modFn
	for _, r := range m.res {
		fs = append(fs, r)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i].fn) < fname(fs[j].fn) })
	for _, r := range fs {
		if r.clean && r.dur < time.Second {
			continue
		}
		fmt.Printf("%-60s clean=%v steps=%d %.1fs inl=%d %s\n", fname(r.fn), r.clean, r.steps, r.dur.Seconds(), len(r.inl), r.gaveUp)
		for _, k := range sortedKeysS(r.failed) {
			fmt.Println("      ", k, r.failed[k].detail)
		}
	}
	for f, x := range p.modSets() {
		if m.in[f] && !x.none() {
			fmt.Println("mods", fname(f), x.all, x.ptr, x.elems, len(x.fields), x.why)
		}
	}
	for k, s := range m.inv {
		if s.lo != noLo || s.hi != noHi {
			fmt.Println("inv", k, s.lo, s.hi)
		}
	}
	bad, und := m.left(roots)
	for _, b := range bad {
		fmt.Println("BAD", b.kind, p.pos(b.pos), b.where, b.instr, b.detail)
	}
	for _, u := range und {
		fmt.Println("UNDECIDED", u)
	}
}

var modN, modR = envInt("MOD_N", 1), envInt("MOD_R", 3)

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}
