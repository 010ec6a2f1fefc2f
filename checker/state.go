package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- objects

// Seg says: array[lo+i] == src[slo+i] for lo+i < hi.
type Seg struct {
	lo, hi Lin
	src    *Term
	slo    Lin
}

type Ent struct {
	idx Lin
	v   Val
}

// Arr is the content of an array: known entries and byte segments, and a
// summary for every other element.
type Arr struct {
	elem  types.Type
	n     Lin
	ents  []Ent
	segs  []Seg
	def   *Summ
	deps  []string
	label string
	bytes bool
}

func (a *Arr) clone() *Arr {
	b := *a
	b.ents = append([]Ent(nil), a.ents...)
	b.segs = append([]Seg(nil), a.segs...)
	return &b
}

// MapC is the content of a map.
type MapC struct {
	ents []MEnt
	kdef *Summ
	vdef *Summ // nil: no other entries
	n    Lin
	kt   types.Type
	vt   types.Type
}

type MEnt struct{ k, v Val }

// Obj is one abstract memory object. Objects are immutable: a write replaces
// the object in the state's heap.
type Obj struct {
	id    ObjID
	T     types.Type // type of the content (element type for arrays)
	kind  byte       // 'v' cell, 'a' array, 'm' map, 'c' channel
	v     Val
	arr   *Arr
	mp    *MapC
	summ  bool // stands for several concrete objects
	input bool
	label string
	site  string          // where it was made
	flags map[string]bool // typestate bits (may)
}

func (o *Obj) with(flag string) *Obj {
	if o.flags[flag] {
		return o
	}
	n := *o
	n.flags = map[string]bool{flag: true}
	for k := range o.flags {
		n.flags[k] = true
	}
	return &n
}

// ---------------------------------------------------------------- frames

type Deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
	pos  ssa.Instruction
}

type Frame struct {
	owner  *State
	fn     *ssa.Function
	info   *FnInfo
	regs   []Val
	parent *Frame
	defers []Deferred
	ctx    string
	depth  int
	panic  bool // unwinding
	recov  bool // recovered while unwinding
}

// ---------------------------------------------------------------- state

type State struct {
	inexact   bool // something happened whose effect is not known exactly
	in        *Interp
	poly      *Poly
	polySh    bool
	heap      map[ObjID]*Obj
	heapSh    bool
	fr        *Frame
	facts     map[string]bool
	factsSh   bool
	streq     map[int]string
	strSh     bool
	sets      map[Sym][]int64
	setsSh    bool
	diseq     []Lin
	ghost     map[string]Val
	ghostSh   bool
	trace     []string
	panicking bool
}

func newState(in *Interp) *State {
	return &State{in: in, poly: &Poly{}, heap: map[ObjID]*Obj{}, facts: map[string]bool{}, streq: map[int]string{}, sets: map[Sym][]int64{}, ghost: map[string]Val{}}
}

func (st *State) clone() *State {
	n := *st
	st.polySh, n.polySh = true, true
	st.heapSh, n.heapSh = true, true
	st.factsSh, n.factsSh = true, true
	st.strSh, n.strSh = true, true
	st.setsSh, n.setsSh = true, true
	st.ghostSh, n.ghostSh = true, true
	n.diseq = st.diseq[:len(st.diseq):len(st.diseq)]
	st.diseq = n.diseq
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	st.trace = n.trace
	// both must copy the frame before writing
	if st.fr != nil {
		st.fr.owner = nil
	}
	return &n
}

func (st *State) wPoly() *Poly {
	if st.polySh {
		st.poly = st.poly.clone()
		st.polySh = false
	}
	return st.poly
}

func (st *State) setObj(o *Obj) {
	if st.heapSh {
		h := make(map[ObjID]*Obj, len(st.heap)+4)
		for k, v := range st.heap {
			h[k] = v
		}
		st.heap = h
		st.heapSh = false
	}
	st.heap[o.id] = o
}

func (st *State) delObj(id ObjID) {
	if _, ok := st.heap[id]; !ok {
		return
	}
	if st.heapSh {
		h := make(map[ObjID]*Obj, len(st.heap)+4)
		for k, v := range st.heap {
			h[k] = v
		}
		st.heap = h
		st.heapSh = false
	}
	delete(st.heap, id)
}

func (st *State) setFact(k string, v bool) {
	if st.factsSh {
		h := make(map[string]bool, len(st.facts)+4)
		for k, v := range st.facts {
			h[k] = v
		}
		st.facts = h
		st.factsSh = false
	}
	st.facts[k] = v
}

func (st *State) setStreq(t int, v string) {
	if st.strSh {
		h := make(map[int]string, len(st.streq)+4)
		for k, v := range st.streq {
			h[k] = v
		}
		st.streq = h
		st.strSh = false
	}
	st.streq[t] = v
}

func (st *State) setSet(s Sym, v []int64) {
	if st.setsSh {
		h := make(map[Sym][]int64, len(st.sets)+4)
		for k, v := range st.sets {
			h[k] = v
		}
		st.sets = h
		st.setsSh = false
	}
	if v == nil {
		delete(st.sets, s)
	} else {
		st.sets[s] = v
	}
}

func (st *State) setGhost(k string, v Val) {
	if st.ghostSh {
		h := make(map[string]Val, len(st.ghost)+4)
		for k, v := range st.ghost {
			h[k] = v
		}
		st.ghost = h
		st.ghostSh = false
	}
	if v == nil {
		delete(st.ghost, k)
	} else {
		st.ghost[k] = v
	}
}

func (st *State) tag(k string) string {
	if t, ok := st.ghost[k].(Tag); ok {
		return t.S
	}
	return ""
}
func (st *State) setTag(k, v string) { st.setGhost(k, Tag{v}) }

func (st *State) note(format string, a ...any) {
	if len(st.trace) < 200 {
		st.trace = append(st.trace, fmt.Sprintf(format, a...))
	}
}

func (st *State) wFrame() *Frame {
	if st.fr.owner != st {
		f := *st.fr
		f.regs = append([]Val(nil), f.regs...)
		f.defers = f.defers[:len(f.defers):len(f.defers)]
		f.owner = st
		st.fr = &f
	}
	return st.fr
}

func (st *State) setReg(v ssa.Value, x Val) {
	f := st.wFrame()
	i, ok := f.info.num[v]
	if !ok {
		panic("no register for " + v.Name())
	}
	f.regs[i] = x
}

// ---------------------------------------------------------------- constraints

// addGE assumes e >= 0 and reports whether that is possible.
func (st *State) addGE(e Lin) bool {
	if e.isK() {
		return e.c >= 0
	}
	if st.poly.entails(e) {
		return true
	}
	if st.poly.refutes(e) {
		return false
	}
	st.wPoly().add(e)
	if st.poly.bot {
		return false
	}
	return st.afterAdd(e)
}

func (st *State) afterAdd(e Lin) bool {
	for _, t := range e.t {
		if set, ok := st.sets[t.s]; ok {
			lo, hi := st.poly.quickBounds(t.s)
			if len(e.t) > 1 {
				if l, ok := st.poly.min(LS(t.s)); ok && l > lo {
					lo = l
				}
				if h, ok := st.poly.max(LS(t.s)); ok && h < hi {
					hi = h
				}
			}
			var ns []int64
			for _, x := range set {
				if x >= lo && x <= hi {
					ns = append(ns, x)
				}
			}
			if len(ns) == 0 {
				return false
			}
			if len(ns) < len(set) {
				st.setSet(t.s, ns)
				p := st.wPoly()
				p.add(LS(t.s).addK(-ns[0]))
				p.add(LS(t.s).neg().addK(ns[len(ns)-1]))
			}
		}
	}
	// disequalities that became one-sided
	if len(st.diseq) > 0 {
		var keep []Lin
		changed := false
		for _, d := range st.diseq {
			rel := false
			for _, t := range e.t {
				if d.coef(t.s) != 0 {
					rel = true
				}
			}
			if !rel {
				keep = append(keep, d)
				continue
			}
			switch {
			case st.poly.entails(d):
				if st.poly.refutes(d.addK(-1)) {
					return false
				}
				st.wPoly().add(d.addK(-1))
				changed = true
			case st.poly.entails(d.neg()):
				if st.poly.refutes(d.neg().addK(-1)) {
					return false
				}
				st.wPoly().add(d.neg().addK(-1))
				changed = true
			default:
				keep = append(keep, d)
			}
		}
		if changed {
			st.diseq = keep
		}
	}
	return true
}

func (st *State) addEQ(e Lin) bool {
	if e.isK() {
		return e.c == 0
	}
	// finite domain of a single symbol
	if len(e.t) == 1 {
		s, k := e.t[0].s, e.t[0].k
		if e.c%k != 0 {
			return false
		}
		v := -e.c / k
		for _, y := range syms.isOf[s] {
			if y.c == v {
				st.addGE(LS(y.x).addK(-1))
			} else {
				st.addGE(LS(y.x).neg())
			}
		}
		if set, ok := st.sets[s]; ok {
			hit := false
			for _, x := range set {
				if x == v {
					hit = true
				}
			}
			if !hit {
				return false
			}
		}
	}
	if len(e.t) == 2 && e.c == 0 && e.t[0].k == -e.t[1].k {
		a, b := st.sets[e.t[0].s], st.sets[e.t[1].s]
		if a != nil || b != nil {
			var ns []int64
			switch {
			case a == nil:
				ns = b
			case b == nil:
				ns = a
			default:
				m := map[int64]bool{}
				for _, x := range b {
					m[x] = true
				}
				for _, x := range a {
					if m[x] {
						ns = append(ns, x)
					}
				}
			}
			if len(ns) == 0 {
				return false
			}
			for _, t := range e.t {
				st.setSet(t.s, ns)
				p := st.wPoly()
				p.add(LS(t.s).addK(-ns[0]))
				p.add(LS(t.s).neg().addK(ns[len(ns)-1]))
			}
		}
	}
	return st.addGE(e) && st.addGE(e.neg())
}

func (st *State) addNE(e Lin) bool {
	if e.isK() {
		return e.c != 0
	}
	if len(e.t) == 1 {
		s, k := e.t[0].s, e.t[0].k
		if e.c%k != 0 {
			return true
		}
		v := -e.c / k
		for _, y := range syms.isOf[s] {
			if y.c == v {
				st.addGE(LS(y.x).neg())
			}
		}
		if set, ok := st.sets[s]; ok {
			var ns []int64
			for _, x := range set {
				if x != v {
					ns = append(ns, x)
				}
			}
			if len(ns) == 0 {
				return false
			}
			if len(ns) < len(set) {
				st.setSet(s, ns)
			}
		}
	}
	if len(e.t) == 2 && e.c == 0 && e.t[0].k == -e.t[1].k {
		a, b := st.sets[e.t[0].s], st.sets[e.t[1].s]
		if len(a) == 1 && len(b) == 1 && a[0] == b[0] {
			return false
		}
	}
	if st.poly.entails(e) {
		return st.addGE(e.addK(-1))
	}
	if st.poly.entails(e.neg()) {
		return st.addGE(e.neg().addK(-1))
	}
	for _, d := range st.diseq {
		if d.eq(e) {
			return true
		}
	}
	st.diseq = append(st.diseq[:len(st.diseq):len(st.diseq)], e)
	return true
}

func nilKey(ns int) string { return fmt.Sprintf("nil:%d", ns) }

// assume adds a condition and reports whether the state is still possible.
func (st *State) assume(c Cond) bool {
	switch c.op {
	case 'c':
		return c.val
	case 'g':
		return st.addGE(c.L)
	case 'e':
		if c.neg {
			return st.addNE(c.L)
		}
		return st.addEQ(c.L)
	}
	want := !c.neg
	if v, ok := st.facts[c.at]; ok {
		if v != want {
			return false
		}
	} else {
		st.setFact(c.at, want)
	}
	if want {
		for _, l := range c.zl {
			if !st.addEQ(l) {
				return false
			}
		}
		if c.str != nil {
			return st.assumeStrEq(c.str, c.cst)
		}
	}
	return true
}

func (st *State) assumeStrEq(t *Term, c string) bool {
	if v, ok := st.streq[t.id]; ok {
		return v == c
	}
	if t.op == "const" {
		return t.s == c
	}
	for _, r := range c {
		if t.excludes(r) {
			return false
		}
	}
	if !st.addEQ(t.n.addK(-int64(len(c)))) {
		return false
	}
	st.setStreq(t.id, c)
	for i := 0; i < len(c) && i < 8; i++ {
		b := st.byteAt(t, K(int64(i)))
		if !st.addEQ(b.addK(-int64(c[i]))) {
			return false
		}
	}
	return true
}

// eval decides a condition if it can: 1 true, 0 false, -1 unknown.
func (st *State) eval(c Cond) int {
	switch c.op {
	case 'c':
		if c.val {
			return 1
		}
		return 0
	case 'g':
		if st.poly.entails(c.L) {
			return 1
		}
		if st.poly.refutes(c.L) {
			return 0
		}
		return -1
	case 'e':
		s := st.clone()
		if !s.addEQ(c.L) {
			if c.neg {
				return 1
			}
			return 0
		}
		s = st.clone()
		if !s.addNE(c.L) {
			if c.neg {
				return 0
			}
			return 1
		}
		return -1
	}
	if v, ok := st.facts[c.at]; ok {
		if v != c.neg {
			return 1
		}
		return 0
	}
	return -1
}

func (st *State) isNil(n Null) tri {
	if n.t != triMaybe {
		return n.t
	}
	if v, ok := st.facts[nilKey(n.ns)]; ok {
		if v {
			return triNil
		}
		return triNon
	}
	return triMaybe
}

func nilCond(n Null, zl ...Lin) Cond {
	switch n.t {
	case triNil:
		return cK(true)
	case triNon:
		return cK(false)
	}
	c := cAtom(nilKey(n.ns))
	c.ns = n.ns
	c.zl = zl
	return c
}

// bounds of an expression.
func (st *State) lo(e Lin) (int64, bool) { return st.poly.min(e) }
func (st *State) hi(e Lin) (int64, bool) { return st.poly.max(e) }

// ---------------------------------------------------------------- bytes of terms

// byteAt is the number of the byte at off in t.
func (st *State) byteAt(t *Term, off Lin) Lin {
	if v, ok := st.streq[t.id]; ok && off.isK() && off.c >= 0 && off.c < int64(len(v)) {
		return K(int64(v[off.c]))
	}
	switch t.op {
	case "const":
		if off.isK() && off.c >= 0 && off.c < int64(len(t.s)) {
			return K(int64(t.s[off.c]))
		}
		lo, hi := int64(255), int64(0)
		for i := 0; i < len(t.s); i++ {
			if int64(t.s[i]) < lo {
				lo = int64(t.s[i])
			}
			if int64(t.s[i]) > hi {
				hi = int64(t.s[i])
			}
		}
		if lo > hi {
			lo, hi = 0, 255
		}
		return LS(keyedSym(fmt.Sprintf("byte(t%d@%s)", t.id, off.key()), lo, hi))
	case "sub":
		return st.byteAt(t.args[0], t.lins[0].add(off))
	case "cat":
		p := K(0)
		for _, a := range t.args {
			if st.poly.entails(off.sub(p)) && st.poly.entails(p.add(a.n).sub(off).addK(-1)) {
				return st.byteAt(a, off.sub(p))
			}
			p = p.add(a.n)
		}
	case "fn":
		if t.s == "byte" && off.isK() && off.c == 0 {
			return t.lins[0]
		}
	}
	if !off.isK() {
		// the same place may have been read under another name
		e := st.poly.echelon()
		r := e.reduce(off)
		if r.isK() {
			off = r
		} else if _, have := syms.byK[fmt.Sprintf("byte(t%d@%s)", t.id, off.key())]; !have {
			l := syms.bytesOf[t.id]
			if len(l) > 60 {
				l = l[len(l)-60:]
			}
			for i := len(l) - 1; i >= 0; i-- {
				if e.reduce(*l[i].info().pos).eq(r) {
					return LS(l[i])
				}
			}
		}
	}
	s := keyedSym(fmt.Sprintf("byte(t%d@%s)", t.id, off.key()), 0, 255)
	syms.byTerm[s] = t.id
	if s.info().pos == nil {
		o := off
		s.info().pos = &o
		syms.bytesOf[t.id] = append(syms.bytesOf[t.id], s)
	}
	if in := s.info(); in.deps == nil {
		in.deps = t.deps
		in.name = fmt.Sprintf("byte(%s@%s)", shortTerm(t), off.String())
	}
	return LS(s)
}

func shortTerm(t *Term) string {
	s := t.String()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func tByte(l Lin) *Term {
	if l.isK() {
		return tConst(string([]byte{byte(l.c)}))
	}
	return mkTerm(Term{op: "fn", s: "byte", lins: []Lin{l}, n: K(1), deps: linDeps(l)})
}

func linDeps(l Lin) []string {
	var d [][]string
	for _, t := range l.t {
		if x := t.s.info().deps; x != nil {
			d = append(d, x)
		}
	}
	return unionDeps(d...)
}

// strCond is the condition a == b.
func (st *State) strCond(a, b *Term) Cond {
	if a == b {
		return cK(true)
	}
	if v, ok := st.streq[a.id]; ok {
		a = tConst(v)
	}
	if v, ok := st.streq[b.id]; ok {
		b = tConst(v)
	}
	if a.op == "const" && b.op != "const" {
		a, b = b, a
	}
	if b.op == "const" {
		if a.op == "const" {
			return cK(a.s == b.s)
		}
		if b.s == "" {
			return cEQ(a.n)
		}
		for _, r := range b.s {
			if a.excludes(r) {
				return cK(false)
			}
		}
		if a.op == "cat" {
			if f := a.args[0]; f.op == "const" {
				n := len(f.s)
				if n > len(b.s) || b.s[:n] != f.s {
					return cK(false)
				}
			}
		}
		for i := 0; i < len(b.s) && i < 8; i++ {
			x := st.byteAt(a, K(int64(i)))
			if x.isK() {
				if x.c != int64(b.s[i]) {
					return cK(false)
				}
				continue
			}
			d := x.addK(-int64(b.s[i]))
			if st.poly.refutes(d) || st.poly.refutes(d.neg()) {
				return cK(false)
			}
			bad := false
			for _, q := range st.diseq {
				if q.eq(d) || q.eq(d.neg()) {
					bad = true
				}
			}
			if bad {
				return cK(false)
			}
		}
	}
	if st.poly.refutes(a.n.sub(b.n)) || st.poly.refutes(b.n.sub(a.n)) {
		return cK(false)
	}
	if st.in != nil && st.in.exact > 0 && b.op != "const" && a.n.isK() && b.n.isK() && a.n.c == b.n.c && a.n.c <= 16 {
		same := true
		for i := int64(0); i < a.n.c; i++ {
			d := st.byteAt(a, K(i)).sub(st.byteAt(b, K(i)))
			if d.isK() && d.c != 0 || st.poly.refutes(d) || st.poly.refutes(d.neg()) {
				return cK(false)
			}
			same = same && d.isK()
		}
		if same {
			return cK(true)
		}
	}
	if a.id > b.id {
		if b.op != "const" {
			a, b = b, a
		}
	}
	c := cAtom(fmt.Sprintf("eq:t%d:t%d", a.id, b.id))
	if b.op == "const" {
		c.str, c.cst = a, b.s
	}
	return c
}

// ---------------------------------------------------------------- arrays

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

var topByte = &Summ{kind: 'i', lo: 0, hi: 255}

// kill forgets what is known about array[lo,hi).
func (st *State) killArr(a *Arr, lo, hi Lin) {
	var segs []Seg
	lost := false
	for _, s := range a.segs {
		switch {
		case st.poly.entails(lo.sub(s.hi)) || st.poly.entails(s.lo.sub(hi)):
			segs = append(segs, s)
		default:
			// keep the parts that are certainly outside
			leftOK := st.poly.entails(lo.sub(s.lo))
			rightOK := st.poly.entails(s.hi.sub(hi))
			if leftOK {
				if !lo.eq(s.lo) {
					segs = append(segs, Seg{s.lo, lo, s.src, s.slo})
				}
			} else if !st.poly.entails(s.lo.sub(lo)) {
				lost = true
			}
			if rightOK {
				if !hi.eq(s.hi) {
					segs = append(segs, Seg{hi, s.hi, s.src, s.slo.add(hi.sub(s.lo))})
				}
			} else if !st.poly.entails(hi.sub(s.hi)) {
				lost = true
			}
		}
	}
	a.segs = segs
	var ents []Ent
	for _, e := range a.ents {
		switch {
		case st.poly.entails(e.idx.sub(hi)) || st.poly.entails(lo.sub(e.idx).addK(-1)):
			ents = append(ents, e)
		case st.poly.entails(e.idx.sub(lo)) && st.poly.entails(hi.sub(e.idx).addK(-1)):
			// overwritten for certain
		default:
			a.def = joinSumm(a.def, st.summarize(e.v), false)
		}
	}
	a.ents = ents
	if lost && a.bytes {
		a.def = joinSumm(a.def, topByte, false)
	}
}

func (st *State) readElem(o *Obj, idx Lin) Val {
	a := o.arr
	for _, e := range a.ents {
		if e.idx.eq(idx) || st.poly.entailsEq(e.idx, idx) {
			return e.v
		}
	}
	if a.bytes {
		for _, s := range a.segs {
			if st.poly.entails(idx.sub(s.lo)) && st.poly.entails(s.hi.sub(idx).addK(-1)) {
				return Int{st.readByte(s.src, s.slo.add(idx.sub(s.lo)))}
			}
		}
	}
	d := a.def
	if a.covered() {
		d = nil
	}
	// entries that may be at idx
	for _, e := range a.ents {
		if st.poly.refutes(e.idx.sub(idx)) || st.poly.refutes(idx.sub(e.idx)) {
			continue
		}
		d = joinSumm(d, st.summarize(e.v), false)
	}
	if a.bytes && len(a.segs) > 0 {
		d = topByte
	}
	if d == nil {
		d = a.def
	}
	termCounter++
	v := st.instantiate(d, a.elem, fmt.Sprintf("%s[]'%d", a.label, termCounter), a.deps)
	if !o.summ {
		na := a.clone()
		na.ents = append(na.ents, Ent{idx, v})
		no := *o
		no.arr = na
		st.setObj(&no)
	}
	return v
}

func (st *State) writeElem(o *Obj, idx Lin, v Val) {
	na := o.arr.clone()
	no := *o
	no.arr = na
	na.deps = unionDeps(na.deps, valDeps(v))
	if o.summ {
		na.def = joinSumm(na.def, st.summarize(v), false)
		na.segs = nil
		na.ents = nil
	} else {
		st.killArr(na, idx, idx.addK(1))
		na.ents = append(na.ents, Ent{idx, v})
	}
	st.setObj(&no)
}

// writeBytes stores src[slo:slo+n) at array[pos:pos+n).
func (st *State) writeBytes(o *Obj, pos, n Lin, src *Term, slo Lin) {
	na := o.arr.clone()
	no := *o
	no.arr = na
	na.deps = unionDeps(na.deps, src.deps)
	if n.isK() && n.c == 0 {
		return
	}
	if o.summ {
		na.segs = nil
		na.def = topByte
		st.setObj(&no)
		return
	}
	st.killArr(na, pos, pos.add(n))
	na.segs = st.addSeg(na.segs, Seg{pos, pos.add(n), src, slo})
	st.setObj(&no)
}

func (st *State) addSeg(segs []Seg, s Seg) []Seg {
	for {
		merged := false
		for i, x := range segs {
			if x.src == s.src && st.poly.entailsEq(x.hi, s.lo) && st.poly.entailsEq(x.slo.add(x.hi.sub(x.lo)), s.slo) {
				s = Seg{x.lo, s.hi, s.src, x.slo}
				segs = append(append([]Seg(nil), segs[:i]...), segs[i+1:]...)
				merged = true
				break
			}
			if x.src == s.src && st.poly.entailsEq(s.hi, x.lo) && st.poly.entailsEq(s.slo.add(s.hi.sub(s.lo)), x.slo) {
				s = Seg{s.lo, x.hi, s.src, s.slo}
				segs = append(append([]Seg(nil), segs[:i]...), segs[i+1:]...)
				merged = true
				break
			}
		}
		if !merged {
			break
		}
	}
	return append(segs, s)
}

// regionTerm is the content of array[lo:hi).
// subSrc is part of the text of a segment; texts put together of known pieces
// are cut between them in exact runs.
func (st *State) subSrc(t *Term, lo, hi Lin) *Term {
	if st.in.exact > 0 && t.op == "cat" && lo.isK() && hi.isK() {
		return st.in.subTerm(st, t, lo, hi)
	}
	return tSub(t, lo, hi)
}

func (st *State) regionTerm(o *Obj, lo, hi Lin) *Term {
	if st.poly.entailsEq(lo, hi) {
		return tConst("")
	}
	a := o.arr
	var parts []*Term
	cur := lo
	ok := true
	for n := 0; n < 64; n++ {
		if cur.eq(hi) || st.poly.entailsEq(cur, hi) {
			return tCat(parts...)
		}
		hit := false
		for _, s := range a.segs {
			if !st.poly.entails(cur.sub(s.lo)) || !st.poly.entails(s.hi.sub(cur).addK(-1)) {
				// an empty rest is fine if the segment covers the region
				if !(st.poly.entails(cur.sub(s.lo)) && st.poly.entails(s.hi.sub(hi))) {
					continue
				}
			}
			off := s.slo.add(cur.sub(s.lo))
			if st.poly.entails(s.hi.sub(hi)) {
				parts = append(parts, st.subSrc(s.src, off, off.add(hi.sub(cur))))
				return tCat(parts...)
			}
			if st.poly.entails(hi.sub(s.hi)) {
				parts = append(parts, st.subSrc(s.src, off, off.add(s.hi.sub(cur))))
				cur = s.hi
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		for _, e := range a.ents {
			if e.idx.eq(cur) || st.poly.entailsEq(e.idx, cur) {
				if iv, is := e.v.(Int); is {
					parts = append(parts, tByte(iv.L))
					cur = cur.addK(1)
					hit = true
					break
				}
			}
		}
		if hit {
			continue
		}
		// segments that start at cur but may be empty
		for _, s := range a.segs {
			if st.poly.entailsEq(s.lo, cur) && st.poly.entails(hi.sub(s.hi)) && st.poly.entails(s.hi.sub(s.lo)) {
				parts = append(parts, st.subSrc(s.src, s.slo, s.slo.add(s.hi.sub(s.lo))))
				cur = s.hi
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		ok = false
		break
	}
	if !ok && a.def != nil && a.def.kind == 'i' && a.def.lo == a.def.hi && len(a.segs) == 0 && len(a.ents) == 0 && hi.sub(lo).isK() && hi.sub(lo).c < 64 {
		return tConst(strings.Repeat(string([]byte{byte(a.def.lo)}), int(hi.sub(lo).c)))
	}
	deps := a.deps
	t := tFresh("bytes("+a.label+")", deps)
	// its length is known
	if !st.addEQ(t.n.sub(hi.sub(lo))) {
		// contradictory state: content does not matter
		return t
	}
	if !o.summ {
		na := a.clone()
		no := *o
		no.arr = na
		st.killArr(na, lo, hi)
		na.segs = st.addSeg(na.segs, Seg{lo, hi, t, K(0)})
		st.setObj(&no)
	}
	return t
}

// ---------------------------------------------------------------- loading and storing

func (st *State) objOf(id ObjID) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if m, ok := st.in.inputs[id]; ok {
		o := st.in.makeInput(st, id, m)
		st.setObj(o)
		return o
	}
	if o, ok := st.in.globals[id]; ok {
		st.setObj(o)
		return o
	}
	return nil
}

func (st *State) load(l Loc, T types.Type) Val {
	o := st.objOf(l.obj)
	if o == nil {
		termCounter++
		return st.expand(Opaque{T: T, Label: fmt.Sprintf("lost%d", termCounter)})
	}
	path := l.path
	var v Val
	switch o.kind {
	case 'a':
		if len(path) == 0 {
			return ArrV{o.arr}
		}
		v = st.readElem(o, path[0].idx)
		path = path[1:]
	case 'v':
		v = o.v
		if x, ok := v.(SummV); ok {
			s, ct := x.S, o.T
			for _, p := range path {
				s, ct = st.subSumm(s, ct, p)
			}
			termCounter++
			return st.expandAll(st.instantiate(s, T, fmt.Sprintf("%s'%d", l.obj, termCounter), nil))
		}
	default:
		return Misc{}
	}
	for _, s := range path {
		v = st.expandAll(v)
		switch x := v.(type) {
		case Struct:
			if s.isIdx || s.field >= len(x.F) {
				return st.expand(Opaque{T: T, Label: fmt.Sprintf("odd(%s)", l.key())})
			}
			v = x.F[s.field]
		case ArrV:
			if !s.isIdx {
				return st.expand(Opaque{T: T, Label: fmt.Sprintf("odd(%s)", l.key())})
			}
			tmp := &Obj{id: "tmp", kind: 'a', arr: x.A, summ: true}
			v = st.readElem(tmp, s.idx)
		default:
			deps := valDeps(v)
			termCounter++
			return st.expand(Opaque{T: T, Label: fmt.Sprintf("part%d", termCounter), Sum: summAny(T, "", deps)})
		}
	}
	if o.summ {
		// one of many: forget identities by summarising
		if _, ok := v.(Opaque); !ok && hasSyms(v) {
			termCounter++
			v = st.instantiate(st.summarize(v), T, fmt.Sprintf("%s'%d", l.obj, termCounter), nil)
		}
	}
	return st.expandAll(v)
}

// subSumm is the part of a summary that describes a field.
func (st *State) subSumm(s *Summ, T types.Type, p Step) (*Summ, types.Type) {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if p.isIdx || p.field >= u.NumFields() {
			break
		}
		ft := u.Field(p.field).Type()
		if s != nil && s.kind == 't' && p.field < len(s.f) {
			return s.f[p.field], ft
		}
		if k := fieldKey(T, u, p.field); k != "" {
			if x, ok := st.in.invFor(k); ok && x != nil {
				return x, ft
			}
		}
		var d []string
		if s != nil {
			d = s.allDeps()
		}
		return summAny(ft, u.Field(p.field).Name(), d), ft
	case *types.Array:
		return summAny(u.Elem(), "elem", s.allDeps()), u.Elem()
	}
	return summAny(T, "odd", s.allDeps()), T
}

// weakSumm adds x to what may be at path.
func (st *State) weakSumm(s *Summ, T types.Type, path []Step, x *Summ) *Summ {
	if len(path) == 0 {
		return joinSumm(s, x, false)
	}
	u, ok := T.Underlying().(*types.Struct)
	if !ok || path[0].isIdx {
		return summAny(T, "odd", unionDeps(s.allDeps(), x.allDeps()))
	}
	r := &Summ{kind: 't'}
	for i := 0; i < u.NumFields(); i++ {
		f, ft := st.subSumm(s, T, Step{field: i})
		if i == path[0].field {
			f = st.weakSumm(f, ft, path[1:], x)
		}
		r.f = append(r.f, f)
	}
	return r
}

func hasSyms(v Val) bool {
	switch x := v.(type) {
	case Int:
		return !x.L.isK()
	case Bool:
		return x.C.op != 'c'
	case Str:
		return x.T.op != "const"
	case Struct:
		for _, f := range x.F {
			if hasSyms(f) {
				return true
			}
		}
		return false
	case Ptr:
		return x.N.t == triMaybe
	case Func:
		return x.N.t == triMaybe
	case nil:
		return false
	}
	return true
}

func (st *State) store(l Loc, v Val, T types.Type) {
	o := st.objOf(l.obj)
	if o == nil {
		return
	}
	switch o.kind {
	case 'a':
		if len(l.path) == 0 {
			if av, ok := v.(ArrV); ok {
				no := *o
				no.arr = av.A
				if o.summ {
					na := av.A.clone()
					na.def = joinSumm(joinSumm(o.arr.def, na.def, false), st.summArr(o.arr), false)
					na.ents, na.segs = nil, nil
					no.arr = na
				}
				st.setObj(&no)
			}
			return
		}
		if len(l.path) == 1 {
			st.writeElem(o, l.path[0].idx, v)
			return
		}
		old := st.readElem(o, l.path[0].idx)
		nv := st.setPath(old, l.path[1:], v)
		st.writeElem(st.objOf(l.obj), l.path[0].idx, nv)
	case 'v':
		no := *o
		if o.summ {
			no.v = SummV{st.weakSumm(st.summarize(o.v), o.T, l.path, st.summarize(v))}
		} else {
			no.v = st.setPath(o.v, l.path, v)
		}
		st.setObj(&no)
	}
}

func (st *State) setPath(v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	v = st.expandAll(v)
	switch x := v.(type) {
	case Struct:
		if path[0].isIdx || path[0].field >= len(x.F) {
			return v
		}
		f := append([]Val(nil), x.F...)
		f[path[0].field] = st.setPath(f[path[0].field], path[1:], nv)
		return Struct{f}
	case ArrV:
		if !path[0].isIdx {
			return v
		}
		a := x.A.clone()
		if len(path) > 1 {
			tmp := &Obj{id: "tmp", kind: 'a', arr: a, summ: true}
			nv = st.setPath(st.readElem(tmp, path[0].idx), path[1:], nv)
		}
		st.killArr(a, path[0].idx, path[0].idx.addK(1))
		a.ents = append(a.ents, Ent{path[0].idx, nv})
		a.deps = unionDeps(a.deps, valDeps(nv))
		return ArrV{a}
	}
	return v
}

func valDeps(v Val) []string {
	switch x := v.(type) {
	case Int:
		return linDeps(x.L)
	case Str:
		return x.T.deps
	case Misc:
		return x.Deps
	case Struct:
		var d []string
		for _, f := range x.F {
			d = unionDeps(d, valDeps(f))
		}
		return d
	case Iface:
		d := x.Deps
		for _, a := range x.Alts {
			d = unionDeps(d, valDeps(a.V))
		}
		return d
	case Opaque:
		if x.Sum != nil {
			return x.Sum.allDeps()
		}
		return []string{uncount(x.Label, "")}
	case ArrV:
		return x.A.deps
	case SummV:
		return x.S.allDeps()
	}
	return nil
}

// ---------------------------------------------------------------- expansion of unknown values

type inputInfo struct {
	T     types.Type
	kind  byte
	label string
	summ  bool
	n     Lin // arrays
	site  string
}

func intRange(b *types.Basic) (lo, hi int64, wide bool) {
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, false
	case types.Int8:
		return -128, 127, false
	case types.Uint16:
		return 0, 65535, false
	case types.Int16:
		return -32768, 32767, false
	case types.Uint32:
		return 0, 1<<32 - 1, false
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, noHi, true
	}
	return noLo, noHi, true
}

func (in *Interp) inputObj(id ObjID, i inputInfo) {
	if _, ok := in.inputs[id]; !ok {
		in.inputs[id] = i
	}
}

func (in *Interp) makeInput(st *State, id ObjID, i inputInfo) *Obj {
	o := &Obj{id: id, T: i.T, kind: i.kind, summ: i.summ, input: true, label: i.label, site: "input " + i.label}
	switch i.kind {
	case 'a':
		a := &Arr{elem: i.T, n: i.n, label: i.label, bytes: isByteType(i.T), deps: []string{uncount(i.label, "")}}
		if a.bytes && !i.summ {
			t := mkTerm(Term{op: "sym", s: "content:" + i.label, n: i.n, deps: []string{uncount(i.label, "")}})
			a.segs = []Seg{{K(0), i.n, t, K(0)}}
			a.def = topByte
		} else {
			a.def = summAny(i.T, i.label, []string{uncount(i.label, "")})
		}
		o.arr = a
	case 'm':
		m := i.T.Underlying().(*types.Map)
		o.mp = &MapC{kt: m.Key(), vt: m.Elem(), kdef: summAny(m.Key(), i.label+"{key}", []string{uncount(i.label, "") + "{key}"}), vdef: summAny(m.Elem(), i.label+"{}", []string{uncount(i.label, "")}), n: LS(lenSym(i.label))}
	case 'c':
	default:
		if at, ok := i.T.Underlying().(*types.Array); ok {
			o.kind = 'a'
			o.arr = &Arr{elem: at.Elem(), n: K(at.Len()), label: i.label, bytes: isByteType(at.Elem()), deps: []string{uncount(i.label, "")}, def: summAny(at.Elem(), i.label, []string{uncount(i.label, "")})}
			o.T = at.Elem()
			break
		}
		o.v = Opaque{T: i.T, Label: i.label}
		if i.summ {
			o.v = SummV{summAny(i.T, i.label, []string{uncount(i.label, "")})}
		}
	}
	return o
}

func hiddenStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return false
		}
	}
	return true
}

func (st *State) expandAll(v Val) Val {
	if o, ok := v.(Opaque); ok {
		return st.expand(o)
	}
	return v
}

func nsFor(label string) int {
	if n, ok := nsTab[label]; ok {
		return n
	}
	nullCounter++
	nsTab[label] = nullCounter
	return nullCounter
}

var nsTab = map[string]int{}

func fieldKey(named types.Type, st *types.Struct, i int) string {
	n := ""
	if x, ok := named.(*types.Named); ok {
		n = x.Obj().Name()
		if x.Obj().Pkg() != nil {
			n = x.Obj().Pkg().Name() + "." + n
		}
	} else {
		return ""
	}
	return n + "." + st.Field(i).Name()
}

// expand turns an unknown value into one whose shape is known. It depends on
// the label only, so that the same unknown value always gets the same symbols.
func (st *State) expand(o Opaque) Val {
	if o.Inv != "" {
		if s, ok := st.in.invFor(o.Inv); ok {
			if s == nil {
				// no such object was ever made: any value will do
			} else if s.kind != 'o' {
				return st.instantiateL(s, o.T, o.Label, nil)
			}
		}
	}
	if o.Sum != nil {
		if o.Sum.kind != 'o' {
			return st.instantiateL(o.Sum, o.T, o.Label, nil)
		}
	}
	deps := []string{uncount(o.Label, "")}
	if o.Sum != nil {
		deps = o.Sum.deps
	}
	null := Null{triMaybe, 0}
	if o.NN {
		null = nonNil
	}
	mkNull := func() Null {
		if null.t == triNon {
			return null
		}
		return Null{triMaybe, nsFor(o.Label)}
	}
	switch u := o.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{cAtom("in:" + o.Label)}
		case u.Info()&types.IsInteger != 0:
			lo, hi, wide := intRange(u)
			s := keyedSym(o.Label, lo, hi)
			in := s.info()
			in.wide = wide
			if in.deps == nil {
				in.deps = deps
			}
			return Int{LS(s)}
		case u.Info()&types.IsString != 0:
			return Str{tSym(o.Label, deps)}
		case u.Kind() == types.UnsafePointer:
			return Ptr{N: mkNull()}
		}
		return Misc{deps, o.Label}
	case *types.Pointer:
		id := ObjID("in:" + o.Label + "*")
		st.in.inputObj(id, inputInfo{T: u.Elem(), kind: 'v', label: o.Label, summ: o.Many})
		return Ptr{N: mkNull(), Locs: []Loc{{obj: id}}}
	case *types.Slice:
		n := lenSym(o.Label)
		slack := keyedSym("slack("+o.Label+")", 0, maxLen)
		if in := n.info(); in.deps == nil {
			in.deps = deps
		}
		id := ObjID("in:" + o.Label + "[]")
		cp := LS(n).add(LS(slack))
		st.in.inputObj(id, inputInfo{T: u.Elem(), kind: 'a', label: o.Label, summ: o.Many, n: cp})
		return Slice{N: mkNull(), Objs: []ObjID{id}, Off: K(0), Len: LS(n), Cap: cp}
	case *types.Map:
		id := ObjID("in:" + o.Label + "{}")
		st.in.inputObj(id, inputInfo{T: o.T, kind: 'm', label: o.Label, summ: o.Many})
		return Ptr{N: mkNull(), Locs: []Loc{{obj: id}}}
	case *types.Chan:
		id := ObjID("in:" + o.Label + "<>")
		st.in.inputObj(id, inputInfo{T: o.T, kind: 'c', label: o.Label, summ: o.Many})
		return Ptr{N: mkNull(), Locs: []Loc{{obj: id}}}
	case *types.Interface:
		return Iface{N: mkNull(), Other: true, Label: o.Label, Deps: deps}
	case *types.Signature:
		return Func{N: mkNull(), Unknown: true, Label: o.Label}
	case *types.Struct:
		if hiddenStruct(o.T) {
			return Misc{deps, o.Label}
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			x := Opaque{T: u.Field(i).Type(), Label: o.Label + "." + u.Field(i).Name(), Many: o.Many}
			x.Inv = fieldKey(o.T, u, i)
			if o.Sum != nil {
				x.Sum = summAny(x.T, x.Label, o.Sum.deps)
			}
			if ff := st.in.ff; ff != nil && x.Inv != "" {
				switch {
				case ff.zero[x.Inv]:
					f[i] = st.zero(x.T)
					continue
				case ff.counter[x.Inv]:
					x.Sum = &Summ{kind: 'i', lo: 0, hi: maxLen, label: x.Label}
				}
				x.NN = ff.nonNil[x.Inv]
			}
			f[i] = x
		}
		return Struct{f}
	case *types.Array:
		return ArrV{&Arr{elem: u.Elem(), n: K(u.Len()), label: o.Label, bytes: isByteType(u.Elem()), deps: deps, def: summAny(u.Elem(), o.Label, deps)}}
	case *types.Tuple:
		v := make([]Val, u.Len())
		for i := range v {
			v[i] = Opaque{T: u.At(i).Type(), Label: fmt.Sprintf("%s#%d", o.Label, i), Sum: o.Sum, Many: o.Many}
			if o.Sum != nil {
				op := v[i].(Opaque)
				op.Sum = summAny(u.At(i).Type(), op.Label, o.Sum.deps)
				v[i] = op
			}
		}
		return Tuple{v}
	}
	return Misc{deps, o.Label}
}

// zero is the zero value of T.
func (st *State) zero(T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{cK(false)}
		case u.Info()&types.IsInteger != 0:
			return Int{K(0)}
		case u.Info()&types.IsString != 0:
			return Str{tConst("")}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{N: isNil}
		}
		return Misc{}
	case *types.Pointer, *types.Map, *types.Chan:
		return Ptr{N: isNil}
	case *types.Slice:
		return Slice{N: isNil, Off: K(0), Len: K(0), Cap: K(0)}
	case *types.Interface:
		return Iface{N: isNil}
	case *types.Signature:
		return Func{N: isNil}
	case *types.Struct:
		if isTextBuf(T) {
			return Str{tConst("")}
		}
		if hiddenStruct(T) {
			return Misc{nil, "zero"}
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = st.zero(u.Field(i).Type())
		}
		return Struct{f}
	case *types.Array:
		return ArrV{&Arr{elem: u.Elem(), n: K(u.Len()), label: "array", bytes: isByteType(u.Elem()), def: st.summarize(st.zero(u.Elem()))}}
	}
	return Misc{}
}

// ---------------------------------------------------------------- summaries

// covered: every element is a known entry.
func (a *Arr) covered() bool {
	if !a.n.isK() || a.n.c < 1 || a.n.c > 64 || int64(len(a.ents)) < a.n.c {
		return false
	}
	have := map[int64]bool{}
	for _, e := range a.ents {
		if e.idx.isK() && e.idx.c >= 0 && e.idx.c < a.n.c {
			have[e.idx.c] = true
		}
	}
	return int64(len(have)) == a.n.c
}

func (st *State) summArr(a *Arr) *Summ {
	d := a.def
	if a.covered() && len(a.segs) == 0 {
		d = nil
	}
	for _, e := range a.ents {
		d = joinSumm(d, st.summarize(e.v), false)
	}
	if a.bytes && len(a.segs) > 0 {
		d = joinSumm(d, topByte, false)
	}
	if len(a.deps) > 0 && d != nil {
		n := *d
		n.deps = unionDeps(d.deps, a.deps)
		d = &n
	}
	return d
}

// summarize describes v without symbols.
func (st *State) summarize(v Val) *Summ {
	switch x := v.(type) {
	case nil:
		return nil
	case Int:
		s := &Summ{kind: 'i', lo: noLo, hi: noHi, deps: linDeps(x.L)}
		if x.L.isK() {
			s.lo, s.hi, s.set = x.L.c, x.L.c, []int64{x.L.c}
			return s
		}
		if y, ok := x.L.sym(); ok {
			if set, ok := st.sets[y]; ok {
				s.set = set
			}
		}
		if l, ok := st.poly.min(x.L); ok {
			s.lo = l
		}
		if h, ok := st.poly.max(x.L); ok {
			s.hi = h
		}
		return s
	case Bool:
		s := &Summ{kind: 'b', bools: 3}
		switch st.eval(x.C) {
		case 1:
			s.bools = 2
		case 0:
			s.bools = 1
		}
		return s
	case Str:
		s := &Summ{kind: 's', deps: x.T.deps}
		if x.T.op == "const" {
			s.strs = []string{x.T.s}
		} else if c, ok := st.streq[x.T.id]; ok {
			s.strs = []string{c}
		} else {
			s.strTop = true
			for _, c := range "\r\n :;=/\"," {
				if x.T.excludes(c) {
					s.excl += string(c)
				}
			}
		}
		return s
	case Ptr:
		s := &Summ{kind: 'p', null: st.isNil(x.N)}
		for _, l := range x.Locs {
			s.objs = unionObjs(s.objs, []ObjID{l.obj})
			if len(l.path) > 0 {
				s.label = "interior"
			}
		}
		return s
	case Slice:
		s := &Summ{kind: 'l', null: st.isNil(x.N), objs: unionObjs(x.Objs, nil), lhi: maxLen}
		if l, ok := st.poly.min(x.Len); ok && l > 0 {
			s.llo = l
		}
		if h, ok := st.poly.max(x.Len); ok && h < maxLen {
			s.lhi = h
		}
		if l, ok := st.poly.min(x.Cap); ok && l > 0 {
			s.clo = l
		}
		return s
	case Iface:
		s := &Summ{kind: 'f', null: st.isNil(x.N), other: x.Other, deps: x.Deps}
		for _, a := range x.Alts {
			s.alts = append(s.alts, SAlt{a.T, st.summarize(a.V)})
		}
		return s
	case Func:
		return &Summ{kind: 'c', null: st.isNil(x.N), fns: x.Fns, other: x.Unknown}
	case Struct:
		s := &Summ{kind: 't'}
		for _, f := range x.F {
			s.f = append(s.f, st.summarize(f))
		}
		return s
	case Opaque:
		if x.Inv != "" {
			if s, ok := st.in.invFor(x.Inv); ok && s != nil {
				return s
			}
		}
		if x.Sum != nil {
			return x.Sum
		}
		return summAny(x.T, x.Label, []string{uncount(x.Label, "")})
	case Misc:
		return &Summ{kind: 'm', deps: x.Deps}
	case SummV:
		return x.S
	}
	return &Summ{kind: 'm', deps: valDeps(v)}
}

func (st *State) instantiate(s *Summ, T types.Type, label string, deps []string) Val {
	return st.instantiateL(s, T, label, deps)
}

// instantiateL makes one value out of those s describes; the symbols are
// named after label.
func (st *State) instantiateL(s *Summ, T types.Type, label string, deps []string) Val {
	if s == nil {
		return st.expand(Opaque{T: T, Label: label})
	}
	deps = unionDeps(deps, s.deps)
	switch s.kind {
	case 'o':
		d := s.deps
		if len(deps) > 0 {
			d = deps
		}
		return st.expand(Opaque{T: T, Label: label, Sum: summAny(T, label, d), Many: true})
	case 'i':
		if s.lo == s.hi {
			return Int{K(s.lo)}
		}
		lo, hi := s.lo, s.hi
		if b, ok := T.Underlying().(*types.Basic); ok {
			l2, h2, _ := intRange(b)
			if l2 > lo {
				lo = l2
			}
			if h2 < hi {
				hi = h2
			}
		}
		y := keyedSym(fmt.Sprintf("%s:%d:%d", label, lo, hi), lo, hi)
		in := y.info()
		in.name = label
		in.wide = lo == noLo || hi == noHi
		if in.deps == nil {
			in.deps = deps
		}
		if s.set != nil {
			if _, ok := st.sets[y]; !ok {
				st.setSet(y, s.set)
			}
		}
		return Int{LS(y)}
	case 'b':
		switch s.bools {
		case 1:
			return Bool{cK(false)}
		case 2:
			return Bool{cK(true)}
		}
		return Bool{cAtom("in:" + label)}
	case 's':
		if !s.strTop && len(s.strs) == 1 {
			return Str{tConst(s.strs[0])}
		}
		ex := s.excl
		if !s.strTop {
			for _, c := range "\r\n :;=/\"," {
				ok := true
				for _, x := range s.strs {
					if containsRune(x, c) {
						ok = false
					}
				}
				if ok && !containsRune(ex, c) {
					ex += string(c)
				}
			}
		}
		t := tSym(label, deps)
		if t.excl == "" {
			t.excl = ex
		}
		return Str{t}
	case 'p':
		v := Ptr{N: Null{s.null, 0}}
		if s.null == triMaybe {
			v.N.ns = nsFor(label)
		}
		if s.null == triNil {
			return v
		}
		for _, o := range s.objs {
			if st.in.known(st, o) {
				v.Locs = append(v.Locs, Loc{obj: o})
			}
		}
		if len(v.Locs) == 0 || s.inObj || s.label == "interior" {
			x := st.expand(Opaque{T: T, Label: label, NN: true, Many: true}).(Ptr)
			v.Locs = append(v.Locs, x.Locs...)
		}
		return v
	case 'l':
		if s.null == triNil {
			return Slice{N: isNil, Off: K(0), Len: K(0), Cap: K(0)}
		}
		v := st.expand(Opaque{T: T, Label: label, Many: true, Sum: &Summ{kind: 'o', T: T, deps: deps}}).(Slice)
		v.N = Null{s.null, 0}
		if s.null == triMaybe {
			v.N.ns = nsFor(label)
		}
		var objs []ObjID
		for _, o := range s.objs {
			if st.in.known(st, o) {
				objs = append(objs, o)
			}
		}
		if len(objs) > 0 && !s.inObj {
			v.Objs = objs
			off := keyedSym("off("+label+")", 0, maxLen)
			v.Off = LS(off)
		}
		if s.llo == s.lhi {
			v.Cap = v.Cap.sub(v.Len).addK(s.llo)
			v.Len = K(s.llo)
		} else {
			if s.llo > 0 {
				st.addGE(v.Len.addK(-s.llo))
			}
			if s.lhi < maxLen {
				st.addGE(v.Len.neg().addK(s.lhi))
			}
		}
		if s.clo > 0 && s.clo > s.llo {
			st.addGE(v.Cap.addK(-s.clo))
		}
		return v
	case 'f':
		if s.null == triNil {
			return Iface{N: isNil}
		}
		v := Iface{N: Null{s.null, 0}, Other: s.other, Label: label, Deps: deps}
		if s.null == triMaybe {
			v.N.ns = nsFor(label)
		}
		for i, a := range s.alts {
			v.Alts = append(v.Alts, IAlt{a.T, st.instantiateL(a.S, a.T, fmt.Sprintf("%s@%d", label, i), nil)})
		}
		if len(v.Alts) == 0 {
			v.Other = true
		}
		return v
	case 'c':
		if s.null == triNil {
			return Func{N: isNil}
		}
		v := Func{N: Null{s.null, 0}, Fns: s.fns, Unknown: s.other, Label: label}
		if s.null == triMaybe {
			v.N.ns = nsFor(label)
		}
		return v
	case 't':
		u, ok := T.Underlying().(*types.Struct)
		if !ok || u.NumFields() != len(s.f) {
			return Misc{deps, label}
		}
		f := make([]Val, len(s.f))
		for i := range f {
			f[i] = st.instantiateL(s.f[i], u.Field(i).Type(), label+"."+u.Field(i).Name(), nil)
		}
		return Struct{f}
	}
	// 'm'
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
		return st.expand(Opaque{T: T, Label: label, Sum: summAny(T, label, deps)})
	}
	if _, ok := T.Underlying().(*types.Basic); !ok && !hiddenStruct(T) {
		return st.expand(Opaque{T: T, Label: label, Sum: summAny(T, label, deps), Many: true})
	}
	return Misc{deps, label}
}

// known reports whether the object exists in this analysis.
func (in *Interp) known(st *State, id ObjID) bool {
	if _, ok := st.heap[id]; ok {
		return true
	}
	if _, ok := in.inputs[id]; ok {
		return true
	}
	_, ok := in.globals[id]
	return ok
}

func sortedObjs(h map[ObjID]*Obj) []ObjID {
	out := make([]ObjID, 0, len(h))
	for k := range h {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
