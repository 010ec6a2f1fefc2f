package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- symbols

// Sym is an integer symbol: an unknown but fixed value within one abstract
// state. Facts about symbols are linear inequalities (Poly).
type Sym int32

const (
	noLo = math.MinInt64
	noHi = math.MaxInt64
)

type symInfo struct {
	pos    *Lin // of the byte it stands for
	name   string
	lo, hi int64 // intrinsic bounds; noLo/noHi = none
	wide   bool  // may hold any value of a 64 bit type: arithmetic may wrap
	def    string
	deps   []string // provenance
}

type symTab struct {
	info    []symInfo
	isOf    map[Sym][]isByte
	bytesOf map[int][]Sym // byte symbols of a text, oldest first
	byK     map[string]Sym
	byTerm  map[Sym]int // bytes of terms
}

var syms = &symTab{byK: map[string]Sym{}, byTerm: map[Sym]int{}, bytesOf: map[int][]Sym{}, isOf: map[Sym][]isByte{}, info: make([]symInfo, 1)}

func newSym(name string, lo, hi int64) Sym {
	syms.info = append(syms.info, symInfo{name: name, lo: lo, hi: hi})
	return Sym(len(syms.info) - 1)
}

// keyedSym returns the one symbol with that key: the same key always denotes
// the same value in one state.
func keyedSym(key string, lo, hi int64) Sym {
	if s, ok := syms.byK[key]; ok {
		return s
	}
	s := newSym(key, lo, hi)
	syms.byK[key] = s
	return s
}

func (s Sym) info() *symInfo { return &syms.info[s] }

// ---------------------------------------------------------------- linear expressions

type lterm struct {
	s Sym
	k int64
}

// Lin is c + sum k*s, terms sorted by symbol.
type Lin struct {
	c int64
	t []lterm
}

type linOverflow struct{}

func addO(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r >= 0) {
		panic(linOverflow{})
	}
	return r
}

func mulO(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(linOverflow{})
	}
	return r
}

func K(c int64) Lin     { return Lin{c: c} }
func LS(s Sym) Lin      { return Lin{t: []lterm{{s, 1}}} }
func (a Lin) isK() bool { return len(a.t) == 0 }

func (a Lin) sym() (Sym, bool) {
	if a.c == 0 && len(a.t) == 1 && a.t[0].k == 1 {
		return a.t[0].s, true
	}
	return 0, false
}

func (a Lin) addScaled(b Lin, k int64) Lin {
	r := Lin{c: addO(a.c, mulO(b.c, k))}
	r.t = make([]lterm, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, lterm{b.t[j].s, mulO(b.t[j].k, k)})
			j++
		default:
			if c := addO(a.t[i].k, mulO(b.t[j].k, k)); c != 0 {
				r.t = append(r.t, lterm{a.t[i].s, c})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) add(b Lin) Lin     { return a.addScaled(b, 1) }
func (a Lin) sub(b Lin) Lin     { return a.addScaled(b, -1) }
func (a Lin) addK(c int64) Lin  { return Lin{c: addO(a.c, c), t: a.t} }
func (a Lin) neg() Lin          { return K(0).sub(a) }
func (a Lin) scale(k int64) Lin { return K(0).addScaled(a, k) }
func (a Lin) coef(s Sym) int64 {
	for _, t := range a.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func (a Lin) key() string {
	var sb strings.Builder
	sb.WriteString(strconv.FormatInt(a.c, 10))
	for _, t := range a.t {
		sb.WriteByte('+')
		sb.WriteString(strconv.FormatInt(t.k, 10))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatInt(int64(t.s), 10))
	}
	return sb.String()
}

// partKey identifies the linear part.
// hash of the terms with the given sign.
func (a Lin) hash(sign int64) uint64 {
	h := uint64(1469598103934665603)
	for _, t := range a.t {
		h ^= uint64(t.s)
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
		h ^= uint64(sign * t.k)
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
	}
	return h
}

func sameTerms(a, b Lin, sign int64) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i, t := range a.t {
		if b.t[i].s != t.s || b.t[i].k != sign*t.k {
			return false
		}
	}
	return true
}

func (a Lin) partKey() string {
	var sb strings.Builder
	for _, t := range a.t {
		sb.WriteString(strconv.FormatInt(t.k, 10))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatInt(int64(t.s), 10))
		sb.WriteByte(';')
	}
	return sb.String()
}

func (a Lin) String() string {
	var sb strings.Builder
	for _, t := range a.t {
		if t.k == 1 {
			fmt.Fprintf(&sb, "+%s#%d", t.s.info().name, t.s)
		} else {
			fmt.Fprintf(&sb, "%+d*%s#%d", t.k, t.s.info().name, t.s)
		}
	}
	if a.c != 0 || len(a.t) == 0 {
		fmt.Fprintf(&sb, "%+d", a.c)
	}
	return sb.String()
}

func (a Lin) subst(m map[Sym]Lin) Lin {
	hit := false
	for _, t := range a.t {
		if _, ok := m[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := K(a.c)
	for _, t := range a.t {
		if e, ok := m[t.s]; ok {
			r = r.addScaled(e, t.k)
		} else {
			r = r.addScaled(LS(t.s), t.k)
		}
	}
	return r
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// norm divides e>=0 by the gcd of its coefficients, tightening over integers.
func (a Lin) norm() Lin {
	var g int64
	for _, t := range a.t {
		g = gcd64(g, t.k)
	}
	if g <= 1 {
		return a
	}
	r := Lin{c: floorDiv(a.c, g), t: make([]lterm, len(a.t))}
	for i, t := range a.t {
		r.t[i] = lterm{t.s, t.k / g}
	}
	return r
}

// ---------------------------------------------------------------- polyhedron

// Poly is a conjunction of constraints e >= 0.
type Poly struct {
	cs  []Lin
	bot bool
}

func (p *Poly) clone() *Poly {
	q := &Poly{cs: make([]Lin, len(p.cs)), bot: p.bot}
	copy(q.cs, p.cs)
	return q
}

func (p *Poly) has(e Lin) bool {
	for _, c := range p.cs {
		if c.c <= e.c && len(c.t) == len(e.t) && (Lin{c: e.c, t: c.t}).eq(e) {
			return true
		}
	}
	return false
}

// add adds e >= 0 (without satisfiability check).
func (p *Poly) add(e Lin) {
	if p.bot {
		return
	}
	e = e.norm()
	if e.isK() {
		if e.c < 0 {
			p.bot = true
		}
		return
	}
	for i, c := range p.cs {
		if len(c.t) == len(e.t) && (Lin{c: e.c, t: c.t}).eq(e) {
			if e.c < c.c {
				p.cs[i] = e
			}
			return
		}
	}
	p.cs = append(p.cs, e)
}

func (p *Poly) addEq(e Lin) { p.add(e); p.add(e.neg()) }

// relevant returns the constraints connected with the symbols, plus the
// intrinsic bounds of every symbol met.
func (p *Poly) relevant(es ...Lin) []Lin {
	seen := map[Sym]bool{}
	var q []Sym
	push := func(e Lin) {
		for _, t := range e.t {
			if !seen[t.s] {
				seen[t.s] = true
				q = append(q, t.s)
			}
		}
	}
	for _, e := range es {
		push(e)
	}
	used := make([]bool, len(p.cs))
	var out []Lin
	for len(q) > 0 {
		q = q[:0]
		for i, c := range p.cs {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.t {
				if seen[t.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				push(c)
			}
		}
	}
	for s := range seen {
		in := s.info()
		if in.lo != noLo {
			out = append(out, Lin{c: addO(0, -in.lo), t: []lterm{{s, 1}}})
		}
		if in.hi != noHi {
			out = append(out, Lin{c: in.hi, t: []lterm{{s, -1}}})
		}
	}
	return out
}

const fmCap = 400

// eliminate projects cs onto the symbols for which keep holds
// (Fourier-Motzkin). Constraints are dropped when the system grows too
// large, which is an over-approximation. It reports bot=true when a
// contradiction was derived.
type symCount struct {
	s        Sym
	pos, neg int
}

func eliminate(cs []Lin, keep func(Sym) bool) (out []Lin, bot bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(linOverflow); ok {
				out, bot = nil, false
				return
			}
			panic(r)
		}
	}()
	cur := gauss(dedup(cs), keep)
	if contradicts(cur) {
		return nil, true
	}
	var cnt []symCount
	at := make(map[Sym]int32, 32)
	for {
		for _, c := range cur {
			if c.isK() && c.c < 0 {
				return nil, true
			}
		}
		cnt = cnt[:0]
		for k := range at {
			delete(at, k)
		}
		for _, c := range cur {
			for _, t := range c.t {
				i, ok := at[t.s]
				if !ok {
					i = -1
					if !keep(t.s) {
						i = int32(len(cnt))
						cnt = append(cnt, symCount{s: t.s})
					}
					at[t.s] = i
				}
				if i < 0 {
					continue
				}
				if t.k > 0 {
					cnt[i].pos++
				} else {
					cnt[i].neg++
				}
			}
		}
		best, bestCost := Sym(0), math.MaxInt
		for _, x := range cnt {
			cost := x.pos*x.neg - x.pos - x.neg
			if cost < bestCost || (cost == bestCost && x.s < best) {
				best, bestCost = x.s, cost
			}
		}
		if best == 0 {
			return cur, false
		}
		var ps, ns, rest []Lin
		for _, c := range cur {
			k := c.coef(best)
			switch {
			case k > 0:
				ps = append(ps, c)
			case k < 0:
				ns = append(ns, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(ps)*len(ns) > fmCap {
			// too large: forget about this symbol
			cur = rest
			continue
		}
		// equality: substitute exactly
		for _, a := range ps {
			for _, b := range ns {
				ka, kb := a.coef(best), -b.coef(best)
				g := gcd64(ka, kb)
				rest = append(rest, K(0).addScaled(a, kb/g).addScaled(b, ka/g).norm())
			}
		}
		cur = dedup(rest)
		if len(cur) > fmCap {
			sort.SliceStable(cur, func(i, j int) bool { return len(cur[i].t) < len(cur[j].t) })
			cur = cur[:fmCap]
		}
	}
}

// gauss uses equalities (two opposite constraints) to eliminate symbols that
// occur in them with coefficient 1 or -1.
func gauss(cur []Lin, keep func(Sym) bool) []Lin {
	for n := 0; n < 60; n++ {
		idx := make(map[uint64]int, len(cur))
		for i, c := range cur {
			idx[c.hash(1)] = i
		}
		found := false
		for _, c := range cur {
			if len(c.t) == 0 {
				continue
			}
			j, ok := idx[c.hash(-1)]
			if !ok || cur[j].c != -c.c || !sameTerms(c, cur[j], -1) {
				continue
			}
			for _, t := range c.t {
				if (t.k != 1 && t.k != -1) || keep(t.s) {
					continue
				}
				// t.s = -t.k * (c - t.k*t.s)
				e := c.addScaled(LS(t.s), -t.k).scale(-t.k)
				m := map[Sym]Lin{t.s: e}
				out := make([]Lin, 0, len(cur))
				for _, d := range cur {
					out = append(out, d.subst(m))
				}
				cur = dedup(out)
				found = true
				break
			}
			if found {
				break
			}
		}
		if !found {
			break
		}
	}
	return cur
}

// echelon is a set of equalities solved for the newest symbol of each.
type echelon struct {
	piv []Sym
	val map[Sym]Lin
}

func (p *Poly) echelon() *echelon {
	e := &echelon{val: map[Sym]Lin{}}
	idx := make(map[string]int64, len(p.cs))
	for _, c := range p.cs {
		idx[c.partKey()] = c.c
	}
	for _, c := range p.cs {
		if len(c.t) == 0 || c.t[0].k < 0 {
			continue // one of the two is enough
		}
		if k, ok := idx[c.neg().partKey()]; !ok || k != -c.c {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(linOverflow); !is {
						panic(r)
					}
				}
			}()
			d := e.reduce(c)
			best := -1
			for i, t := range d.t {
				if (t.k == 1 || t.k == -1) && (best < 0 || t.s > d.t[best].s) {
					best = i
				}
			}
			if best < 0 {
				return
			}
			t := d.t[best]
			v := d.addScaled(LS(t.s), -t.k).scale(-t.k)
			m := map[Sym]Lin{t.s: v}
			for _, s := range e.piv {
				e.val[s] = e.val[s].subst(m)
			}
			e.piv = append(e.piv, t.s)
			e.val[t.s] = v
		}()
	}
	return e
}

func (e *echelon) reduce(l Lin) Lin {
	if len(e.piv) == 0 {
		return l
	}
	if r, ok := safeSubst(l, e.val); ok {
		return r
	}
	return l
}

// contradicts propagates bounds of the symbols through the constraints.
func contradicts(cs []Lin) bool {
	type bd struct{ lo, hi int64 }
	b := map[Sym]*bd{}
	for _, c := range cs {
		if c.isK() && c.c < 0 {
			return true
		}
		for _, t := range c.t {
			if b[t.s] == nil {
				b[t.s] = &bd{noLo, noHi}
			}
		}
	}
	const big = int64(1) << 56
	for round := 0; round < 6; round++ {
		changed := false
		for _, c := range cs {
			// upper bound of the sum without one term gives a bound of that term
			inf, sum := 0, c.c
			var infT Sym
			ok := true
			for _, t := range c.t {
				var m int64
				if t.k > 0 {
					m = b[t.s].hi
					if m == noHi {
						inf++
						infT = t.s
						continue
					}
				} else {
					m = b[t.s].lo
					if m == noLo {
						inf++
						infT = t.s
						continue
					}
				}
				if m > big/1024 || m < -big/1024 || t.k > 1024 || t.k < -1024 {
					ok = false
					break
				}
				sum += t.k * m
				if sum > big || sum < -big {
					ok = false
					break
				}
			}
			if !ok || inf > 1 {
				continue
			}
			if inf == 0 && sum < 0 {
				return true
			}
			for _, t := range c.t {
				if inf == 1 && t.s != infT {
					continue
				}
				rest := sum
				x := b[t.s]
				if inf == 0 {
					if t.k > 0 {
						rest -= t.k * x.hi
					} else {
						rest -= t.k * x.lo
					}
				}
				// t.k*s + rest >= 0
				if t.k > 0 {
					lo := -floorDiv(rest, t.k)
					if x.lo == noLo || lo > x.lo {
						x.lo = lo
						changed = true
					}
				} else {
					hi := floorDiv(rest, -t.k)
					if x.hi == noHi || hi < x.hi {
						x.hi = hi
						changed = true
					}
				}
				if x.lo != noLo && x.hi != noHi && x.lo > x.hi {
					return true
				}
			}
		}
		if !changed {
			return false
		}
	}
	return false
}

func dedup(cs []Lin) []Lin {
	m := make(map[uint64]int, len(cs))
	out := make([]Lin, 0, len(cs))
	for _, c := range cs {
		c = c.norm()
		if c.isK() {
			if c.c >= 0 {
				continue
			}
			return []Lin{c}
		}
		k := c.hash(1)
		if i, ok := m[k]; ok && sameTerms(out[i], c, 1) {
			if c.c < out[i].c {
				out[i] = c
			}
			continue
		}
		m[k] = len(out)
		out = append(out, c)
	}
	return out
}

// quickLo is a cheap lower bound of e from intrinsic bounds and single-symbol
// constraints; ok=false when there is none.
func (p *Poly) quickLo(e Lin) (v int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(linOverflow); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	v = e.c
	for _, t := range e.t {
		lo, hi := p.quickBounds(t.s)
		if t.k > 0 {
			if lo == noLo {
				return 0, false
			}
			v = addO(v, mulO(lo, t.k))
		} else {
			if hi == noHi {
				return 0, false
			}
			v = addO(v, mulO(hi, t.k))
		}
	}
	return v, true
}

func (p *Poly) quickBounds(s Sym) (lo, hi int64) {
	in := s.info()
	lo, hi = in.lo, in.hi
	for _, c := range p.cs {
		if len(c.t) == 1 && c.t[0].s == s {
			if c.t[0].k == 1 && -c.c > lo {
				lo = -c.c
			}
			if c.t[0].k == -1 && c.c < hi {
				hi = c.c
			}
		}
	}
	return
}

// entails reports whether e >= 0 holds in p.
func (p *Poly) entails(e Lin) bool {
	if p.bot {
		return true
	}
	e = e.norm()
	if e.isK() {
		return e.c >= 0
	}
	if p.has(e) {
		return true
	}
	if lo, ok := p.quickLo(e); ok && lo >= 0 {
		return true
	}
	statEntail++
	return p.refutes(e.neg().addK(-1))
}

var statEntail int

// refutes reports whether p and e>=0 is unsatisfiable.
func (p *Poly) refutes(e Lin) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(linOverflow); is {
				r = false
				return
			}
			panic(x)
		}
	}()
	cs := append(p.relevant(e), e)
	_, bot := eliminate(cs, func(Sym) bool { return false })
	return bot
}

func (p *Poly) entailsEq(a, b Lin) bool {
	d := a.sub(b)
	if d.isK() {
		return d.c == 0 || p.bot
	}
	return p.entails(d) && p.entails(d.neg())
}

// min returns the greatest known lower bound of e.
func (p *Poly) min(e Lin) (v int64, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(linOverflow); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	if e.isK() {
		return e.c, true
	}
	t := Sym(0)
	cs := p.relevant(e)
	// t = e
	tl := LS(tmpSym())
	t, _ = tl.sym()
	cs = append(cs, tl.sub(e), e.sub(tl))
	out, bot := eliminate(cs, func(s Sym) bool { return s == t })
	if bot {
		return 0, false
	}
	v, ok = math.MinInt64, false
	for _, c := range out {
		if len(c.t) == 1 && c.t[0].k > 0 {
			// k*t + c >= 0 -> t >= ceil(-c/k)
			b := -floorDiv(c.c, c.t[0].k)
			if b > v {
				v, ok = b, true
			}
		}
	}
	return
}

func (p *Poly) max(e Lin) (int64, bool) {
	v, ok := p.min(e.neg())
	return -v, ok
}

var theTmp Sym

func tmpSym() Sym {
	if theTmp == 0 {
		theTmp = newSym("tmp", noLo, noHi)
	}
	return theTmp
}

func (p *Poly) unsat() bool {
	if p.bot {
		return true
	}
	if len(p.cs) == 0 {
		return false
	}
	var all []Lin
	all = append(all, p.cs...)
	cs := p.relevant(all...)
	_, bot := eliminate(cs, func(Sym) bool { return false })
	return bot
}

func (p *Poly) String() string {
	var s []string
	for _, c := range p.cs {
		s = append(s, c.String()+">=0")
	}
	return strings.Join(s, ", ")
}
