package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- terms

// Term is a hash-consed description of how a string (or the content of a byte
// slice) was made. Two equal terms denote equal contents within one state.
type Term struct {
	id   int
	op   string // const sym cat int fn sub
	s    string // const: the text; sym: label; fn: function name
	args []*Term
	lins []Lin // int: the number; sub: lo, hi
	n    Lin   // length
	deps []string
	excl string   // characters that cannot occur
	alts []string // possible texts of a joined string, if known
}

// RangeIter is the iterator of a range over a map or string.
type RangeIter struct {
	X   Val
	Pos Lin
	ID  int
}

var terms = map[string]*Term{}
var termList []*Term

func mkTerm(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.s)
	for _, a := range t.args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	for _, l := range t.lins {
		sb.WriteByte('|')
		sb.WriteString(l.key())
	}
	k := sb.String()
	if x, ok := terms[k]; ok {
		return x
	}
	x := &t
	x.id = len(termList)
	termList = append(termList, x)
	terms[k] = x
	return x
}

func unionDeps(ds ...[]string) []string {
	m := map[string]bool{}
	for _, d := range ds {
		for _, s := range d {
			m[s] = true
		}
	}
	if len(m) == 0 {
		return nil
	}
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func subsetDeps(a, b []string) bool {
	for _, x := range a {
		i := sort.SearchStrings(b, x)
		if i >= len(b) || b[i] != x {
			return false
		}
	}
	return true
}

func tConst(s string) *Term {
	return mkTerm(Term{op: "const", s: s, n: K(int64(len(s)))})
}

const maxLen = int64(1) << 40

func lenSym(key string) Sym { return keyedSym("len("+key+")", 0, maxLen) }

// tSym is an unknown string.
func tSym(label string, deps []string) *Term {
	t := mkTerm(Term{op: "sym", s: label, deps: deps})
	if t.n.isK() && t.n.c == 0 {
		t.n = LS(lenSym(fmt.Sprintf("t%d:%s", t.id, label)))
	}
	return t
}

var termCounter int

func tFresh(label string, deps []string) *Term {
	termCounter++
	return tSym(fmt.Sprintf("%s'%d", label, termCounter), deps)
}

func intersectChars(a, b string) string {
	var sb strings.Builder
	for _, r := range a {
		if strings.ContainsRune(b, r) {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// excludes reports whether t cannot contain c.
func (t *Term) excludes(c rune) bool {
	switch t.op {
	case "const":
		return !strings.ContainsRune(t.s, c)
	case "cat":
		for _, a := range t.args {
			if !a.excludes(c) {
				return false
			}
		}
		return true
	case "int":
		return !strings.ContainsRune("0123456789-", c)
	case "sub":
		return strings.ContainsRune(t.excl, c) || t.args[0].excludes(c)
	case "fn":
		if t.s == "hex" {
			return !strings.ContainsRune("0123456789abcdef", c)
		}
	}
	return strings.ContainsRune(t.excl, c)
}

func tCat(ts ...*Term) *Term {
	var fl []*Term
	for _, t := range ts {
		if t.op == "cat" {
			fl = append(fl, t.args...)
		} else {
			fl = append(fl, t)
		}
	}
	var out []*Term
	for _, t := range fl {
		if t.op == "const" && t.s == "" {
			continue
		}
		if n := len(out); n > 0 && t.op == "const" && out[n-1].op == "const" {
			out[n-1] = tConst(out[n-1].s + t.s)
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tConst("")
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 200 {
		var d [][]string
		for _, t := range out {
			d = append(d, t.deps)
		}
		return tFresh("longcat", unionDeps(d...))
	}
	n := K(0)
	var deps [][]string
	for _, t := range out {
		n = n.add(t.n)
		deps = append(deps, t.deps)
	}
	return mkTerm(Term{op: "cat", args: out, n: n, deps: unionDeps(deps...)})
}

func tInt(l Lin) *Term {
	if l.isK() {
		return tConst(fmt.Sprint(l.c))
	}
	t := mkTerm(Term{op: "int", lins: []Lin{l}})
	if t.n.isK() {
		t.n = LS(keyedSym(fmt.Sprintf("len(t%d)", t.id), 1, 20))
	}
	return t
}

// tFn applies a named function; length unknown unless given.
func tFn(name string, n *Lin, args ...*Term) *Term {
	var deps [][]string
	for _, a := range args {
		deps = append(deps, a.deps)
	}
	t := mkTerm(Term{op: "fn", s: name, args: args, deps: unionDeps(deps...)})
	if n != nil {
		t.n = *n
	} else if t.n.isK() {
		t.n = LS(lenSym(fmt.Sprintf("t%d", t.id)))
	}
	return t
}

func tSub(t *Term, lo, hi Lin) *Term {
	if t.op == "const" && lo.isK() && hi.isK() && 0 <= lo.c && lo.c <= hi.c && hi.c <= int64(len(t.s)) {
		return tConst(t.s[lo.c:hi.c])
	}
	if lo.isK() && lo.c == 0 && hi.eq(t.n) {
		return t
	}
	if lo.eq(hi) {
		return tConst("")
	}
	if t.op == "sub" {
		return tSub(t.args[0], t.lins[0].add(lo), t.lins[0].add(hi))
	}
	return mkTerm(Term{op: "sub", args: []*Term{t}, lins: []Lin{lo, hi}, n: hi.sub(lo), deps: t.deps})
}

func (t *Term) String() string {
	switch t.op {
	case "const":
		return fmt.Sprintf("%q", t.s)
	case "sym":
		return "<" + t.s + ">"
	case "cat":
		var s []string
		for _, a := range t.args {
			s = append(s, a.String())
		}
		return strings.Join(s, "+")
	case "int":
		return "%d(" + t.lins[0].String() + ")"
	case "sub":
		return t.args[0].String() + "[" + t.lins[0].String() + ":" + t.lins[1].String() + "]"
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.String())
	}
	return t.s + "(" + strings.Join(s, ",") + ")"
}

// ---------------------------------------------------------------- values

type Val interface{}

type tri int8

const (
	triMaybe tri = iota
	triNil
	triNon
)

func joinTri(a, b tri) tri {
	if a == b {
		return a
	}
	return triMaybe
}

// Null describes whether a reference is nil. For triMaybe, ns names the
// unknown, State.facts may know more about it.
type Null struct {
	t  tri
	ns int
}

var nullCounter int

func freshNull() Null { nullCounter++; return Null{triMaybe, nullCounter} }

var nonNil = Null{t: triNon}
var isNil = Null{t: triNil}

type ObjID string

type Step struct {
	field int // valid if !idx
	isIdx bool
	idx   Lin
}

type Loc struct {
	obj  ObjID
	path []Step
}

func (l Loc) key() string {
	var sb strings.Builder
	sb.WriteString(string(l.obj))
	for _, s := range l.path {
		if s.isIdx {
			sb.WriteString("[" + s.idx.key() + "]")
		} else {
			fmt.Fprintf(&sb, ".%d", s.field)
		}
	}
	return sb.String()
}

func (l Loc) sub(s Step) Loc {
	p := make([]Step, len(l.path)+1)
	copy(p, l.path)
	p[len(l.path)] = s
	return Loc{l.obj, p}
}

type Int struct{ L Lin }
type Bool struct{ C Cond }
type Str struct{ T *Term }
type Ptr struct { // pointers, maps, channels
	N    Null
	Locs []Loc
}
type Slice struct {
	N             Null
	Objs          []ObjID
	Off, Len, Cap Lin
}
type IAlt struct {
	T types.Type
	V Val
}
type Iface struct {
	N     Null
	Alts  []IAlt // possible dynamic types
	Other bool   // or something unknown
	Label string // where an unknown one comes from
	as    int    // identity of the choice (0: single)
	Deps  []string
}
type Struct struct{ F []Val }
type FnVal struct {
	Fn    *ssa.Function
	Binds []Val
}
type Func struct {
	N       Null
	Fns     []FnVal
	Unknown bool
	Label   string
}
type Tuple struct{ V []Val }

// Opaque is a value of the given type that is expanded when it is looked at.
type Opaque struct {
	T     types.Type
	Label string
	Inv   string // "Type.field": the field's invariant describes it
	Sum   *Summ  // or this summary does
	NN    bool   // not nil (parameters)
	Many  bool   // an element of a container: its pointee stands for many objects
}

// SummV is the content of a cell that stands for many.
type SummV struct{ S *Summ }

// ArrV is a whole array value.
type ArrV struct{ A *Arr }

// Misc stands for floats, complex numbers, structures without visible fields
// (time.Time) and everything nobody asks about.
type Misc struct {
	Deps  []string
	Label string
}

// Tag is a ghost value: a set of strings.
type Tag struct{ S string }

// ---------------------------------------------------------------- conditions

type Cond struct {
	op  byte   // 'c' constant, 'g' L>=0, 'e' L==0, 'a' atom
	neg bool   // negated ('e' and 'a')
	L   Lin    // 'g','e'
	at  string // 'a'
	val bool   // 'c'
	// refinement hook of an atom: string equality
	str *Term
	cst string
	ns  int   // atom says: reference ns is nil
	zl  []Lin // the atom implies that these are zero
}

func cK(b bool) Cond { return Cond{op: 'c', val: b} }
func cGE(l Lin) Cond { // l >= 0
	if l.isK() {
		return cK(l.c >= 0)
	}
	return Cond{op: 'g', L: l}
}
func cEQ(l Lin) Cond {
	if l.isK() {
		return cK(l.c == 0)
	}
	return Cond{op: 'e', L: l}
}
func cAtom(key string) Cond { return Cond{op: 'a', at: key} }

var atomCounter int

func cFresh(label string) Cond {
	atomCounter++
	return cAtom(fmt.Sprintf("%s'%d", label, atomCounter))
}

func (c Cond) not() Cond {
	switch c.op {
	case 'c':
		return cK(!c.val)
	case 'g':
		return Cond{op: 'g', L: c.L.neg().addK(-1)}
	}
	c.neg = !c.neg
	return c
}

func (c Cond) key() string {
	switch c.op {
	case 'c':
		return fmt.Sprint("c", c.val)
	case 'g':
		return "g" + c.L.key()
	case 'e':
		return fmt.Sprint("e", c.neg, c.L.key())
	}
	return fmt.Sprint("a", c.neg, c.at)
}

func (c Cond) String() string {
	switch c.op {
	case 'c':
		return fmt.Sprint(c.val)
	case 'g':
		return c.L.String() + ">=0"
	case 'e':
		if c.neg {
			return c.L.String() + "!=0"
		}
		return c.L.String() + "==0"
	}
	if c.neg {
		return "!" + c.at
	}
	return c.at
}

// ---------------------------------------------------------------- summaries

func showVal(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Int:
		return v.L.String()
	case Bool:
		return v.C.String()
	case Str:
		return v.T.String()
	case Ptr:
		s := "&"
		for _, l := range v.Locs {
			s += l.key() + ","
		}
		return fmt.Sprint(s, v.N)
	case Slice:
		return fmt.Sprint("slice", v.Objs, "off=", v.Off, " len=", v.Len, " cap=", v.Cap, " ", v.N)
	case Iface:
		s := ""
		for _, a := range v.Alts {
			s += a.T.String() + "=" + showVal(a.V) + ","
		}
		return fmt.Sprint("iface{", s, v.Other, v.Label, "}", v.N)
	case Struct:
		var s []string
		for _, f := range v.F {
			s = append(s, showVal(f))
		}
		return "{" + strings.Join(s, "; ") + "}"
	case Tuple:
		var s []string
		for _, f := range v.V {
			s = append(s, showVal(f))
		}
		return "(" + strings.Join(s, "; ") + ")"
	case Func:
		s := "func"
		for _, f := range v.Fns {
			s += " " + f.Fn.String()
		}
		return s + fmt.Sprint(v.N)
	case Opaque:
		return "opaque:" + v.Label
	case Tag:
		return "tag:" + v.S
	}
	return fmt.Sprintf("%T", v)
}
