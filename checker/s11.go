package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// S11: scanning a text into lines and decoding lines end on every input.
//
// Every loop and every call chain of the decoding functions is followed, path
// by path, on texts and descriptions of a few symbolic parts. A loop that is
// passed again and again although the text or the lines are finite, and every
// pass decided, does not consume anything; a function that calls itself with
// the arguments it was called with does not end either.

// scanTexts makes the texts: up to three lines of every kind, with and without
// a line break at the end; F stands for any text without blanks, separators
// and control characters.
func scanTexts() (ts []string) {
	kinds := []string{"", " ", "F", "a", "a=", "=F", "a=F", "v=F\r"}
	seen := map[string]bool{}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	var ls func(pre string, n int)
	ls = func(pre string, n int) {
		add(pre)
		if n == 3 {
			return
		}
		for _, k := range kinds {
			add(pre + k)
			ls(pre+k+"\n", n+1)
		}
	}
	ls("", 0)
	add("v=0\no=F\ns=F\nt=0 0\nm=F\n")
	return
}

type scanRun struct {
	text   string
	exits  int
	steps  int
	found  []Found
	gaveUp string
	open   bool // some path was not followed to its end
}

// scanFns are the functions that take a text and lines and return lines.
func (p *Prog) scanFns() (fs []*ssa.Function) {
	for _, f := range p.apiRoots() {
		if pkgOf(f) != sdpPath || f.Signature.Recv() != nil || f.Blocks == nil {
			continue
		}
		text, lines := -1, -1
		for i, q := range f.Params {
			s, ok := q.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				text = i
			} else if _, ok := s.Elem().Underlying().(*types.Struct); ok {
				lines = i
			}
		}
		res := f.Signature.Results()
		if text < 0 || lines < 0 || len(f.Params) != 2 || res.Len() != 2 || !isErr(res.At(1).Type()) || !types.Identical(res.At(0).Type(), f.Params[lines].Type()) {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	return
}

func followScan(p *Prog, f *ssa.Function, text string, reuse bool) (r *scanRun) {
	r = &scanRun{text: text}
	in := newInterp(p, &Hooks{})
	in.ff = p.fieldFacts()
	in.maxStep = 120000
	in.deadline = time.Now().Add(10 * time.Second)
	in.modular = true
	in.exactCap = 40
	in.exact = 14
	defer func() {
		r.steps = in.steps
		r.found = append(r.found, in.found...)
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				r.gaveUp = g.why
				return
			}
			r.gaveUp = fmt.Sprint(e)
		}
	}()
	st := newState(in)
	var args []Val
	for _, q := range f.Params {
		T := q.Type().Underlying().(*types.Slice)
		if _, ok := T.Elem().Underlying().(*types.Struct); ok {
			if reuse {
				args = append(args, st.expand(Opaque{T: q.Type(), Label: "old", NN: true}))
			} else {
				args = append(args, st.zero(q.Type()))
			}
			continue
		}
		var ps []*Term
		for i, c := range text {
			if c == 'F' {
				ps = append(ps, fieldTerm(st, fmt.Sprintf("field%d", i)))
			} else {
				ps = append(ps, tConst(string(c)))
			}
		}
		t := tCat(ps...)
		a := &Arr{elem: T.Elem(), n: t.n, bytes: true, deps: t.deps, def: topByte, label: "text"}
		if text != "" {
			a.segs = []Seg{{K(0), t.n, t, K(0)}}
		}
		st.setObj(&Obj{id: "text", T: T.Elem(), kind: 'a', arr: a, site: "the text", flags: map[string]bool{"input": true}})
		args = append(args, Slice{N: nonNil, Objs: []ObjID{"text"}, Off: K(0), Len: t.n, Cap: t.n})
	}
	in.push(st, f, args, nil, "root:scan")
	for _, o := range in.runFn(st) {
		if !o.panicked {
			r.exits++
		}
	}
	return
}

func checkS11(p *Prog, r *Result) {
	r.explanation = "Every loop and recursive call of scanning and decoding is followed, path by path, on texts and descriptions made of a few symbolic parts; a loop whose passes are all decided and go on beyond the finite input, and a function calling itself with its own arguments, do not end."
	r.assume = append(r.assume, "functions of the standard library terminate")
	fs := p.scanFns()
	r.require("functions scanning a text into lines", len(fs), 1)
	texts := scanTexts()
	n, ok, steps := 0, 0, 0
	seen := map[string]bool{}
	bad := func(x Found, on string) {
		if (x.rule == "endless-loop" || x.rule == "unbounded-recursion") && !seen[x.rule+x.where] {
			seen[x.rule+x.where] = true
			r.report(x.rule, x.where, p.pos(x.pos), "%s (%s)", x.msg, on)
		}
	}
	for _, f := range fs {
		for _, t := range texts {
			for _, reuse := range []bool{false, true} {
				if reuse && strings.Count(t, "\n") > 1 {
					continue
				}
				x := followScan(p, f, t, reuse)
				n++
				steps += x.steps
				r.obligations++
				on := fmt.Sprintf("%s on the text %q", fname(f), t)
				for _, y := range x.found {
					bad(y, on)
				}
				switch {
				case x.gaveUp != "":
					r.report("undecided", fname(f), p.pos(f.Pos()), "%s: %s", on, x.gaveUp)
				case x.exits > 0:
					ok++
				}
			}
		}
	}
	r.sample("%s followed on %d texts, with and without lines to reuse", fs[0], len(texts))
	d := p.sdpDecoded()
	for _, l := range [][]*decRun{d.want, d.old, d.errs} {
		for _, x := range l {
			n++
			steps += x.steps
			r.obligations++
			for _, y := range x.loops {
				bad(y, "decoding "+x.c.name)
			}
			if len(x.exits) > 0 {
				ok++
			}
		}
	}
	// lines without a value
	for _, t := range sdpLetters {
		l := decLine{typ: t, none: true}
		for _, c := range []decCase{
			{string(t) + "= without value", []decLine{l}},
			{string(t) + "= without value and a=", []decLine{l, goodLine('a')}},
			{string(t) + "= without value after t=", []decLine{goodLine('t'), l}},
			{string(t) + "= without value after m=", []decLine{goodLine('m'), l}},
			{string(t) + "= without value after m= a=", []decLine{goodLine('m'), goodLine('a'), l}},
		} {
			x := followDecode(p, c, blankMessage)
			n++
			steps += x.steps
			r.obligations++
			for _, y := range x.loops {
				bad(y, "decoding "+c.name)
			}
			if x.gaveUp != "" {
				r.report("undecided", "sdp", "-", "decoding %s: %s", c.name, x.gaveUp)
			} else if len(x.exits) > 0 {
				ok++
			}
		}
	}
	for u := range d.und {
		r.report("undecided", "sdp", "-", "%s", u)
	}
	r.coverage["runs"] = n
	r.coverage["runs_ending"] = ok
	r.coverage["interpreted_steps"] = steps
	r.coverage["texts"] = len(texts)
	loops := 0
	var roots []*ssa.Function
	for _, f := range p.apiRoots() {
		if pkgOf(f) == sdpPath && decodes(f) {
			roots = append(roots, f)
		}
	}
	for f := range p.reachable(roots) {
		if f.Blocks != nil && p.inModule(f) {
			loops += len(newFnInfo(f).loops)
		}
	}
	r.coverage["loops_in_decoding_functions"] = loops
	r.require("runs that reach an end", ok, 60)
}

func init() {
	checks["S11"] = checkS11
}
