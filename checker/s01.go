package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type sdpPanics struct {
	m     *modular
	roots map[string][]*ssa.Function // by property
}

var theSdp *sdpPanics

func sdpPanicsOf(p *Prog) *sdpPanics {
	if theSdp != nil {
		return theSdp
	}
	m, roots := newModular(p, "/sdp")
	s := &sdpPanics{m: m, roots: map[string][]*ssa.Function{}}
	for _, f := range roots {
		id := "S02"
		if decodes(f) {
			id = "S01"
		}
		s.roots[id] = append(s.roots[id], f)
	}
	theSdp = s
	m.decide(roots)
	return s
}

// hidden: an argument has a state only the package can make.
func hidden(f *ssa.Function) bool {
	for _, p := range f.Params {
		if u, ok := deref(p.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if !u.Field(i).Exported() {
					return true
				}
			}
		}
	}
	return false
}

// decodes: the function turns text or lines into values.
func decodes(f *ssa.Function) bool {
	n := f.Name()
	return strings.Contains(n, "Decode") || strings.Contains(strings.ToLower(n), "pars") || strings.Contains(n, "Scan") || strings.HasPrefix(n, "Unmarshal") ||
		f.Signature.Recv() != nil && strings.HasSuffix(deref(f.Signature.Recv().Type()).String(), ".Decoder")
}

// verdict is what was decided about the roots of one property.
type panicVerdict struct {
	bad    []*failedObl
	undec  []string
	proved int
	cases  int
	steps  int
}

func (s *sdpPanics) verdict(p *Prog, id string) (v panicVerdict) {
	want := map[string]*failedObl{}
	s.m.until = time.Now().Add(200 * time.Second)
	seen := map[string]bool{}
	for _, f := range s.roots[id] {
		r := s.m.res[f]
		switch {
		case r == nil:
			v.undec = append(v.undec, fname(f)+" was not analysed")
			continue
		case r.clean:
			v.proved++
			continue
		}
		for k, o := range r.failed {
			want[k] = o
		}
		if r.gaveUp != "" {
			want["gave up "+fname(f)] = &failedObl{kind: r.gaveUp, where: fname(f), pos: f.Pos(), fn: f}
		}
		if hidden(f) {
			continue // its arguments cannot be just anything
		}
		x := s.m.run(f, true)
		v.cases++
		v.steps += x.steps
		for _, k := range sortedKeysS(x.failed) {
			if !seen[k] {
				seen[k] = true
				x.failed[k].notes = "in a call of " + fname(f)
				v.bad = append(v.bad, x.failed[k])
			}
		}
	}
	if len(want) > 0 && id == "S01" {
		for _, c := range decCases() {
			x := exactDecode(p, c, 200000, &Hooks{})
			v.cases++
			v.steps += x.steps
			for _, k := range sortedKeysS(x.failed) {
				if !seen[k] {
					seen[k] = true
					x.failed[k].notes = "when decoding " + c.name
					v.bad = append(v.bad, x.failed[k])
				}
			}
		}
	}
	for _, k := range sortedKeysS(want) {
		if o := want[k]; !seen[k] {
			v.undec = append(v.undec, fmt.Sprintf("%s at %s (%s) not proved absent: %s", o.kind, p.pos(o.pos), o.where, o.detail))
		}
	}
	sort.Slice(v.bad, func(i, j int) bool { return v.bad[i].pos < v.bad[j].pos })
	return
}

func checkSdpPanics(id string) func(p *Prog, r *Result) {
	return func(p *Prog, r *Result) {
		s := sdpPanicsOf(p)
		v := s.verdict(p, id)
		r.require("functions applications can call", len(s.roots[id]), 1)
		// obligations met from these roots
		reach := map[*ssa.Function]bool{}
		for _, f := range s.roots[id] {
			for g := range p.reachable([]*ssa.Function{f}) {
				if s.m.in[g] {
					reach[g] = true
				}
			}
		}
		n, in := 0, 0
		kinds := map[string]int{}
		for f, x := range s.m.res {
			if !reach[f] {
				continue
			}
			n++
			for k := range x.obl {
				in++
				kinds[k[:strings.Index(k, "|")]]++
			}
		}
		for k, x := range kinds {
			r.sample(fmt.Sprintf("%s: %d obligations", k, x))
		}
		r.require("obligations", in, 20)
		r.obligations += in
		r.coverage["api_functions"] = len(s.roots[id])
		r.coverage["api_functions_proved"] = v.proved
		r.coverage["functions_analysed"] = n
		r.coverage["field_invariants"] = len(s.m.inv)
		if v.cases > 0 {
			r.coverage["exact_runs"] = v.cases
			r.coverage["exact_steps"] = v.steps
		}
		for _, b := range v.bad {
			r.report("panic", b.where, p.pos(b.pos), "%s: can fail %s: %s", b.kind, b.notes, b.instr+b.detail)
		}
		for _, u := range v.undec {
			r.report("undecided", "sdp", "-", "%s", u)
		}
	}
}

func init() {
	checks["S01"] = checkSdpPanics("S01")
	checks["S02"] = checkSdpPanics("S02")
}

// exactDecode follows the decoder on given lines, every path on its own.
func exactDecode(p *Prog, c decCase, steps int, h *Hooks) (r *modFn) {
	r = &modFn{failed: map[string]*failedObl{}, obl: map[string]bool{}, inl: map[string]bool{}}
	h.oblige = func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string) {
		k := fmt.Sprintf("%s|%s|%s", kind, p.pos(at.Pos()), at)
		r.obl[k] = true
		if !ok && !st.inexact && !imprecise(detail) && r.failed[k] == nil {
			r.failed[k] = &failedObl{kind: kind, where: fname(at.Parent()), instr: at.String(), detail: detail, pos: at.Pos(), exact: true, fn: at.Parent(), notes: c.name}
		}
	}
	in := newInterp(p, h)
	in.ff = p.fieldFacts()
	in.maxStep = steps
	in.deadline = time.Now().Add(10 * time.Second)
	in.modular = true
	in.exactCap = envInt("EXCAP", 40)
	in.exact = envInt("EXACT", 8)
	t0 := time.Now()
	defer func() {
		r.steps, r.dur = in.steps, time.Since(t0)
		for _, x := range in.found {
			if x.rule == "unbounded-recursion" {
				r.failed[x.rule+x.where] = &failedObl{kind: x.rule, where: x.where, detail: x.msg, pos: x.pos, exact: true}
			}
		}
		if e := recover(); e != nil {
			if g, ok := e.(giveUp); ok {
				r.gaveUp = g.why
				return
			}
			r.gaveUp = fmt.Sprint(e)
		}
	}()
	sts, _, err := in.startDecode(p, c, nil)
	if err != "" {
		r.gaveUp = err
		return
	}
	for _, st := range sts {
		r.exits += len(in.runFn(st))
	}
	return
}

func debugExact(p *Prog) {
	all := map[string]bool{}
	for _, c := range decCases() {
		if x := os.Getenv("CASE"); x != "" && x != c.name {
			continue
		}
		r := exactDecode(p, c, 200000, &Hooks{})
		fmt.Printf("%-20s steps=%d exits=%d obl=%d %.1fs %s\n", c.name, r.steps, r.exits, len(r.obl), r.dur.Seconds(), r.gaveUp)
		for k := range r.obl {
			all[k] = true
		}
		for _, k := range sortedKeysS(r.failed) {
			fmt.Println("   FAIL", k, r.failed[k].detail)
		}
	}
	m := sdpPanicsOf(p)
	un := map[string]bool{}
	for _, f := range m.roots["S01"] {
		un[fname(f)] = true
	}
	n := 0
	for k := range m.m.all {
		if !all[k] {
			if !strings.HasPrefix(k, "nil") {
				fmt.Println("not reached", k)
			}
		} else {
			n++
		}
	}
	fmt.Println(n)
	sort.Strings(nil)
}
