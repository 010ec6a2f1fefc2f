package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// findFn finds a module function by its short name ("(*rtspclient.T).M").
func (p *Prog) findFn(name string) *ssa.Function {
	for _, f := range p.allFuncs() {
		if fname(f) == name || f.RelString(nil) == name || f.Name() == name && f.Parent() == nil {
			return f
		}
	}
	return nil
}

func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// rootState is a state about to run fn with arbitrary arguments. Pointers,
// interfaces, maps and functions of the root's own signature are what the
// caller is bound to provide: receivers are not nil.
func (in *Interp) rootState(fn *ssa.Function, nn func(p *ssa.Parameter, i int) bool) *State {
	st := newState(in)
	var args []Val
	for i, p := range fn.Params {
		o := Opaque{T: p.Type(), Label: fname(fn) + "." + p.Name()}
		if nn != nil {
			o.NN = nn(p, i)
		} else {
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
				o.NN = true
			}
		}
		args = append(args, o)
	}
	in.push(st, fn, args, nil, "root:"+fname(fn))
	return st
}

// runRoot analyses fn on its own.
func (in *Interp) runRoot(fn *ssa.Function) []outcome {
	st := in.rootState(fn, nil)
	outs := in.runFn(st)
	for _, o := range outs {
		for _, id := range sortedObjs(o.st.heap) {
			ob := o.st.heap[id]
			if ob.input {
				continue
			}
		}
		in.escape(o.st, o.vals)
		for _, id := range sortedObjs(o.st.heap) {
			if ob := o.st.heap[id]; ob.input {
				in.snapshot(o.st, ob)
			}
		}
	}
	return outs
}

func debugAI(p *Prog, name string) {
	fn := p.findFn(name)
	if fn == nil {
		fmt.Println("no function", name)
		for _, f := range p.allFuncs() {
			fmt.Println("  ", fname(f))
		}
		return
	}
	h := &Hooks{}
	bad := map[string]string{}
	h.oblige = func(in *Interp, st *State, kind string, at ssa.Instruction, ok bool, detail string) {
		if !ok {
			bad[fmt.Sprintf("%s %s: %s", p.pos(at.Pos()), kind, at)] = detail
		}
	}
	h.inline = func(in *Interp, st *State, f *ssa.Function) bool {
		return f.Pkg == nil || fn.Pkg == f.Pkg || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/sdp")
	}
	h.send = func(in *Interp, st *State, ch, v Val, at ssa.Instruction) {
		if s, ok := v.(Slice); ok {
			fmt.Println("SEND", p.pos(at.Pos()), st.isNil(s.N), in.sliceTerm(st, s))
		}
	}
	in := newInterp(p, h)
	in.debug = verbose
	if n, err := strconv.Atoi(os.Getenv("AI_MERGE")); err == nil {
		in.mergeN, in.retN = n, n
	}
	var outs []outcome
	func() {
		defer func() {
			if e := recover(); e != nil {
				if g, ok := e.(giveUp); ok {
					fmt.Println("GIVE UP:", g.why)
					return
				}
				panic(e)
			}
		}()
		outs = in.runRoot(fn)
	}()
	fmt.Printf("%d outcomes, %d steps, %d obligations, %d not proved\n", len(outs), in.steps, len(in.obl), len(bad))
	var ks []string
	for k := range bad {
		ks = append(ks, k+"  -- "+bad[k])
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("  !", k)
	}
	for _, f := range in.found {
		fmt.Println("  found:", f.rule, f.where, f.msg)
	}
	for i, o := range outs {
		var s []string
		for _, v := range o.vals {
			s = append(s, showVal(v))
		}
		fmt.Printf("out %d panicked=%v (%s)\n", i, o.panicked, strings.Join(s, " ; "))
		if verbose {
			fmt.Println("   poly:", o.st.poly, "facts", o.st.facts)
		}
	}
	ks = nil
	for k, n := range in.extern {
		if models[k] == nil {
			ks = append(ks, fmt.Sprintf("%s x%d", k, n))
		}
	}
	sort.Strings(ks)
	fmt.Println("unmodelled:", strings.Join(ks, ", "))
}
