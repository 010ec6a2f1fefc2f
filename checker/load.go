package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the analysed program: the library packages of /repo in SSA form.
type Prog struct {
	dir       string
	fset      *token.FileSet
	ssa       *ssa.Program
	pkgs      []*ssa.Package // library packages of the module
	byPath    map[string]*ssa.Package
	mod       string
	ff        *FieldFacts
	mods      map[*ssa.Function]*Mods
	consts    *constGlobals
	sdpDec    *sdpDecode
	sdpEnc    []*encRun
	concModel *conc
	funcs     []*ssa.Function // all library functions with bodies, incl. closures
}

const modPath = "github.com/NodeBoy2/rtspclient"

var theProg *Prog

func load(dir string) (*Prog, error) {
	if theProg != nil {
		return theProg, nil
	}
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: dir, Env: env,
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var keep []*packages.Package
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if p.Name == "main" { // demonstration programs
			continue
		}
		keep = append(keep, p)
	}
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{dir: dir, ssa: prog, fset: prog.Fset, byPath: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", keep[i].PkgPath)
		}
		P.pkgs = append(P.pkgs, sp)
		P.byPath[sp.Pkg.Path()] = sp
	}
	sort.Slice(P.pkgs, func(i, j int) bool { return P.pkgs[i].Pkg.Path() < P.pkgs[j].Pkg.Path() })
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && P.inModule(f) {
			P.funcs = append(P.funcs, f)
		}
	}
	// functions that nothing refers to are still there for the roots
	sort.Slice(P.funcs, func(i, j int) bool { return P.funcs[i].String() < P.funcs[j].String() })
	theProg = P
	return P, nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.byPath[f.Pkg.Pkg.Path()] == f.Pkg
	}
	// wrappers and bound methods
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.byPath[o.Pkg().Path()] != nil
	}
	return false
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	return strings.TrimPrefix(q.Filename, p.dir+"/") + fmt.Sprintf(":%d", q.Line)
}

// fname is a short stable name: pkg.(T).M or pkg.F, closures as F$1.
func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "rtspclient")
	return s
}

func tname(t types.Type) string {
	s := t.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "rtspclient")
	return s
}

// apiRoots are the functions an application can call: exported functions and
// the exported methods of all named types (methods of unexported types are
// included when the type is reachable through an exported function).
func (p *Prog) apiRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range p.pkgs {
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pk.Members[n].(type) {
			case *ssa.Function:
				if token.IsExported(n) && m.Blocks != nil {
					out = append(out, m)
				}
			case *ssa.Type:
				if !token.IsExported(n) {
					continue
				}
				seen := map[*ssa.Function]bool{}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := p.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						if !token.IsExported(sel.Obj().Name()) {
							continue
						}
						f := p.ssa.MethodValue(sel)
						// wrappers: analyse the declared method
						if f != nil && f.Synthetic != "" {
							if fo, ok := sel.Obj().(*types.Func); ok {
								if g := p.ssa.FuncValue(fo); g != nil {
									f = g
								}
							}
						}
						if f == nil || f.Blocks == nil || seen[f] || !p.inModule(f) {
							continue
						}
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	var uniq []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		if !seen[f] {
			seen[f] = true
			uniq = append(uniq, f)
		}
	}
	return uniq
}

// callees lists what an instruction can call inside the module (interface
// calls resolve to every module type that implements the interface), and the
// functions it mentions as values.
func (p *Prog) callees(in ssa.Instruction) []*ssa.Function {
	var out []*ssa.Function
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			out = append(out, p.implementations(cc.Method, cc.Value.Type())...)
		}
	}
	for _, op := range in.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		switch v := (*op).(type) {
		case *ssa.Function:
			out = append(out, v)
		case *ssa.MakeClosure:
			out = append(out, v.Fn.(*ssa.Function))
		}
	}
	if m, ok := in.(*ssa.MakeClosure); ok {
		out = append(out, m.Fn.(*ssa.Function))
	}
	return out
}

func (p *Prog) implementations(m *types.Func, it types.Type) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, pk := range p.pkgs {
		for _, mem := range pk.Members {
			t, ok := mem.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(ty, iface) {
					if f := p.ssa.LookupMethod(ty, m.Pkg(), m.Name()); f != nil {
						out = append(out, f)
					}
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// reachable is the set of module functions (and the outside functions they
// mention) reachable from roots.
func (p *Prog) reachable(roots []*ssa.Function) map[*ssa.Function]ssa.Instruction {
	from := map[*ssa.Function]ssa.Instruction{}
	var q []*ssa.Function
	for _, f := range roots {
		if _, ok := from[f]; !ok {
			from[f] = nil
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if f.Blocks == nil {
			continue
		}
		if !p.inModule(f) && f.Synthetic == "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, g := range p.callees(in) {
					if _, ok := from[g]; !ok {
						from[g] = in
						q = append(q, g)
					}
				}
			}
		}
	}
	return from
}

func (p *Prog) initFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range p.pkgs {
		if f := pk.Func("init"); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// path explains how f is reached.
func (p *Prog) path(from map[*ssa.Function]ssa.Instruction, f *ssa.Function) string {
	var s []string
	for n := 0; f != nil && n < 30; n++ {
		in := from[f]
		if in == nil {
			s = append(s, fname(f))
			break
		}
		s = append(s, fname(f)+" (called at "+p.pos(in.Pos())+")")
		f = in.Parent()
	}
	return strings.Join(s, " <- ")
}

// typeOf finds a named type of any loaded package.
func (p *Prog) typeOf(pkg, name string) types.Type {
	sp := p.ssa.ImportedPackage(pkg)
	if sp == nil {
		return nil
	}
	if o := sp.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}
