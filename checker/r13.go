package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R13: no function that ends the process is reachable.

func endsProcess(f *ssa.Function) bool {
	if f.Pkg == nil && f.Object() == nil {
		return false
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	n := f.Name()
	switch pkg {
	case "log":
		return strings.HasPrefix(n, "Fatal")
	case "os":
		return n == "Exit" || n == "Kill" || n == "Signal" && f.Signature.Recv() != nil
	case "syscall", "golang.org/x/sys/unix":
		return n == "Exit" || n == "Kill" || n == "RawSyscall" || n == "Syscall" || n == "Exec" || n == "Tgkill"
	case "runtime/debug":
		return n == "SetMaxStack" || n == "SetMaxThreads"
	case "testing":
		return strings.HasPrefix(n, "Fatal")
	}
	return false
}

func init() {
	checks["R13"] = func(p *Prog, r *Result) {
		r.explanation = "Call-graph reachability over SSA: from every exported function and method of the library packages and every package initializer (go targets, closures and function values included, interface calls resolved to all implementations) no process-terminating function (os.Exit, log.Fatal*, syscall kill/exit) may be called or mentioned."
		roots := append(p.apiRoots(), p.initFuncs()...)
		from := p.reachable(roots)
		sites, fns := 0, 0
		for f := range from {
			if f.Blocks == nil || (!p.inModule(f) && f.Synthetic == "") {
				continue
			}
			fns++
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					cs := p.callees(in)
					if _, ok := in.(ssa.CallInstruction); ok {
						sites++
					}
					for _, g := range cs {
						r.obligations++
						if endsProcess(g) {
							r.report("ends-process", fname(f)+" calls "+g.String(), p.pos(in.Pos()),
								"%s is reachable: %s", g, p.path(from, f))
						}
					}
				}
			}
		}
		r.coverage["roots"] = len(roots)
		r.coverage["call_sites"] = sites
		r.require("functions reachable", fns, 100)
		for i, f := range roots {
			if i%7 == 0 {
				r.sample("root %s", fname(f))
			}
		}
	}
}
