// Command checker decides the properties of /verif/properties.jsonl from the
// source of /repo, without running it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Finding is one violated (or undecided) obligation.
type Finding struct {
	Rule  string `json:"rule"`
	Where string `json:"construct"` // function and construct, no line numbers
	Pos   string `json:"pos"`
	Msg   string `json:"msg"`
}

func (f Finding) key() string { return f.Rule + " " + f.Where }

// Result is what one check established.
type Result struct {
	findings    []Finding
	seen        map[string]bool
	obligations int
	coverage    map[string]any
	samples     []string
	assume      []string
	explanation string
}

func newResult() *Result {
	return &Result{seen: map[string]bool{}, coverage: map[string]any{}}
}

func (r *Result) report(rule, where, pos, format string, a ...any) {
	f := Finding{rule, where, pos, fmt.Sprintf(format, a...)}
	if r.seen[f.key()] {
		return
	}
	r.seen[f.key()] = true
	r.findings = append(r.findings, f)
}

func (r *Result) sample(format string, a ...any) {
	if len(r.samples) < 40 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}

// require reports vacuity: fewer instances than a rule must have.
func (r *Result) require(what string, n, min int) {
	r.coverage[what] = n
	if n < min {
		r.report("vacuous", what, "-", "%d instances of %q found, expected at least %d: the rule would hold of nothing", n, what, min)
	}
}

type checkFn func(p *Prog, r *Result)

var checks = map[string]checkFn{}

var (
	verbose  bool
	thorough bool
	repoDir  string
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	flag.StringVar(&repoDir, "repo", "/repo", "tree to analyse")
	flag.BoolVar(&verbose, "v", false, "trace")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	list := flag.Bool("list", false, "list the checks")
	ai := flag.String("ai", "", "interpret one function (debugging)")
	mod := flag.String("modular", "", "modular panic-freedom of a package (debugging)")
	debug.SetGCPercent(400)
	prof := flag.String("cpuprofile", "", "write a profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *mod != "" {
		p, err := load(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if *mod == "conc" {
			debugConc(p)
			return
		}
		if *mod == "enc" {
			debugEnc(p)
			return
		}
		if *mod == "dec" {
			debugDec(p)
			return
		}
		if *mod == "exact" {
			debugExact(p)
			return
		}
		debugModular(p, *mod)
		return
	}
	if *ai != "" {
		p, err := load(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugAI(p, *ai)
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	bad := false
	for _, id := range ids {
		if runCheck(id, !*noev) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

func runCheck(id string, evidence bool) (bad bool) {
	fn := checks[id]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	start := time.Now()
	p, err := load(repoDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load", repoDir+":", err)
		os.Exit(2)
	}
	checkDeadline = start.Add(300 * time.Second)
	dog := time.AfterFunc(650*time.Second, func() {
		fmt.Printf("UNDECIDED property=%s the analysis takes too long\n", id)
		os.Exit(0)
	})
	defer dog.Stop()
	r := newResult()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if verbose {
					debug.PrintStack()
				}
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 60 {
					st = st[:60]
				}
				r.report("undecided", "engine", "-", "the analysis could not be completed: %v\n%s", e, strings.Join(st, "\n"))
			}
		}()
		fn(p, r)
	}()
	return finish(id, r, time.Since(start), evidence)
}

// known findings: "known: property=<id> key=<rule construct> <text>"
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		i := strings.Index(l, "key=<")
		j := strings.Index(l, ">")
		if i < 0 || j < i {
			continue
		}
		m[l[i+5:j]] = strings.TrimSpace(l[j+1:])
	}
	return m
}

func finish(id string, r *Result, d time.Duration, evidence bool) bool {
	known := knownFindings(id)
	var viol []Finding
	var undec []string
	for _, f := range r.findings {
		if f.Rule == "vacuous" || f.Rule == "undecided" {
			// nothing is known to be wrong: said, not reported
			undec = append(undec, f.Where+": "+f.Msg)
			fmt.Printf("UNDECIDED property=%s %s: %s\n", id, f.Where, strings.SplitN(f.Msg, "\n", 2)[0])
			continue
		}
		if what, ok := known[f.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		viol = append(viol, f)
	}
	replay := filepath.Join(verifDir(), "evidence", "replay-"+id+".txt")
	if evidence {
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.Remove(replay)
		cov := map[string]any{}
		for k, v := range r.coverage {
			cov[k] = v
		}
		cov["explanation"] = r.explanation
		cov["obligations"] = r.obligations
		cov["discharged"] = r.obligations - len(viol)
		if len(r.samples) > 0 {
			cov["samples"] = r.samples
		}
		if len(undec) > 0 {
			cov["not_decided"] = undec
		}
		if len(viol) > 0 {
			cov["violations_found"] = viol
		}
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		tier := "quick"
		if thorough {
			tier = "thorough"
		}
		ev := map[string]any{
			"property": id, "tier": tier, "seed": seed, "level": "other",
			"coverage": cov, "wall_s": d.Seconds(), "violations": len(viol),
		}
		if len(r.assume) > 0 {
			ev["assumptions"] = r.assume
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	if len(viol) == 0 {
		fmt.Printf("ok property=%s obligations=%d wall=%.1fs\n", id, r.obligations, d.Seconds())
		return false
	}
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "property %s\nrule      %s\nconstruct %s\nposition  %s\n%s\n\n", id, f.Rule, f.Where, f.Pos, f.Msg)
	}
	fmt.Print(sb.String())
	if evidence {
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return true
}
