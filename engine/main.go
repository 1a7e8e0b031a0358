package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Tier struct {
	Params map[string]int
	Budget time.Duration
	Max    int64 // maximal number of paths (0 = none)
}

// Harness is one symbolic test driver of a property.
type Harness struct {
	Pkg, Fn string
	Q, T    Tier
	What    string // inputs and bounds, for the evidence
}

type Check struct {
	ID     string
	H      []Harness
	Assume []string
}

func (h *Harness) name() string { return h.Pkg + "." + h.Fn }

func (h *Harness) tier(t string) Tier {
	r := h.Q
	if t == "thorough" {
		if h.T.Budget != 0 {
			r.Budget = h.T.Budget
		} else {
			r.Budget = h.Q.Budget * 6
		}
		r.Max = h.T.Max
		p := map[string]int{}
		for k, v := range h.Q.Params {
			p[k] = v
		}
		for k, v := range h.T.Params {
			p[k] = v
		}
		r.Params = p
	}
	if r.Budget == 0 {
		r.Budget = 20 * time.Second
	}
	p := map[string]int{}
	for k, v := range r.Params {
		p[k] = v
	}
	if p["_steps"] == 0 {
		p["_steps"] = 3000000
	}
	r.Params = p
	return r
}

var (
	flagCheck   = flag.String("check", "", "property id")
	flagTier    = flag.String("tier", "", "quick or thorough")
	flagHarness = flag.String("harness", "", "run only this harness (pkg.Func)")
	flagBudget  = flag.Duration("budget", 0, "override the time budget per harness")
	flagParam   = flag.String("param", "", "override parameters: a=1,b=2")
	flagReplay  = flag.String("replay", "", "replay a recorded case natively")
	flagKeep    = flag.Bool("keepgoing", false, "do not stop at the first violation")
	flagWorkers = flag.Int("workers", 0, "number of workers")
	flagList    = flag.Bool("list", false, "list the checks")
	flagCompile = flag.Bool("compile", false, "only load the program and build the replay binary")
)

func main() {
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	flag.Parse()
	if *flagTier == "" {
		*flagTier = os.Getenv("VERIF_TIER")
		if *flagTier != "thorough" {
			*flagTier = "quick"
		}
	}
	if *flagList {
		for _, c := range checks {
			for _, h := range c.H {
				fmt.Println(c.ID, h.name(), h.What)
			}
		}
		return
	}
	work, err := os.MkdirTemp("", "symx")
	if err != nil {
		fatalf("%v", err)
	}
	os.Chmod(work, 0o755)
	code := run(work)
	os.RemoveAll(work)
	os.Exit(code)
}

func allHarnessNames(pkgs map[string]*ssa.Package) []string {
	var r []string
	seen := map[string]bool{}
	for _, c := range checks {
		for _, h := range c.H {
			if findHarness(pkgs, h) != nil && !seen[h.name()] {
				seen[h.name()] = true
				r = append(r, h.name())
			}
		}
	}
	return r
}

func findHarness(pkgs map[string]*ssa.Package, h Harness) *ssa.Function {
	p := pkgs["wiki2book/"+h.Pkg]
	if h.Pkg == "main" {
		p = pkgs["wiki2book"]
	}
	if p == nil {
		return nil
	}
	return p.Func(h.Fn)
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

type harnessReport struct {
	h        Harness
	tier     Tier
	res      *Result
	confirm  []confirmed
	spurious []string
	val      int
	mismatch []string
}

type confirmed struct {
	v     *Violation
	how   string
	known string
	file  string
}

func run(work string) int {
	var chk *Check
	for i := range checks {
		if checks[i].ID == *flagCheck {
			chk = &checks[i]
		}
	}
	if chk == nil && !*flagCompile && *flagReplay == "" && *flagHarness == "" {
		fatalf("unknown check %q", *flagCheck)
	}
	var hs []Harness
	if chk != nil {
		hs = chk.H
	}
	if *flagHarness != "" {
		hs = nil
		for _, c := range checks {
			for _, h := range c.H {
				if h.name() == *flagHarness || h.Fn == *flagHarness {
					hs = []Harness{h}
					cc := c
					chk = &cc
				}
			}
		}
		if len(hs) == 0 {
			i := strings.LastIndexByte(*flagHarness, '.')
			hs = []Harness{{Pkg: (*flagHarness)[:i], Fn: (*flagHarness)[i+1:]}}
			chk = &Check{ID: "adhoc", H: hs}
		}
	}
	sh, pkgs, dropped := load()
	for _, d := range dropped {
		logf("harness does not compile against this tree: %s", d)
	}
	logf("program loaded: %d packages", len(pkgs))
	names := allHarnessNames(pkgs)
	for _, h := range hs {
		found := false
		for _, n := range names {
			if n == h.name() {
				found = true
			}
		}
		if !found && findHarness(pkgs, h) != nil {
			names = append(names, h.name())
		}
	}
	var replayBin string
	var replayErr error
	replayReady := make(chan struct{})
	go func() {
		replayBin, replayErr = buildReplay(work, names)
		close(replayReady)
	}()
	if *flagReplay != "" || *flagCompile {
		<-replayReady
		if replayErr != nil {
			fatalf("%v", replayErr)
		}
		if *flagCompile {
			return 0
		}
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			fatalf("%v", err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fatalf("%v", err)
		}
		r := runNative(replayBin, work, &c, 20*time.Second)
		ok, how := confirm(&Violation{Kind: c.Kind, Msg: c.Msg}, r)
		for _, v := range c.Values {
			fmt.Printf("  %s = %s\n", v.N, showVal(v))
		}
		for _, o := range r.Obs {
			fmt.Printf("  observed %s = %q\n", o[0], unhex(o[1]))
		}
		fmt.Printf("%s\n%s\n", how, r.Stack)
		if ok {
			fmt.Println("REPRODUCED")
			return 1
		}
		fmt.Println("NOT REPRODUCED")
		return 0
	}
	known := loadKnown()
	nw := *flagWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	evdir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replays"), 0o755)
	var reps []*harnessReport
	bad := 0
	missing := 0
	for _, h := range hs {
		fn := findHarness(pkgs, h)
		if fn == nil {
			logf("harness %s is not available on this tree", h.name())
			missing++
			continue
		}
		t := h.tier(*flagTier)
		if *flagBudget != 0 {
			t.Budget = *flagBudget
		}
		if *flagParam != "" {
			for _, kv := range strings.Split(*flagParam, ",") {
				p := strings.SplitN(kv, "=", 2)
				n, _ := strconv.Atoi(p[1])
				t.Params[p[0]] = n
			}
		}
		hr := &harnessReport{h: h, tier: t}
		reps = append(reps, hr)
		var mu sync.Mutex
		var wg sync.WaitGroup
		seen := map[string]bool{} // confirmed
		sem := make(chan struct{}, 4)
		handle := func(v *Violation, stop func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				<-replayReady
				if replayErr != nil {
					return
				}
				mu.Lock()
				again := seen[v.Kind+"|"+v.Msg+"|"+siteOf(v.Stack)]
				mu.Unlock()
				if again {
					return
				}
				c := &Case{Harness: h.name(), Params: t.Params, Values: v.Inputs, Kind: v.Kind, Msg: v.Msg, Stack: v.Stack}
				r := runNative(replayBin, work, c, 15*time.Second)
				ok, how := confirm(v, r)
				mu.Lock()
				defer mu.Unlock()
				if !ok {
					if os.Getenv("SYMX_DEBUG") != "" {
						logf("native run: %+v", *r)
					}
					if v.Kind == "assert" || v.Kind == "panic" || v.Kind == "exit" || v.Kind == "race" {
						hr.spurious = append(hr.spurious, fmt.Sprintf("%s %s [%s] inputs %s; engine stack: %s", v.Kind, v.Msg, how, showInputs(v.Inputs), strings.ReplaceAll(v.Stack, "\n", " < ")))
					}
					return
				}
				if seen[v.Kind+"|"+v.Msg+"|"+siteOf(v.Stack)] {
					return
				}
				seen[v.Kind+"|"+v.Msg+"|"+siteOf(v.Stack)] = true
				cf := confirmed{v: v, how: how}
				cf.known = matchKnown(known, chk.ID, h.name(), v)
				if cf.known == "" {
					bad++
					b, _ := json.MarshalIndent(c, "", " ")
					cf.file = filepath.Join(evdir, "replays", fmt.Sprintf("%s-%d.json", chk.ID, bad))
					os.WriteFile(cf.file, b, 0o644)
					if !*flagKeep {
						stop()
					}
				}
				hr.confirm = append(hr.confirm, cf)
			}()
		}
		res := explore(sh, fn, h.name(), t.Params, t.Budget, t.Max, nw, seed(), handle)
		res.Pkg = h.Pkg
		hr.res = res
		<-replayReady
		if replayErr != nil {
			fatalf("%v", replayErr)
		}
		wg.Wait()
		// validate sampled paths against the native implementation
		var vw sync.WaitGroup
		vs := make(chan struct{}, runtime.NumCPU())
		for i := range res.Samples {
			s := &res.Samples[i]
			vw.Add(1)
			vs <- struct{}{}
			go func() {
				defer vw.Done()
				defer func() { <-vs }()
				r := runNative(replayBin, work, &Case{Harness: h.name(), Params: t.Params, Values: s.Inputs}, 15*time.Second)
				d := diffSample(s, r)
				mu.Lock()
				if d == "" {
					hr.val++
				} else {
					hr.mismatch = append(hr.mismatch, d+" inputs "+showInputs(s.Inputs))
				}
				mu.Unlock()
			}()
		}
		vw.Wait()
		logf("%s: %d paths (%d open), %v, outcomes %v, reached %v, z3 %d queries %.1fs, asserts %d, validated %d/%d", h.name(), res.Paths, res.Frontier, res.Wall.Round(time.Millisecond), res.Outcomes, res.Reached, res.Stats.Z3Queries, res.Stats.SolverTime.Seconds(), res.Stats.Asserts, hr.val, len(res.Samples))
		for k, n := range res.Unsupported {
			logf("   unsupported x%d: %s", n, k)
		}
		for _, c := range hr.confirm {
			logf("   %s %s: %s (%s) inputs %s\n%s", c.v.Kind, c.v.Msg, c.how, c.known, showInputs(c.v.Inputs), c.v.Stack)
		}
		for _, s := range hr.spurious {
			logf("   NOT CONFIRMED: %s", s)
		}
		for i, s := range hr.mismatch {
			if i < 5 {
				logf("   MISMATCH: %s", s)
			}
		}
		if bad > 0 && !*flagKeep {
			break
		}
	}
	cross := crossCheck(reps)
	if cross.disagree > 0 {
		logf("   MISMATCH: %d verdicts of z3 are refuted by cvc5", cross.disagree)
	}
	for _, r := range reps {
		if r.res.Stats.CrossFails > 0 {
			logf("   MISMATCH: %s: %d verdicts of the byte domains are refuted by z3", r.h.name(), r.res.Stats.CrossFails)
		}
	}
	writeEvidence(chk, reps, cross, missing, dropped, evdir)
	seenKnown := map[string]bool{}
	for _, r := range reps {
		for _, c := range r.confirm {
			if c.known != "" && !seenKnown[c.known] {
				seenKnown[c.known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, c.known)
			}
		}
	}
	code := 0
	for _, r := range reps {
		for _, c := range r.confirm {
			if c.known == "" {
				fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, c.file)
				fmt.Printf("  %s: %s %s (%s)\n  inputs: %s\n", r.h.name(), c.v.Kind, c.v.Msg, c.how, showInputs(c.v.Inputs))
				code = 1
			}
		}
	}
	if len(reps) == 0 {
		fmt.Fprintln(os.Stderr, "no harness of this check is available on this tree")
		return 2
	}
	if code == 0 {
		var p, q int64
		for _, r := range reps {
			p += r.res.Paths
			q += r.res.Stats.Z3Queries + r.res.Stats.DomQueries
		}
		fmt.Printf("%s held: %d paths, %d queries, %.1fs\n", chk.ID, p, q, time.Since(t0).Seconds())
	}
	return code
}

func unhex(s string) string {
	var b []byte
	for i := 0; i+1 < len(s); i += 2 {
		n, _ := strconv.ParseUint(s[i:i+2], 16, 8)
		b = append(b, byte(n))
	}
	return string(b)
}

func showVal(v ReplayVal) string {
	if v.K == "s" {
		return fmt.Sprintf("%q", unhex(v.V))
	}
	return v.V
}

func showInputs(in []ReplayVal) string {
	var p []string
	for _, v := range in {
		p = append(p, v.N+"="+showVal(v))
	}
	return strings.Join(p, " ")
}

func diffSample(s *Sample, r *nativeReport) string {
	if r.Desync != "" {
		return "desync: " + r.Desync
	}
	if !r.Done {
		return fmt.Sprintf("native run did not finish: exit %d timeout %v %s", r.Exit, r.Timeout, firstLine(r.Stderr))
	}
	if r.Panic != "" {
		return "native " + r.Panic + " " + strings.ReplaceAll(r.Stack, "\n", " ")
	}
	if r.Assumed {
		return "native assumption failed"
	}
	if len(r.Failed) > 0 {
		return "native assertion failed: " + strings.Join(r.Failed, "; ")
	}
	if len(s.Obs) != len(r.Obs) {
		return fmt.Sprintf("%d observations, native %d", len(s.Obs), len(r.Obs))
	}
	for i := range s.Obs {
		if s.Obs[i] != r.Obs[i] {
			return fmt.Sprintf("observation %s=%q, native %s=%q", s.Obs[i][0], unhex(s.Obs[i][1]), r.Obs[i][0], unhex(r.Obs[i][1]))
		}
	}
	return ""
}

// ---- known findings ----------------------------------------------------------------------------

type knownFinding struct {
	prop, harness, kind, site, msg, text string
}

// known_findings.txt: lines "known: property=<id> harness=<pkg.Func> kind=<kind> site=<text in the
// stack> msg=<text in the message> -- description"; "fixed:" lines suppress nothing.
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(l[len("known: "):], " -- ")
		k := knownFinding{text: text}
		for _, f := range strings.Fields(head) {
			a, v, _ := strings.Cut(f, "=")
			v = strings.ReplaceAll(v, "_", " ")
			switch a {
			case "property":
				k.prop = v
			case "harness":
				k.harness = strings.ReplaceAll(v, " ", "_")
			case "kind":
				k.kind = v
			case "site":
				k.site = strings.ReplaceAll(v, " ", "_")
			case "msg":
				k.msg = v
			}
		}
		out = append(out, k)
	}
	return out
}

func matchKnown(ks []knownFinding, prop, harness string, v *Violation) string {
	for _, k := range ks {
		if k.prop == prop && (k.harness == "" || k.harness == harness) && (k.kind == "" || k.kind == v.Kind) &&
			strings.Contains(v.Stack, k.site) && strings.Contains(v.Msg, k.msg) {
			return k.text
		}
	}
	return ""
}

// ---- cross check of solver verdicts ----------------------------------------------------------------

type crossRes struct {
	solver             string
	checked, agree     int
	disagree, noAnswer int
}

func crossCheck(reps []*harnessReport) crossRes {
	c := crossRes{solver: "cvc5"}
	if _, err := exec.LookPath("cvc5"); err != nil {
		return c
	}
	var qs []loggedQuery
	for _, r := range reps {
		l := r.res.Logged
		for i, q := range l {
			if i >= 12 {
				break
			}
			qs = append(qs, q)
		}
	}
	if len(qs) > 60 {
		qs = qs[:60]
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for _, q := range qs {
		wg.Add(1)
		sem <- struct{}{}
		go func(q loggedQuery) {
			defer wg.Done()
			defer func() { <-sem }()
			cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=5000", "-")
			cmd.Stdin = strings.NewReader(q.text)
			out, _ := cmd.Output()
			a := strings.TrimSpace(string(out))
			mu.Lock()
			defer mu.Unlock()
			c.checked++
			switch {
			case a == "sat" && q.res == sat, a == "unsat" && q.res == unsat:
				c.agree++
			case a == "sat" || a == "unsat":
				c.disagree++
			default:
				c.noAnswer++
			}
		}(q)
	}
	wg.Wait()
	return c
}

// ---- evidence ------------------------------------------------------------------------------------------

func writeEvidence(chk *Check, reps []*harnessReport, cross crossRes, missing int, dropped []string, evdir string) {
	var states, trans int64
	val := 0
	viol := 0
	samples := []any{}
	var per []any
	var st solverStats
	fset := map[string]int64{}
	complete := true
	for _, r := range reps {
		res := r.res
		states += res.Paths
		trans += res.Decisions
		val += r.val
		st.add(&res.Stats)
		for f, n := range res.Funcs {
			fset[f] += n
		}
		if !res.Complete {
			complete = false
		}
		for i, s := range res.Samples {
			if i >= 3 {
				break
			}
			o := map[string]string{}
			for _, x := range s.Obs {
				o[x[0]] = unhex(x[1])
			}
			samples = append(samples, map[string]any{"harness": r.h.name(), "inputs": showInputs(s.Inputs), "observed": o})
		}
		var vs []string
		for _, c := range r.confirm {
			if c.known == "" {
				viol++
			}
			vs = append(vs, fmt.Sprintf("%s %s: %s", c.v.Kind, c.v.Msg, showInputs(c.v.Inputs)))
		}
		uns := map[string]int64{}
		for k, n := range res.Unsupported {
			uns[k] = n
		}
		per = append(per, map[string]any{
			"harness": r.h.name(), "inputs_and_bounds": r.h.What, "params": r.tier.Params, "budget_s": r.tier.Budget.Seconds(),
			"paths": res.Paths, "open_paths": res.Frontier, "exhaustive_within_bounds": res.Complete, "outcomes": res.Outcomes,
			"reached": res.Reached, "ssa_instructions": res.Steps, "max_decisions_on_a_path": res.MaxDecs, "not_encoded": uns,
			"z3_queries": res.Stats.Z3Queries, "z3_unsat": res.Stats.Z3Unsat, "z3_sat": res.Stats.Z3Sat, "z3_unknown": res.Stats.Z3Unknown,
			"byte_domain_queries": res.Stats.DomQueries, "assertions_by_solver": res.Stats.Asserts, "assertions_constant_on_path": res.Stats.AssertConst,
			"solver_s": res.Stats.SolverTime.Seconds(), "wall_s": res.Wall.Seconds(), "validated_natively": r.val, "validation_mismatches": r.mismatch,
			"unconfirmed_counterexamples": r.spurious, "violations": vs,
		})
	}
	if len(samples) == 0 {
		samples = append(samples, "no path ended normally")
	}
	assume := append([]string{
		"the SSA form of golang.org/x/tools/go/ssa is the meaning of the source; the interpreter in /verif/engine implements it (validated by replaying sampled paths natively)",
		"verdicts of z3 (a sample is re-decided by cvc5)",
		"operating system, processes and clock are the in-memory model /verif/harness/verifrt/mem.go in the symbolic runs",
	}, chk.Assume...)
	ev := map[string]any{
		"property": chk.ID, "tier": *flagTier, "seed": seed(), "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": assume,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples, "exhaustive": complete && missing == 0,
			"explanation":         "states = symbolic paths completed (each stands for all inputs satisfying its path condition); transitions = branch decisions taken; traces validated = sampled paths whose concrete inputs were run natively with equal observations",
			"functions_encoded":   repoFuncs(fset),
			"harnesses":           per,
			"queries_discharged":  st.Z3Queries + st.DomQueries,
			"z3_queries":          st.Z3Queries,
			"solver_time_s":       st.SolverTime.Seconds(),
			"cross_check":         map[string]any{"solver": cross.solver, "checked": cross.checked, "agree": cross.agree, "disagree": cross.disagree, "no_answer": cross.noAnswer, "domain_verdicts_rechecked_by_z3": st.CrossChecks, "domain_verdicts_refuted": st.CrossFails},
			"outside_the_bounds":  outside[chk.ID] + outsideAll,
			"unavailable_harness": missing,
			"dropped":             dropped,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, chk.ID+".json"), append(b, '\n'), 0o644)
}

var _ = sort.Strings
