package main

// The registered check of one property.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	seedF := fs.Int64("seed", -1, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := *seedF
	if seed < 0 {
		seed = 1
		if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			seed = v
		}
	}
	os.Exit(runCheck(*repo, *verif, *prop, *tier, seed))
}

func runCheck(repo, verif, prop, tier string, seed int64) int {
	t0 := time.Now()
	contracts := filepath.Join(verif, "contracts")
	hs, err := contractHarnesses(contracts, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		return 2
	}
	all := hs
	var mine []nativeHarness
	for _, h := range all {
		if h.Prop == prop {
			mine = append(mine, h)
		}
	}
	var known knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known-findings.json:", err)
			return 2
		}
	}
	kf := map[string]KnownFinding{}
	for _, k := range known.Findings {
		if k.Property == prop {
			kf[k.Harness] = k
		}
	}
	secs, smokeSecs, smokeIter, searchSecs := 20, 6.0, 1500, 40.0
	if tier == "thorough" {
		secs, smokeSecs, smokeIter, searchSecs = 60, 40.0, 1000000, 90.0
	}
	tmp, err := os.MkdirTemp("", "govc-check-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	// --- proof: worker processes
	names, perr := harnessNames(contracts, prop)
	if perr != nil || len(names)+len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for", prop, perr)
		return 2
	}
	// a property with native contracts only is checked on generated inputs (bounded)
	onlyNative := len(names) == 0
	smokeSeeds := []int64{seed}
	if onlyNative {
		smokeSecs, smokeIter = smokeSecs*3, 200000
		for i := int64(1); i <= 5; i++ {
			smokeSeeds = append(smokeSeeds, seed*100+i)
		}
	}
	workers := 3
	if len(names) < workers {
		workers = len(names)
	}
	type wres struct {
		Reports []*HarnessReport
		Broken  map[string]string
		Err     string
	}
	results := make([]wres, workers)
	for _, n := range names {
		os.WriteFile(filepath.Join(tmp, strings.ReplaceAll(n, "/", "_")), nil, 0644)
	}
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for w := 0; w < workers; w++ {
		var list []string
		for i := w; i < len(names); i += workers {
			list = append(list, names[i])
		}
		wg.Add(1)
		go func(w int, list []string) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d.json", w))
			a := append([]string{"prove", "-repo", repo, "-contracts", contracts, "-secs", fmt.Sprint(secs), "-json", out, "-claim", tmp, "-exact"}, list...)
			c := exec.Command(self, a...)
			c.Env = append(os.Environ(), "GOMEMLIMIT=5GiB")
			c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			lim := 420 * time.Second
			if tier == "thorough" {
				lim = 800 * time.Second
			}
			tm := time.AfterFunc(lim, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
			o, err := c.CombinedOutput()
			tm.Stop()
			if b, e := os.ReadFile(out); e == nil {
				json.Unmarshal(b, &results[w])
			}
			if err != nil && results[w].Err == "" {
				s := string(o)
				if len(s) > 2000 {
					s = s[len(s)-2000:]
				}
				results[w].Err = fmt.Sprintf("prover process: %v %s", err, s)
			}
		}(w, list)
	}
	// --- native build meanwhile
	dict := makeDict(repo, filepath.Join(contracts, "baseline.json"))
	var nr *nativeRunner
	var nerr error
	var smoke *nativeResult
	var runnable []string
	nativeDone := make(chan bool)
	go func() {
		defer close(nativeDone)
		broken := map[string]string{}
		for tries := 0; ; tries++ {
			nr, nerr = buildNative(repo, contracts, mine, broken, dict)
			if nerr == nil || tries > 4 {
				break
			}
			// set aside contract files that do not compile with the current code
			n := len(broken)
			for _, src := range brokenIn(nerr.Error(), contracts, repo) {
				broken[src] = nerr.Error()
			}
			if len(broken) == n {
				break
			}
			nr.close()
		}
		if nerr != nil || nr == nil {
			return
		}
		for _, h := range nr.hs {
			runnable = append(runnable, h.Name)
		}
		if len(runnable) > 0 {
			smoke = nr.run(runnable, smokeSeeds, smokeSecs, smokeIter, nil)
		}
	}()
	wg.Wait()
	<-nativeDone
	if nr != nil {
		defer func() { nr.close() }()
	}

	// --- collect
	var reps []*HarnessReport
	broken := map[string]string{}
	for w := range results {
		reps = append(reps, results[w].Reports...)
		for k, v := range results[w].Broken {
			broken[k] = v
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i].Name < reps[j].Name })
	have := map[string]bool{}
	var undecided []string
	obl, dis, bounded := 0, 0, 0
	fnSet, trustSet, contrSet := map[string]bool{}, map[string]bool{}, map[string]bool{}
	by := map[string]int{}
	solver := map[string]float64{}
	var contractsOut []map[string]interface{}
	var failText strings.Builder
	for _, r := range reps {
		have[r.Name] = true
		d := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				d++
				b := o.By
				if i := strings.Index(b, ":"); i > 0 {
					b = b[:i]
				}
				by[b]++
			}
		}
		if r.Bounded > 0 {
			bounded += len(r.Obls)
		} else {
			obl += len(r.Obls)
			dis += d
		}
		for _, f := range r.Functions {
			if !strings.Contains(f, "verifspec") && !strings.Contains(f, ".Verif_") {
				fnSet[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
		}
		for _, t := range r.Trusted {
			trustSet[t] = true
		}
		for _, t := range r.Contracts {
			contrSet[t] = true
		}
		for k, v := range r.SolverS {
			solver[k] += v
		}
		contractsOut = append(contractsOut, map[string]interface{}{"contract": r.Name, "states": r.Doc, "obligations": len(r.Obls), "discharged": d, "loop_invariants": len(r.Invariants), "bounded": r.Bounded, "vacuity": r.Vacuity, "wall_s": r.WallS, "solver_s": r.SolverS})
		if !r.ok() {
			why := r.Error
			for _, o := range r.Obls {
				if o.Status != "proved" {
					why += fmt.Sprintf("; obligation [%s] %q at %s: %s %s", o.Kind, o.Name, o.Pos, o.Status, o.By)
					if o.SMT != "" && len(o.SMT) < 60000 {
						fmt.Fprintf(&failText, "\n--- verification condition of %s / %s\n%s\n", r.Name, o.Name, o.SMT)
					}
				}
			}
			if len(r.Obls) == 0 && r.Error == "" {
				why = "no obligations were generated"
			} else if r.Error == "" && r.Vacuity != "reachable" {
				why += "; vacuity: " + r.Vacuity
			}
			undecided = append(undecided, r.Name+": "+strings.TrimPrefix(why, "; "))
		}
	}
	for _, n := range names {
		if !have[n] {
			why := "the prover gave no answer"
			for f, m := range broken {
				why = "contract file " + filepath.Base(f) + " does not fit the code: " + m
			}
			for w := range results {
				if results[w].Err != "" {
					why = results[w].Err
				}
			}
			undecided = append(undecided, n+": "+why)
		}
	}
	// --- native results
	evals := 0
	var foundNew []Found
	kfSeen := map[string]Found{}
	note := func(fs []Found) {
		for _, f := range fs {
			if _, ok := kf[f.Harness]; ok {
				kfSeen[f.Harness] = f
				continue
			}
			foundNew = append(foundNew, f)
		}
	}
	if smoke != nil {
		note(smoke.found)
		for _, v := range smoke.ran {
			evals += v
		}
	}
	if nerr != nil {
		fmt.Fprintln(os.Stderr, "native evaluation unavailable:", firstLines(nerr.Error(), 6))
		if onlyNative {
			undecided = append(undecided, "native contracts: "+firstLines(nerr.Error(), 6))
		}
	}
	if len(foundNew) == 0 && len(undecided) > 0 && nr != nil && len(runnable) > 0 {
		// search for a concrete failing input, also of contracts of other properties used here
		var extra []nativeHarness
		for _, u := range undecided {
			for _, h := range all {
				if h.Prop != prop && strings.HasPrefix(u, h.Name+":") {
					extra = append(extra, h)
				}
			}
		}
		if len(extra) > 0 {
			if n2, err := buildNative(repo, contracts, append(append([]nativeHarness{}, mine...), extra...), map[string]string{}, dict); err == nil && len(n2.hs) > 0 {
				nr.close()
				nr = n2
				runnable = nil
				for _, h := range nr.hs {
					runnable = append(runnable, h.Name)
				}
			}
		}
		var sel []string
		for _, n := range runnable {
			if _, ok := kf[n]; !ok {
				sel = append(sel, n)
			}
		}
		per := searchSecs * 4 / float64(len(sel)+1)
		if per < 6 {
			per = 6
		}
		if per > searchSecs {
			per = searchSecs
		}
		var seeds []int64
		for i := int64(1); i <= 7; i++ {
			seeds = append(seeds, seed*100+i)
		}
		r := nr.run(sel, seeds, per, 10000000, nil)
		note(r.found)
		for _, v := range r.ran {
			evals += v
		}
	}
	// --- verdict
	code := 0
	violations := 0
	repDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(repDir, 0755)
	replay := filepath.Join(repDir, prop+".txt")
	os.Remove(replay)
	if len(foundNew) > 0 || len(undecided) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", prop)
		seenH := map[string]bool{}
		for _, f := range foundNew {
			if seenH[f.Harness] {
				continue
			}
			seenH[f.Harness] = true
			fmt.Fprintf(&b, "\nfailing input on the real code\n  contract: %s\n  input: %s\n  what fails: %s\n  re-run: govc replay -harness %s -seed %d -iter %d\n", f.Harness, f.Input, f.What, f.Harness, f.Seed, f.Iter)
		}
		for _, u := range undecided {
			fmt.Fprintf(&b, "\nnot discharged: %s\n", u)
		}
		b.WriteString(failText.String())
		os.WriteFile(replay, []byte(b.String()), 0644)
		suffix := ""
		if len(foundNew) == 0 {
			suffix = " no-failing-input-found"
		}
		for _, u := range undecided {
			fmt.Println("undischarged:", firstLines(u, 3))
		}
		for h := range seenH {
			fmt.Println("failing input for:", h)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
		code = 1
		violations = 1
	}
	for _, k := range sortedKF(kf) {
		if f, ok := kfSeen[k.Harness]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", prop, k.What, firstLines(f.What, 1))
		} else if nerr == nil {
			fmt.Printf("note: known finding %s no longer reproduces\n", k.Harness)
		}
	}
	// --- evidence
	assumptions := []string{
		"machine integers are treated as mathematical integers (unsigned fields keep their range); slices are sequences, nil and empty slices are identified",
		"values reached through distinct pointers of the input are distinct objects (no aliasing between input objects)",
		"strings are byte/character sequences of the solver's string theory: non-ASCII text is treated character-wise",
		"the engine itself (symbolic execution of go/ssa, invariant inference, simplifier) and the solvers z3 5.3.2 / cvc5 1.1.2",
		"termination of loops is not proved",
	}
	for _, t := range sortedKeys(trustSet) {
		assumptions = append(assumptions, "assumed model of dependency: "+t)
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis,
		"checker_cmd":              "govc (contracts/ + /repo, go/ssa weakest preconditions) with z3-new 5.3.2 and cvc5 1.1.2",
		"trusted_base":             append([]string{"go/ssa and go/packages (x/tools v0.52.0)", "engine of /verif/engine", "z3 5.3.2, cvc5 1.1.2"}, sortedKeys(trustSet)...),
		"functions_under_contract": sortedKeys(fnSet),
		"contracts_used_at_calls":  sortedKeys(contrSet),
		"contracts":                contractsOut,
		"discharged_by":            by,
		"solver_seconds":           solver,
		"bounded_obligations":      bounded,
		"native_evaluations":       evals,
		"undecided":                undecided,
	}
	level := "proof"
	if onlyNative {
		level = "other"
		rejected := 0
		if smoke != nil {
			for _, v := range smoke.rejected {
				rejected += v
			}
		}
		assumptions = []string{"bounded: nothing beyond the generated inputs is covered"}
		cov = map[string]interface{}{
			"explanation": "Bounded stand-in, not a proof: the contract is executed against the real code of /repo on generated inputs (small slices and strings, seeded random choice biased to the literals of the code); evaluations counts the executions whose inputs satisfy the preconditions, rejected those that do not.",
			"evaluations": evals, "rejected": rejected, "contracts": runnable,
		}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 0 {
		fmt.Printf("OK property=%s %d contracts, %d/%d obligations discharged, %d functions, %d native evaluations, %.0f s\n", prop, len(reps), dis, obl, len(fnSet), evals, time.Since(t0).Seconds())
	}
	return code
}

func sortedKF(m map[string]KnownFinding) []KnownFinding {
	var r []KnownFinding
	for _, v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Harness < r[j].Harness })
	return r
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, " | ")
	if len(r) > 600 {
		r = r[:600] + "..."
	}
	return r
}

// brokenIn: contract files named in compiler output.
func brokenIn(msg, contracts, repo string) []string {
	ov, _ := overlayFiles(repo, contracts)
	var out []string
	for dst, src := range ov {
		rel := strings.TrimPrefix(dst, repo+"/")
		if strings.Contains(msg, rel) || strings.Contains(msg, src) || strings.Contains(msg, strings.TrimPrefix(src, contracts+"/")) {
			out = append(out, src)
		}
	}
	return out
}

// harnessNames lists the provable harnesses of a property.
func harnessNames(contracts, prop string) ([]string, error) {
	return provable(contracts, prop)
}

func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	h := fs.String("harness", "", "")
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	iter := fs.Int("iter", -1, "")
	secs := fs.Float64("secs", 10, "")
	n := fs.Int("n", 100000, "")
	fs.Parse(args)
	contracts := filepath.Join(*verif, "contracts")
	hs, err := contractHarnesses(contracts, *prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var sel []nativeHarness
	var names []string
	for _, x := range hs {
		if *h == "" || strings.Contains(x.Name, *h) {
			sel = append(sel, x)
			names = append(names, x.Name)
		}
	}
	dict := makeDict(*repo, filepath.Join(contracts, "baseline.json"))
	nr, err := buildNative(*repo, contracts, sel, map[string]string{}, dict)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer nr.close()
	var only map[string]int
	if *iter >= 0 {
		only = map[string]int{names[0]: *iter}
	}
	r := nr.run(names, []int64{*seed}, *secs, *n, only)
	for _, f := range r.found {
		fmt.Printf("FAIL %s (seed %d, iteration %d)\n  input: %s\n  %s\n", f.Harness, f.Seed, f.Iter, f.Input, f.What)
	}
	for _, x := range names {
		fmt.Printf("%s: %d evaluated, %d outside the precondition\n", x, r.ran[x], r.rejected[x])
	}
	if r.err != "" {
		fmt.Println("error:", r.err)
	}
}
