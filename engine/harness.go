package main

// Proving one harness: symbolic execution, Houdini pruning of the inferred
// loop invariants, then the postconditions and safety obligations.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblReport struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	By     string `json:"by"`
	SMT    string `json:"smt,omitempty"`
}

type HarnessReport struct {
	Name       string             `json:"name"`
	Pkg        string             `json:"pkg"`
	Fn         string             `json:"fn"`
	Doc        string             `json:"doc"`
	Bounded    int                `json:"bounded"`
	Native     bool               `json:"native_only"`
	Error      string             `json:"error,omitempty"`
	Obls       []OblReport        `json:"obligations"`
	Functions  []string           `json:"functions"`
	Contracts  []string           `json:"contracts"`
	Trusted    []string           `json:"trusted"`
	Invariants []string           `json:"invariants"`
	InvTried   int                `json:"invariants_tried"`
	Rounds     int                `json:"rounds"`
	Vacuity    string             `json:"vacuity"`
	WallS      float64            `json:"wall_s"`
	SolverS    map[string]float64 `json:"solver_s"`
	SolverN    map[string]int     `json:"solver_calls"`
}

func (r *HarnessReport) ok() bool {
	if r.Error != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return r.Vacuity == "reachable" && len(r.Obls) > 0
}

// runHarness executes the harness once and returns the executor.
func (p *Program) symexec(h *Harness, disabled map[string]bool, tier int) (x *Exec, err error) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				where := ""
				for _, f := range x.stack {
					where += " > " + shortFn(f.Fn)
				}
				err = fmt.Errorf("outside the supported subset: %s (in%s)", u.msg, where)
				return
			}
			err = fmt.Errorf("engine failure: %v", e)
			if debugVC {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", e, debug.Stack())
			}
		}
	}()
	x = newExec(p, h)
	x.disabled = disabled
	x.tier = tier
	st := &State{G: TTrue, Env: map[ssa.Value]Value{}, Cells: map[*Cell]*CellState{}}
	x.initGlobals(st)
	var cg []*ssa.Global
	for g := range p.changingGlobals() {
		if c := x.globals[g]; c != nil && !strings.HasSuffix(g.Name(), "$guard") {
			cg = append(cg, g)
		}
	}
	sort.Slice(cg, func(i, j int) bool { return cg[i].String() < cg[j].String() })
	for _, g := range cg { // earlier calls may have left anything there
		c := x.globals[g]
		st.Cells[c] = &CellState{V: x.havoc("global_"+g.Name(), c.T, st)}
	}
	if sf := p.spec["Files"]; sf != nil {
		t := sf.Signature.Results().At(0).Type()
		x.newCell("ghost:files", t, zeroValue(t), st)
		x.newCell("ghost:inputs", t, zeroValue(t), st)
	}
	var args []Value
	for _, pa := range h.Fn.Params {
		v := x.havocParam(pa.Name(), pa.Type(), st)
		x.params[pa.Name()] = v
		x.paramT[pa.Name()] = pa.Type()
		args = append(args, v)
	}
	s2, _ := x.callFn(h.Fn, args, nil, st, "harness")
	x.endG = s2.G
	return x, nil
}

func (x *Exec) havocParam(name string, t types.Type, st *State) Value {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, isS := pt.Elem().Underlying().(*types.Struct); isS && !opaqueTypes[typeName(pt.Elem())] {
			c := x.newCell("param:"+name, pt.Elem(), x.havoc(name, pt.Elem(), st), st)
			return &Ref{Cell: c}
		}
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		return x.havocMap(name, t, st)
	}
	return x.havoc(name, t, st)
}

// proveHarness: first with the likeliest invariant candidates, then with more.
func (p *Program) proveHarness(h *Harness, secs int) *HarnessReport {
	r := p.proveTier(h, secs, 0)
	if r.ok() || r.Error != "" {
		return r
	}
	r2 := p.proveTier(h, secs, 1)
	r2.WallS += r.WallS
	return r2
}

func (p *Program) proveTier(h *Harness, secs, tier int) *HarnessReport {
	t0 := time.Now()
	rep := &HarnessReport{Name: h.Name, Pkg: h.Pkg, Fn: h.Fn.Name(), Doc: h.Doc, Bounded: h.Bounded, Native: h.Native}
	defer func() {
		rep.WallS = time.Since(t0).Seconds()
		stats.mu.Lock()
		rep.SolverS, rep.SolverN = stats.secs, stats.calls
		stats.secs, stats.calls, stats.won = map[string]float64{}, map[string]int{}, map[string]int{}
		stats.mu.Unlock()
	}()
	disabled := map[string]bool{}
	peeled := map[string]bool{}
	var x *Exec
	for round := 1; ; round++ {
		rep.Rounds = round
		var err error
		x, err = p.symexec(h, disabled, tier)
		if err != nil {
			rep.Error = err.Error()
			if x != nil {
				rep.Functions = sortedKeys(x.used)
			}
			return rep
		}
		if debugVC {
			fmt.Fprintf(os.Stderr, "round %d: %d obligations, %d candidates, %d facts, %d steps (%.1fs)\n", round, len(x.obls), len(x.cands), len(x.facts), x.steps, time.Since(t0).Seconds())
		}
		var inv []*Obl
		for _, o := range x.obls {
			if o.Cand != "" {
				inv = append(inv, o)
			}
		}
		if len(inv) == 0 {
			break
		}
		isecs := 4
		if isecs > secs {
			isecs = secs
		}
		n := 0
		drop := func(res []*provedObl) {
			for _, r := range res {
				if r.status != "proved" && !disabled[r.o.Cand] {
					disabled[r.o.Cand] = true
					if debugVC {
						fmt.Fprintf(os.Stderr, "  dropped %s %s %s\n", r.o.Kind, r.o.Cand, r.status)
					}
					n++
				}
			}
		}
		// candidates that do not hold at the start need no further look
		var inits, rest []*Obl
		for _, o := range inv {
			if o.Kind == "inv-init" {
				inits = append(inits, o)
			} else {
				rest = append(rest, o)
			}
		}
		res := x.proveAll(inits, isecs)
		drop(res)
		// nor do folds that are wrong after one iteration
		if n == 0 {
			var first []*Obl
			for _, o := range rest {
				if o.First != nil && !peeled[o.Cand] && (strings.Contains(o.Cand, "=spec") || strings.Contains(o.Cand, "=copy")) {
					f := *o
					f.Kind = "inv-first"
					f.Guard = mkAnd(append(append([]*Term{}, o.First...), o.Guard)...)
					first = append(first, &f)
				}
			}
			for _, g := range byDepth(first) {
				r1 := x.proveAll(g, isecs)
				for _, r := range r1 {
					if r.status == "proved" {
						peeled[r.o.Cand] = true
					}
				}
				if drop(r1); n > 0 {
					break
				}
			}
		}
		if n == 0 {
			// inner loops first: what follows them uses what survives there
			for _, g := range byDepth(rest) {
				r2 := x.proveAll(g, isecs)
				res = append(res, r2...)
				if drop(r2); n > 0 {
					break
				}
			}
		}
		if n == 0 {
			for _, r := range res {
				rep.Obls = append(rep.Obls, OblReport{Name: r.o.Name, Kind: r.o.Kind, Pos: r.o.Pos, Status: r.status, By: r.by})
			}
			break
		}
		if round > 60 {
			rep.Error = "invariant inference does not stabilise"
			return rep
		}
	}
	for c := range x.cands {
		if !disabled[c] {
			rep.Invariants = append(rep.Invariants, c)
			if debugVC {
				fmt.Fprintf(os.Stderr, "  kept %s\n", c)
			}
		}
	}
	sort.Strings(rep.Invariants)
	rep.InvTried = len(x.cands)
	var goals []*Obl
	for _, o := range x.obls {
		if o.Cand == "" {
			goals = append(goals, o)
		}
	}
	for _, r := range x.proveAll(goals, secs) {
		o := OblReport{Name: r.o.Name, Kind: r.o.Kind, Pos: r.o.Pos, Status: r.status, By: r.by}
		if r.status != "proved" {
			o.SMT = r.smt
			if o.Status == "" {
				o.Status = "unknown"
			}
		}
		rep.Obls = append(rep.Obls, o)
	}
	// postconditions settled by construction
	seen := map[string]bool{}
	for _, o := range rep.Obls {
		seen[o.Name] = true
	}
	for _, n := range sortedKeys(x.ensSeen) {
		if !seen[n] {
			rep.Obls = append(rep.Obls, OblReport{Name: n, Kind: "ensures", Status: "proved", By: "symbolic evaluation"})
		}
	}
	rep.Functions = sortedKeys(x.used)
	rep.Contracts = sortedKeys(x.contr)
	rep.Trusted = sortedKeys(x.trusted)
	rep.Vacuity = x.vacuity()
	return rep
}

// byDepth groups the obligations by the nesting depth of their loop, deepest first.
func byDepth(obls []*Obl) [][]*Obl {
	m := map[int][]*Obl{}
	var ds []int
	for _, o := range obls {
		loop := strings.SplitN(o.Cand, "|", 2)[0]
		d := strings.Count(loop, "/")
		if m[d] == nil {
			ds = append(ds, d)
		}
		m[d] = append(m[d], o)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ds)))
	var r [][]*Obl
	for _, d := range ds {
		r = append(r, m[d])
	}
	return r
}

// vacuity: the end of the harness must not be provably unreachable.
func (x *Exec) vacuity() string {
	if x.endG == TFalse || x.endG == nil {
		return "unreachable"
	}
	if len(x.ensSeen) == 0 {
		return "no postcondition reached"
	}
	// only the preconditions and what the code requires of its environment
	pr := &prover{x: x, p: x.P, unfold: x.unfoldCache()}
	ok, _, rest := pr.try(append(append([]*Term{}, x.facts...), x.endG), TFalse)
	if ok {
		return "unreachable"
	}
	task := &smtTask{secs: 3, text1: pr.smtText(rest, 1, "z3")}
	if st, _ := solveSMT(task); st == "unsat" {
		return "unreachable"
	}
	return "reachable"
}

func harnessMatch(h *Harness, sel string) bool {
	return sel == "" || h.Name == sel || h.Prop == sel || strings.HasSuffix(h.Name, "."+sel) || strings.Contains(h.Name, sel)
}
