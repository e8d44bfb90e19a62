package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type SSAFn = ssa.Function

// ---------------------------------------------------------------- SMT text

func sortDeps(s *Sort, add func(*Sort)) {
	switch s.Kind {
	case SSeq:
		add(s.A)
	case SArray:
		add(s.A)
		add(s.B)
	case SData:
		for _, c := range s.DT.Ctors {
			for _, f := range c.Sorts {
				add(f)
			}
		}
	}
}

func (pr *prover) smtText(ts []*Term, fuel int, dialect string) string {
	native := false
	switch dialect {
	case "quant":
		native, dialect = true, "z3"
	case "cvc5quant":
		native, dialect = true, "cvc5"
	}
	// axioms: definitions of logical functions, quantifiers, ranges
	axioms := []*Term{}
	seenApp := map[int]bool{}
	seenForall := map[int]bool{}
	frontier := ts
	for f := 0; f <= fuel; f++ {
		var next []*Term
		var apps, foralls []*Term
		collect(frontier, func(t *Term) {
			if t.Op == OApp && strings.HasPrefix(t.S, "fn:") && !seenApp[t.ID] {
				apps = append(apps, t)
			}
			if t.Op == OForall && !seenForall[t.ID] {
				foralls = append(foralls, t)
			}
		})
		var gi *ground
		if len(foralls) > 0 && !native {
			gi = newGround(append(append([]*Term{}, ts...), axioms...))
		}
		for _, t := range foralls {
			if native {
				break
			}
			if hasBound(t.Args[0]) || hasBound(t.Args[1]) || strayBound(t) {
				continue
			}
			seenForall[t.ID] = true
			pr.skolem++
			sk := mkVar(fmt.Sprintf("sk!%d", pr.skolem), IntS)
			inst := func(i *Term) *Term { return substitute(t.Args[3], map[int]*Term{t.Args[2].ID: i}, map[int]*Term{}) }
			next = append(next, mkOr(t, mkAnd(mkLe(t.Args[0], sk), mkLt(sk, t.Args[1]), mkNot(inst(sk)))))
			for _, i := range append(gi.inst(t, 8), sk) {
				next = append(next, mkImplies(mkAnd(t, mkLe(t.Args[0], i), mkLt(i, t.Args[1])), inst(i)))
			}
		}
		if f < fuel {
			for _, t := range apps {
				if hasBound(t) {
					continue
				}
				seenApp[t.ID] = true
				if b := pr.body(t); b != nil && b != t {
					next = append(next, mkEq(t, b))
				}
			}
		}
		if len(next) == 0 {
			break
		}
		axioms = append(axioms, next...)
		frontier = next
	}
	all := append(append([]*Term{}, ts...), axioms...)
	// keep only conjuncts without free bound variables
	var roots []*Term
	for _, t := range all {
		if native {
			if t != TTrue && !strayBound(t) {
				roots = append(roots, t)
			}
			continue
		}
		if t != TTrue && !hasBoundTop(t) {
			roots = append(roots, t)
		}
	}
	// ranges of unsigned fields, non-negative map sizes
	rangeFor := map[int]bool{}
	collectTop(roots, func(t *Term) {
		if t.Op == OVar && knownNonneg[t.ID] && !rangeFor[t.ID] {
			rangeFor[t.ID] = true
			roots = append(roots, intern(OLe, BoolS, "", 0, mkInt(0), t))
		}
		if t.Op == OSel && !rangeFor[t.ID] {
			if m, ok := selRange[fmt.Sprintf("%s.%d", t.S, t.I)]; ok {
				rangeFor[t.ID] = true
				roots = append(roots, mkAndRaw(mkLe(mkInt(0), t), mkLe(t, mkInt(m))))
			}
		}
	})
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if dialect == "cvc5" {
		b.WriteString("(set-option :strings-exp true)\n(set-option :dt-nested-rec true)\n")
	}
	b.WriteString("(define-fun go.itoa ((x Int)) String (ite (<= 0 x) (str.from_int x) (str.++ \"-\" (str.from_int (- x)))))\n")
	// sorts
	sorts := map[*Sort]bool{}
	var order []*Sort
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if s == nil || sorts[s] {
			return
		}
		sorts[s] = true
		order = append(order, s)
		sortDeps(s, addSort)
	}
	refs := map[int]int{}
	var terms []*Term
	visit := collectTop
	if native {
		visit = collect
	}
	visit(roots, func(t *Term) {
		addSort(t.Sort)
		terms = append(terms, t)
	})
	collectTopEdges(roots, refs)
	b.WriteString(declareSorts(order))
	// symbols
	declared := map[string]bool{}
	for _, t := range terms {
		switch t.Op {
		case OVar:
			if !declared[t.S] {
				declared[t.S] = true
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", q(t.S), sortSMT(t.Sort))
			}
		case OApp:
			if !declared[t.S] {
				declared[t.S] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, sortSMT(a.Sort))
				}
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", q(t.S), strings.Join(as, " "), sortSMT(t.Sort))
			}
		case OForall:
			if native {
				continue
			}
			n := fmt.Sprintf("forall!%d", t.ID)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&b, "(declare-fun %s () Bool)\n", q(n))
			}
		}
	}
	if native {
		bound := map[int]bool{}
		collect(roots, func(t *Term) {
			if t.Op == OVar && strings.HasPrefix(t.S, "bv") {
				bound[t.ID] = true
				return
			}
			for _, a := range t.Args {
				if bound[a.ID] {
					bound[t.ID] = true
				}
			}
		})
		for id := range bound {
			refs[id] = 1
		}
	}
	names := map[int]string{}
	var pr2 func(t *Term) string
	pr2 = func(t *Term) string {
		if n, ok := names[t.ID]; ok {
			return n
		}
		if native && t.Op == OForall {
			bv := q(t.Args[2].S)
			return fmt.Sprintf("(forall ((%s Int)) (=> (and (<= %s %s) (< %s %s)) %s))", bv, pr2(t.Args[0]), bv, bv, pr2(t.Args[1]), pr2(t.Args[3]))
		}
		if a, ok := smtAtom(t); ok {
			return a
		}
		return smtNode(t, pr2, dialect)
	}
	for _, t := range terms {
		if _, ok := smtAtom(t); ok && !(native && t.Op == OForall) {
			continue
		}
		if refs[t.ID] > 1 {
			s := ""
			if native && t.Op == OForall {
				s = pr2(t)
			} else {
				s = smtNode(t, pr2, dialect)
			}
			n := q(fmt.Sprintf("t!%d", t.ID))
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, sortSMT(t.Sort), s)
			names[t.ID] = n
		}
	}
	for _, t := range terms {
		if frameOf(t) != nil && !hasBound(t) {
			fmt.Fprintf(&b, "(assert (= (seq.len %s) (seq.len %s)))\n", pr2(t), pr2(t.Args[0]))
		}
	}
	for _, t := range roots {
		fmt.Fprintf(&b, "(assert %s)\n", pr2(t))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func mkAndRaw(as ...*Term) *Term { return mkAnd(as...) }

func smtNode(t *Term, pr func(*Term) string, dialect string) string {
	if t.Op == OSeqUpdate {
		s, i, v := pr(t.Args[0]), pr(t.Args[1]), pr(t.Args[2])
		return fmt.Sprintf("(ite (and (<= 0 %s) (< %s (seq.len %s))) (seq.++ (seq.extract %s 0 %s) (seq.unit %s) (seq.extract %s (+ %s 1) (- (seq.len %s) (+ %s 1)))) %s)", i, i, s, s, i, v, s, i, s, i, s)
	}
	if t.Op == OIs && dialect == "z3" {
		// same syntax
	}
	var b strings.Builder
	b.WriteString("(" + t.head())
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(pr(a))
	}
	b.WriteByte(')')
	return b.String()
}

// collectTop visits subterms without descending below quantifiers.
func collectTop(roots []*Term, visit func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op != OForall {
			for _, a := range t.Args {
				rec(a)
			}
		}
		visit(t)
	}
	for i := 0; i < len(roots); i++ {
		rec(roots[i])
	}
}

func collectTopEdges(roots []*Term, refs map[int]int) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		refs[t.ID]++
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op != OForall {
			for _, a := range t.Args {
				rec(a)
			}
		}
	}
	for _, r := range roots {
		rec(r)
	}
}

func hasBound(t *Term) bool {
	r := false
	collect([]*Term{t}, func(s *Term) {
		if s.Op == OVar && strings.HasPrefix(s.S, "bv") {
			r = true
		}
	})
	return r
}
func hasBoundTop(t *Term) bool {
	r := false
	collectTop([]*Term{t}, func(s *Term) {
		if s.Op == OVar && strings.HasPrefix(s.S, "bv") {
			r = true
		}
	})
	return r
}

// strayBound: the body mentions a bound variable of an enclosing quantifier.
func strayBound(t *Term) bool {
	bound := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.Op == OVar && strings.HasPrefix(t.S, "bv") {
			return !bound[t.ID]
		}
		if t.Op == OForall {
			if rec(t.Args[0]) || rec(t.Args[1]) {
				return true
			}
			old := bound[t.Args[2].ID]
			bound[t.Args[2].ID] = true
			r := rec(t.Args[3])
			bound[t.Args[2].ID] = old
			return r
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func declareSorts(order []*Sort) string {
	var b strings.Builder
	var dts []*Sort
	for _, s := range order {
		if s.Kind == SUnint {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", q(s.Name))
		}
		if s.Kind == SData {
			dts = append(dts, s)
		}
	}
	// strongly connected components in dependency order
	idx := map[*Sort]int{}
	low := map[*Sort]int{}
	on := map[*Sort]bool{}
	var st []*Sort
	n := 0
	var comps [][]*Sort
	dataDeps := func(s *Sort) []*Sort {
		var out []*Sort
		seen := map[*Sort]bool{}
		var add func(x *Sort)
		add = func(x *Sort) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.Kind == SData {
				out = append(out, x)
				return
			}
			sortDeps(x, add)
		}
		sortDeps(s, add)
		return out
	}
	var strong func(s *Sort)
	strong = func(s *Sort) {
		n++
		idx[s], low[s] = n, n
		st = append(st, s)
		on[s] = true
		for _, d := range dataDeps(s) {
			if idx[d] == 0 {
				strong(d)
				if low[d] < low[s] {
					low[s] = low[d]
				}
			} else if on[d] && idx[d] < low[s] {
				low[s] = idx[d]
			}
		}
		if low[s] == idx[s] {
			var c []*Sort
			for {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				on[x] = false
				c = append(c, x)
				if x == s {
					break
				}
			}
			comps = append(comps, c)
		}
	}
	for _, s := range dts {
		if idx[s] == 0 {
			strong(s)
		}
	}
	for _, c := range comps {
		b.WriteString("(declare-datatypes (")
		for _, s := range c {
			fmt.Fprintf(&b, "(%s 0) ", q(s.Name))
		}
		b.WriteString(") (")
		for _, s := range c {
			b.WriteString("(")
			for _, k := range s.DT.Ctors {
				if len(k.Fields) == 0 {
					fmt.Fprintf(&b, "(%s) ", q(k.Name))
					continue
				}
				fmt.Fprintf(&b, "(%s", q(k.Name))
				for i, f := range k.Fields {
					fmt.Fprintf(&b, " (%s %s)", q(k.Name+"."+f), sortSMT(k.Sorts[i]))
				}
				b.WriteString(") ")
			}
			b.WriteString(") ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

// ---------------------------------------------------------------- running solvers

type solverStat struct {
	mu    sync.Mutex
	calls map[string]int
	secs  map[string]float64
	won   map[string]int
}

var stats = &solverStat{calls: map[string]int{}, secs: map[string]float64{}, won: map[string]int{}}
var solverSem = make(chan struct{}, 8)
var workDir string

func runSolver(ctx context.Context, name string, args []string, text string) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown"
	}
	t0 := time.Now()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	c.Stdin = strings.NewReader(text)
	var o bytes.Buffer
	c.Stdout = &o
	c.Stderr = &o
	c.Run()
	stats.mu.Lock()
	stats.calls[name]++
	stats.secs[name] += time.Since(t0).Seconds()
	stats.mu.Unlock()
	out := o.String()
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
		if strings.HasPrefix(l, "(error") && debugVC {
			fmt.Fprintln(os.Stderr, name, l)
		}
	}
	if strings.Contains(out, "(error") {
		return "error " + strings.SplitN(out, "\n", 2)[0]
	}
	return "unknown"
}

type smtTask struct {
	text1, text2 string // z3 dialect fuel variants
	text3        string // quantifiers left to the solver
	cvc          string
	cvcs         map[int]string
	secs         int
	graceMs      int
	strict       bool // a proof by z3 needs cvc5's confirmation
	name         string
}

// solveSMT runs the portfolio; returns status and winner. A proof by z3 counts
// only when cvc5, given the same problem and a while to answer it, does not
// come up with a model (z3's sequence solver is known to answer unsat wrongly).
func solveSMT(t *smtTask) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(t.secs+4)*time.Second)
	defer cancel()
	type res struct {
		st, by string
		fuel   int
	}
	ch := make(chan res, 8)
	n := 0
	launch := func(by string, args []string, text string, fuel int) {
		n++
		go func() { ch <- res{runSolver(ctx, by, args, text), by, fuel} }()
	}
	z3 := []string{"z3-new", "-in", fmt.Sprintf("-T:%d", t.secs)}
	cvc := []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t.secs*1000)}
	launch("z3-new", z3, t.text1, 1)
	done := map[int]string{} // cvc5's verdict per fuel
	if t.cvc != "" {
		launch("cvc5", cvc, t.cvc, 1)
	}
	if t.text2 != "" && t.text2 != t.text1 {
		launch("z3-new", z3, t.text2, 2)
	}
	if t.text3 != "" {
		launch("z3-new", z3, t.text3, 3)
	}
	win := func(by string) (string, string) {
		stats.mu.Lock()
		stats.won[by]++
		stats.mu.Unlock()
		return "unsat", by
	}
	final := "unknown"
	by := ""
	var grace <-chan time.Time
	pend := map[int]bool{} // fuels z3 has answered unsat for
	settle := func() (string, string, bool) {
		for f := range pend {
			v, ok := done[f]
			if !ok {
				continue
			}
			if v == "sat" || f == 3 && done[1] == "sat" {
				delete(pend, f)
				stats.mu.Lock()
				stats.won["z3-refuted"]++
				stats.mu.Unlock()
				continue
			}
			if debugVC {
				fmt.Fprintln(os.Stderr, "    z3, cvc5 gives up:", t.name, f, done)
			}
			if t.strict {
				delete(pend, f)
				continue
			}
			s, b := win("z3-new")
			return s, b, true
		}
		return "", "", false
	}
	for i := 0; i < n; {
		var r res
		select {
		case r = <-ch:
			i++
		case <-grace:
			if len(pend) > 0 {
				if debugVC {
					fmt.Fprintln(os.Stderr, "    z3 only:", t.name, pend, done)
				}
				return win("z3-new")
			}
			grace = nil
			continue
		}
		if r.by == "cvc5" {
			done[r.fuel] = r.st
			if r.st == "unsat" {
				return win(r.by)
			}
		} else if r.st == "unsat" {
			if t.cvc == "" {
				return win(r.by)
			}
			f := r.fuel
			pend[f] = true
			if t.cvcs[f] != "" {
				launch("cvc5", cvc, t.cvcs[f], f)
			}
			if grace == nil && !t.strict {
				grace = time.After(time.Duration(t.grace()) * time.Millisecond)
			}
		}
		if r.st == "sat" {
			final, by = "sat", r.by
		}
		if strings.HasPrefix(r.st, "error") && final == "unknown" {
			by = r.by + ": " + r.st
		}
		if s, b, ok := settle(); ok {
			return s, b
		}
	}
	if len(pend) > 0 && !t.strict {
		return win("z3-new")
	}
	return final, by
}

func (t *smtTask) grace() int {
	if t.graceMs > 0 {
		return t.graceMs
	}
	return 1500
}

// ---------------------------------------------------------------- proving obligations of one harness

type provedObl struct {
	o      *Obl
	status string
	by     string
	smt    string
	smt3   string
}

func hasForall(ts []*Term) bool {
	r := false
	collectTop(ts, func(t *Term) {
		if t.Op == OForall {
			r = true
		}
	})
	return r
}

func (x *Exec) hypsFor(o *Obl) []*Term {
	return append(append([]*Term{}, x.facts[:o.NFacts]...), o.Guard)
}

type leaf struct {
	hyps []*Term
	goal *Term
}

// leaves splits a goal into its conjuncts, skolemises universal goals and
// moves the antecedents of implications to the hypotheses.
func (pr *prover) leaves(hyps []*Term, goal *Term, budget *int) []leaf {
	*budget--
	if *budget > 0 {
		switch {
		case goal.Op == OAnd:
			var out []leaf
			h := hyps
			for _, a := range goal.Args {
				out = append(out, pr.leaves(h, a, budget)...)
				h = append(append([]*Term{}, h...), a)
			}
			return out
		case goal.Op == OForall && !strayBound(goal):
			pr.skolem++
			sk := mkVar(fmt.Sprintf("sk!%d", pr.skolem), IntS)
			h := append(append([]*Term{}, hyps...), mkLe(goal.Args[0], sk), mkLt(sk, goal.Args[1]))
			return pr.leaves(h, substitute(goal.Args[3], map[int]*Term{goal.Args[2].ID: sk}, map[int]*Term{}), budget)
		case goal.Op == OOr:
			for i, a := range goal.Args {
				if a.Op == OAnd || a.Op == OForall {
					h := append([]*Term{}, hyps...)
					for j, o := range goal.Args {
						if j != i {
							h = append(h, mkNot(o))
						}
					}
					return pr.leaves(h, a, budget)
				}
			}
		case goal.Op == ONot && goal.Args[0].Op == OOr:
			var as []*Term
			for _, a := range goal.Args[0].Args {
				as = append(as, mkNot(a))
			}
			g := mkAnd(as...)
			if g != goal {
				return pr.leaves(hyps, g, budget)
			}
		}
	}
	return []leaf{{hyps, goal}}
}

// proveAll decides a set of obligations (parallel solver runs).
func (x *Exec) proveAll(obls []*Obl, secs int) []*provedObl {
	out := make([]*provedObl, len(obls))
	var wg sync.WaitGroup
	for i, o := range obls {
		pr := &prover{x: x, p: x.P, unfold: x.unfoldCache()}
		out[i] = &provedObl{o: o}
		if mkAnd(o.Guard, mkNot(o.Cond)) == TFalse {
			out[i].status, out[i].by = "proved", "simplification"
			continue
		}
		hy := relevant(x.hypsFor(o), mkAnd(o.Guard, mkNot(o.Cond)), 3)
		t0 := time.Now()
		budget := 60
		ls := pr.leaves(hy, o.Cond, &budget)
		var tasks []*smtTask
		by := "simplification"
		for li, l := range ls {
			ok, lby, rest := pr.try(l.hyps, l.goal)
			if ok {
				if lby != "simplification" {
					by = lby
				}
				continue
			}
			if debugVC {
				fmt.Fprintf(os.Stderr, "    leaf %d/%d open: %.6000s (%d nodes)\n", li, len(ls), l.goal, pr.nodes)
				if os.Getenv("GOVC_DEBUG") == "2" {
					for _, r := range rest {
						fmt.Fprintf(os.Stderr, "        | %.9000s\n", r)
					}
				}
			}
			task := &smtTask{secs: secs, name: o.Kind + " " + o.Name + " " + o.Cand}
			if strings.Contains(o.Cand, "=spec") && secs > 2 {
				task.secs = 2
			}
			task.text1 = pr.smtText(rest, 1, "z3")
			task.cvc = pr.smtText(rest, 1, "cvc5")
			task.text2 = pr.smtText(rest, 2, "z3")
			task.cvcs = map[int]string{}
			if task.text2 != task.text1 {
				task.cvcs[2] = pr.smtText(rest, 2, "cvc5")
			}
			if o.Cand == "" {
				task.graceMs = 4000
			} else {
				task.strict = true
			}
			if hasForall(rest) {
				task.text3 = pr.smtText(rest, 1, "quant")
				task.cvcs[3] = pr.smtText(rest, 1, "cvc5quant")
			}
			if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(o.Cand+o.Name, d) {
				os.WriteFile(filepath.Join(os.TempDir(), fmt.Sprintf("govc_dump_%d_%d.smt2", i, li)), []byte("; "+o.Cand+o.Name+"\n"+task.text1), 0644)
				os.WriteFile(filepath.Join(os.TempDir(), fmt.Sprintf("govc_dump_%d_%d.cvc5", i, li)), []byte(task.cvc), 0644)
			}
			if out[i].smt == "" {
				out[i].smt, out[i].smt3 = task.text1, task.text3
			}
			tasks = append(tasks, task)
		}
		if debugVC && (len(tasks) > 0 || os.Getenv("GOVC_DEBUG") == "3") {
			fmt.Fprintf(os.Stderr, "  [%s] %s: internal %v %s (%.2fs, %d hyps, %d leaves)\n", o.Kind, o.Name, len(tasks) == 0, by, time.Since(t0).Seconds(), len(hy), len(ls))
		}
		if len(tasks) == 0 {
			out[i].status, out[i].by = "proved", by
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			bys := map[string]bool{}
			for _, task := range tasks {
				st, by := solveSMT(task)
				if st != "unsat" {
					out[i].status, out[i].by = st, by
					out[i].smt, out[i].smt3 = task.text1, task.text3
					return
				}
				bys[by] = true
			}
			out[i].status, out[i].by = "proved", strings.Join(sortedKeys(bys), "+")
		}(i)
	}
	wg.Wait()
	if debugVC {
		for i, r := range out {
			if r.status != "proved" {
				fn := filepath.Join(os.TempDir(), fmt.Sprintf("govc_%d.smt2", i))
				os.WriteFile(fn, []byte(r.smt), 0644)
				os.WriteFile(fn+"q", []byte(r.smt3), 0644)
				fmt.Fprintf(os.Stderr, "  NOT PROVED [%s] %s at %s: %s %s (%s)\n", r.o.Kind, r.o.Name, r.o.Pos, r.status, r.by, fn)
			}
		}
	}
	return out
}

func (x *Exec) unfoldCache() map[int]*Term {
	if x.unf == nil {
		x.unf = map[int]*Term{}
	}
	return x.unf
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
