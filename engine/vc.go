package main

// Verification conditions: simplification, unfolding of logical functions,
// quantifier instantiation, case splitting; what is left goes to SMT solvers.

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

type prover struct {
	x      *Exec
	p      *Program
	skolem int
	unfold map[int]*Term
	// provenance: use the facts about filtered elements (second attempt)
	provenance bool
	nodes      int
}

func flattenConj(ts []*Term) ([]*Term, bool) {
	var out []*Term
	seen := map[int]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == OAnd {
			for _, a := range t.Args {
				rec(a)
			}
			return
		}
		if t.Op == ONot && t.Args[0].Op == OOr {
			for _, a := range t.Args[0].Args {
				rec(mkNot(a))
			}
			return
		}
		if t.Op == OLe && t.Args[0].Op == OSeqLen && t.Args[1] == mkInt(0) {
			t = mkEq(t.Args[0].Args[0], mkSeqEmpty(t.Args[0].Args[0].Sort))
		}
		if t == TTrue || seen[t.ID] {
			return
		}
		if t == TFalse || seen[mkNot(t).ID] {
			ok = false
		}
		seen[t.ID] = true
		out = append(out, t)
	}
	for _, t := range ts {
		rec(t)
	}
	return out, ok
}

func isUnit(t *Term) bool {
	switch t.Op {
	case OOr, OAnd, OIte:
		return false
	case ONot:
		return t.Args[0].Op != OAnd && t.Args[0].Op != OIte
	case OEq:
		return t.Args[0].Sort != BoolS
	}
	return true
}

func occurs(v, t *Term) bool { return mentions(t, v) }

// substTarget: an equation usable as a rewrite from -> to.
func orient(t *Term) (from, to *Term) {
	if t.Op != OEq {
		return nil, nil
	}
	a, b := t.Args[0], t.Args[1]
	pri := func(x *Term) int { // higher = better to eliminate
		switch x.Op {
		case OVar:
			if strings.HasPrefix(x.S, "k!") {
				return 6
			}
			return 5
		case OSel, OSeqNth, OSelect:
			return 3
		case OApp:
			return 2
		case OSeqLen, OStrLen:
			return 2
		}
		return 0
	}
	if b.isValue() && !a.isValue() && a.Op != OIte {
		return a, b
	}
	if a.isValue() && !b.isValue() && b.Op != OIte {
		return b, a
	}
	if a.isValue() || b.isValue() {
		return nil, nil
	}
	pa, pb := pri(a), pri(b)
	if pa < pb || pa == pb && a.ID < b.ID {
		a, b = b, a
		pa, pb = pb, pa
	}
	if pa == 0 {
		return nil, nil
	}
	if !occurs(a, b) {
		return a, b
	}
	if pb > 0 && !occurs(b, a) {
		return b, a
	}
	return nil, nil
}

// intVarEq solves linear equations for a variable.
func solveLinear(t *Term) (from, to *Term) {
	if t.Op != OEq || t.Args[0].Sort != IntS {
		return nil, nil
	}
	m, ts := map[int]int64{}, map[int]*Term{}
	var c int64
	linear(t.Args[0], 1, m, ts, &c)
	linear(t.Args[1], -1, m, ts, &c)
	var best *Term
	score := func(x *Term) int {
		if x.Op == OVar {
			if strings.HasPrefix(x.S, "k!") {
				return 3
			}
			return 2
		}
		return 1
	}
	for id, co := range m {
		v := ts[id]
		if co != 1 && co != -1 {
			continue
		}
		if v.Op != OVar && v.Op != OSeqLen && v.Op != OStrLen && v.Op != OSel && v.Op != OApp {
			continue
		}
		ok := true
		for id2, w := range ts {
			if id2 != id && m[id2] != 0 && occurs(v, w) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if best == nil || score(v) > score(best) || score(v) == score(best) && v.ID > best.ID {
			best = v
		}
	}
	if best == nil {
		return nil, nil
	}
	co := m[best.ID]
	delete(m, best.ID)
	rest := fromLinear(m, ts, c)
	if co == 1 {
		rest = mkMul(mkInt(-1), rest)
	}
	return best, rest
}

// simplify propagates units until nothing changes. false = contradiction.
func (pr *prover) simplify(ts []*Term) ([]*Term, bool) {
	done := map[int]bool{}
	for round := 0; round < 60; round++ {
		var ok bool
		ts, ok = flattenConj(ts)
		if !ok {
			return nil, false
		}
		ts = boundsEq(ts)
		// pick rewrites
		var from, to *Term
		src := -1
		for i, t := range ts {
			if done[t.ID] {
				continue
			}
			f, g := orient(t)
			if t.Op == OEq && t.Args[0].Sort == IntS {
				f2, g2 := solveLinear(t)
				if f2 != nil {
					f, g = f2, g2
				}
			}
			if f != nil {
				from, to, src = f, g, i
				break
			}
		}
		changed := false
		if from != nil {
			cache := map[int]*Term{}
			m := map[int]*Term{from.ID: to}
			n := make([]*Term, 0, len(ts))
			for i, t := range ts {
				if i == src {
					if from.Op != OVar {
						n = append(n, t)
					}
					continue
				}
				n = append(n, substitute(t, m, cache))
			}
			done[ts[src].ID] = true
			if nonnegTerm(from) && !nonnegTerm(to) {
				n = append(n, mkLe(mkInt(0), to))
			}
			ts = n
			changed = true
		} else {
			// boolean units
			m := map[int]*Term{}
			var units []*Term
			for _, t := range ts {
				if isUnit(t) {
					units = append(units, t)
					if t.Op == ONot {
						m[t.Args[0].ID] = TFalse
					} else {
						m[t.ID] = TTrue
					}
				} else if t.Op == OOr {
					m[t.ID] = TTrue
				}
			}
			// bounds known from units decide weaker comparisons
			lb := boundFacts(units)
			if lb.bad {
				return nil, false
			}
			cache := map[int]*Term{}
			n := make([]*Term, 0, len(ts))
			for _, t := range ts {
				if isUnit(t) {
					// rewrite below the top literal only
					a := t
					neg := false
					if t.Op == ONot {
						a, neg = t.Args[0], true
					}
					if len(a.Args) > 0 && a.Op != OForall {
						args := make([]*Term, len(a.Args))
						same := true
						for i, q := range a.Args {
							args[i] = substitute(q, m, cache)
							if args[i] != q {
								same = false
							}
						}
						if !same {
							a = rebuild(a, args)
							changed = true
						}
					}
					if neg {
						a = mkNot(a)
					}
					n = append(n, a)
					continue
				}
				r := t
				if t.Op == OOr {
					args := make([]*Term, len(t.Args))
					for i, q := range t.Args {
						args[i] = substitute(q, m, cache)
					}
					r = rebuild(t, args)
				} else {
					r = substitute(t, m, cache)
				}
				r = applyBounds(r, lb)
				if r != t {
					changed = true
				}
				n = append(n, r)
			}
			ts = n
		}
		if !changed {
			return ts, true
		}
	}
	ts, ok := flattenConj(ts)
	return ts, ok
}

// leForm expresses a literal as sum <= 0 : coefficient map + constant.
func leForm(t *Term) (map[int]int64, map[int]*Term, int64, bool) {
	neg := false
	if t.Op == ONot {
		t, neg = t.Args[0], true
	}
	if t.Op != OLe {
		return nil, nil, 0, false
	}
	m, ts := map[int]int64{}, map[int]*Term{}
	var c int64
	if !neg { // a <= b
		linear(t.Args[0], 1, m, ts, &c)
		linear(t.Args[1], -1, m, ts, &c)
	} else { // b < a : b - a + 1 <= 0
		linear(t.Args[1], 1, m, ts, &c)
		linear(t.Args[0], -1, m, ts, &c)
		c++
	}
	return m, ts, c, true
}

func linKey(m map[int]int64, sign int64) string {
	var ids []int
	for id, v := range m {
		if v != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, id := range ids {
		fmt.Fprintf(&b, "%d*%d ", sign*m[id], id)
	}
	return b.String()
}

// boundsEq: e <= 0 and -e <= 0 give e = 0.
func boundsEq(ts []*Term) []*Term {
	type rec struct {
		c int64
		t *Term
	}
	up := map[string]rec{}
	var add []*Term
	for _, t := range ts {
		m, tm, c, ok := leForm(t)
		if !ok {
			continue
		}
		k := linKey(m, 1)
		if r, ok := up[k]; !ok || c > r.c {
			up[k] = rec{c, t}
		}
		if r, ok := up[linKey(m, -1)]; ok {
			if r.c == -c {
				add = append(add, mkEq(fromLinear(m, tm, c), mkInt(0)))
			} else if r.c+c > 0 {
				return []*Term{TFalse}
			}
		}
	}
	return append(ts, add...)
}

// dbm holds the shortest-path closure of the difference constraints x - y <= c
// among the unit facts (node 0 is the constant zero).
type dbm struct {
	node map[int]int
	d    [][]int64
	bad  bool
}

const dbmInf = int64(1) << 40

func nonnegTerm(t *Term) bool {
	return t.Op == OSeqLen || t.Op == OStrLen || knownNonneg[t.ID]
}

// diffOf gives a form as x - y + c <= 0 over dbm nodes (-1: not of that shape).
func (g *dbm) diffOf(m map[int]int64, ts map[int]*Term, grow bool) (int, int, bool) {
	x, y := 0, 0
	for id, co := range m {
		if co == 0 {
			continue
		}
		n, ok := g.node[id]
		if !ok {
			if !grow || len(g.node) >= 70 {
				return 0, 0, false
			}
			n = len(g.node) + 1
			g.node[id] = n
		}
		switch {
		case co == 1 && x == 0:
			x = n
		case co == -1 && y == 0:
			y = n
		default:
			return 0, 0, false
		}
	}
	return x, y, x != 0 || y != 0
}

func boundFacts(units []*Term) *dbm {
	g := &dbm{node: map[int]int{}}
	type edge struct {
		x, y int
		c    int64
	}
	var es []edge
	terms := map[int]*Term{}
	for _, t := range units {
		var fs []*Term
		if t.Op == OEq && t.Args[0].Sort == IntS {
			fs = []*Term{intern(OLe, BoolS, "", 0, t.Args[0], t.Args[1]), intern(OLe, BoolS, "", 0, t.Args[1], t.Args[0])}
		} else {
			fs = []*Term{t}
		}
		for _, f := range fs {
			m, ts, c, ok := leForm(f)
			if !ok {
				continue
			}
			x, y, ok := g.diffOf(m, ts, true)
			if !ok {
				continue
			}
			for id, v := range ts {
				terms[id] = v
			}
			es = append(es, edge{x, y, -c})
		}
	}
	n := len(g.node) + 1
	g.d = make([][]int64, n)
	for i := range g.d {
		g.d[i] = make([]int64, n)
		for j := range g.d[i] {
			if i != j {
				g.d[i][j] = dbmInf
			}
		}
	}
	for id, i := range g.node {
		if t := terms[id]; t != nil && nonnegTerm(t) {
			g.d[0][i] = 0 // 0 - t <= 0
		}
	}
	for _, e := range es {
		if e.c < g.d[e.x][e.y] {
			g.d[e.x][e.y] = e.c
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			if g.d[i][k] >= dbmInf {
				continue
			}
			for j := 0; j < n; j++ {
				if v := g.d[i][k] + g.d[k][j]; v < g.d[i][j] && g.d[k][j] < dbmInf {
					g.d[i][j] = v
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if g.d[i][i] < 0 {
			g.bad = true
		}
	}
	return g
}

func applyBounds(t *Term, g *dbm) *Term {
	if len(g.node) == 0 {
		return t
	}
	m := map[int]*Term{}
	collect([]*Term{t}, func(s *Term) {
		if s.Op == OEq && s.Args[0].Sort == IntS {
			f, ts, c, ok := leForm(intern(OLe, BoolS, "", 0, s.Args[0], s.Args[1]))
			if !ok {
				return
			}
			x, y, ok := g.diffOf(f, ts, false)
			if !ok {
				return
			}
			if g.d[x][y] < -c || g.d[y][x] < c { // x-y+c = 0 impossible
				m[s.ID] = TFalse
			}
			return
		}
		if s.Op != OLe {
			return
		}
		f, ts, c, ok := leForm(s)
		if !ok {
			return
		}
		x, y, ok := g.diffOf(f, ts, false)
		if !ok {
			return
		}
		// s: x - y <= -c
		if g.d[x][y] <= -c {
			m[s.ID] = TTrue
			return
		}
		// not s: y - x <= c - 1
		if g.d[y][x] <= c-1 {
			m[s.ID] = TFalse
		}
	})
	if len(m) == 0 {
		return t
	}
	return substitute(t, m, map[int]*Term{})
}

// ---------------------------------------------------------------- unfolding

func (pr *prover) body(app *Term) *Term {
	if b, ok := pr.unfold[app.ID]; ok {
		return b
	}
	la := pr.p.logicApps[app.ID]
	if la == nil {
		// applications rebuilt by substitution
		fn := pr.p.logicByName(app.S)
		if fn == nil {
			pr.unfold[app.ID] = nil
			return nil
		}
		la = &logicApp{fn, app.Args}
		pr.p.logicApps[app.ID] = la
	}
	var b *Term
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); ok {
					b = nil
					return
				}
				panic(e)
			}
		}()
		if !pr.p.isLogic(la.fn) {
			return // opaque abstraction
		}
		b, _ = pr.x.evalLogic(la.fn, la.args)
	}()
	pr.unfold[app.ID] = b
	return b
}

func isStep(t *Term) bool { // k + c, c >= 1
	return t.Op == OAdd && t.Args[0].isInt() && t.Args[0].I >= 1
}

// upward: the recursion of the function counts an index up.
func (pr *prover) upward(t *Term) bool {
	if la := pr.p.logicApps[t.ID]; la != nil {
		return pr.p.upwardFn(la.fn)
	}
	if fn := pr.p.logicByName(t.S); fn != nil {
		return pr.p.upwardFn(fn)
	}
	return false
}

// successorPresent: the application with the index one further occurs too.
func (pr *prover) successorPresent(t *Term, ts []*Term) bool {
	want := map[int]bool{}
	for i, a := range t.Args {
		if a.Sort == IntS {
			as := append([]*Term{}, t.Args...)
			as[i] = mkAdd(a, mkInt(1))
			want[mkApp(t.S, t.Sort, as...).ID] = true
		}
	}
	found := false
	collect(ts, func(s *Term) {
		if want[s.ID] {
			found = true
		}
	})
	return found
}

// stepUnfold replaces applications at index k+1 by their definition.
func (pr *prover) stepUnfold(ts []*Term) ([]*Term, bool) {
	any := false
	for round := 0; round < 6; round++ {
		m := map[int]*Term{}
		collect(ts, func(t *Term) {
			if t.Op != OApp || !strings.HasPrefix(t.S, "fn:") {
				return
			}
			step := false
			for _, a := range t.Args {
				if a.Sort == IntS && (isStep(a) || a.isInt()) {
					step = true
				}
			}
			if !step {
				return
			}
			if pr.upward(t) && !pr.successorPresent(t, ts) {
				return
			}
			if b := pr.body(t); b != nil && b != t {
				m[t.ID] = b
			}
		})
		if len(m) == 0 {
			break
		}
		any = true
		cache := map[int]*Term{}
		n := make([]*Term, len(ts))
		for i, t := range ts {
			n[i] = substitute(t, m, cache)
		}
		ts = n
	}
	return ts, any
}

// mapFold recognises F(args, k+1) = F(args, k) ++ [e(k)] with F(args, 0) = [];
// by induction len F(args, k) = max(k, 0) and F(args, k)[i] = e(i).
func (pr *prover) mapFold(app *Term) (k, bv, elem *Term) {
	n := len(app.Args)
	if app.Op != OApp || !strings.HasPrefix(app.S, "fn:") || app.Sort.Kind != SSeq || n == 0 || app.Args[n-1].Sort != IntS {
		return nil, nil, nil
	}
	k = app.Args[n-1]
	bv = mkVar("k!mf", IntS)
	knownNonneg[bv.ID] = true
	step := mkApp(app.S, app.Sort, append(append([]*Term{}, app.Args[:n-1]...), mkAdd(bv, mkInt(1)))...)
	at := func(k *Term) *Term {
		return mkApp(app.S, app.Sort, append(append([]*Term{}, app.Args[:n-1]...), k)...)
	}
	if z := pr.body(at(mkInt(0))); z == nil || z.Op != OSeqEmpty {
		return nil, nil, nil
	}
	b := pr.body(step)
	if b == nil || b.Op != OSeqCat || len(b.Args) != 2 || b.Args[0] != at(bv) || b.Args[1].Op != OSeqUnit {
		return nil, nil, nil
	}
	return k, bv, b.Args[1].Args[0]
}

// filterFold recognises F(args, k+1) = F(args, k) ++ [e(k)] under a condition c(k)
// and F(args, k) otherwise, F(args, 0) = [].
func (pr *prover) filterFold(app *Term) (k, bv, cond, elem *Term) {
	n := len(app.Args)
	if app.Op != OApp || !strings.HasPrefix(app.S, "fn:") || app.Sort.Kind != SSeq || n == 0 || app.Args[n-1].Sort != IntS {
		return
	}
	at := func(k *Term) *Term {
		return mkApp(app.S, app.Sort, append(append([]*Term{}, app.Args[:n-1]...), k)...)
	}
	v := mkVar("k!ff", IntS)
	knownNonneg[v.ID] = true
	if z := pr.body(at(mkInt(0))); z == nil || z.Op != OSeqEmpty {
		return
	}
	b := pr.body(at(mkAdd(v, mkInt(1))))
	if b == nil {
		return
	}
	prev := at(v)
	cond = TTrue
	pick := func(c, x, y, none *Term) (*Term, *Term) { // the arm that adds something
		if y == none {
			return c, x
		}
		if x == none {
			return mkNot(c), y
		}
		return nil, nil
	}
	if b.Op == OIte {
		if cond, b = pick(b.Args[0], b.Args[1], b.Args[2], prev); cond == nil {
			return nil, nil, nil, nil
		}
	}
	if b.Op != OSeqCat || len(b.Args) != 2 || b.Args[0] != prev {
		return nil, nil, nil, nil
	}
	e := b.Args[1]
	if e.Op == OIte {
		if cond != TTrue {
			return nil, nil, nil, nil
		}
		if cond, e = pick(e.Args[0], e.Args[1], e.Args[2], mkSeqEmpty(app.Sort)); cond == nil {
			return nil, nil, nil, nil
		}
	}
	if e.Op != OSeqUnit || mentions(e, prev) || mentions(cond, prev) {
		return nil, nil, nil, nil
	}
	return app.Args[n-1], v, cond, e.Args[0]
}

// filterFoldFacts: every element of such a sequence was added at some step.
func (pr *prover) filterFoldFacts(ts *[]*Term, insted map[string]bool) bool {
	var add []*Term
	collect(*ts, func(t *Term) {
		if t.Op != OSeqNth || t.Args[0].Op != OApp || !strings.HasPrefix(t.Args[0].S, "fn:") || strayBound(t) {
			return
		}
		f, i := t.Args[0], t.Args[1]
		id := fmt.Sprintf("ff%d", t.ID)
		if insted[id] {
			return
		}
		insted[id] = true
		k, bv, cond, e := pr.filterFold(f)
		if k == nil {
			return
		}
		sk := mkVar(fmt.Sprintf("sk!ff%d", t.ID), IntS)
		at := func(t *Term) *Term { return substitute(t, map[int]*Term{bv.ID: sk}, map[int]*Term{}) }
		add = append(add, mkImplies(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkSeqLen(f))), mkAnd(mkLe(mkInt(0), sk), mkLt(sk, k), at(cond), mkEq(t, at(e)))))
	})
	*ts = append(*ts, add...)
	return len(add) > 0
}

// dictFold recognises a map built key by key:
// F(args, k+1) = F(args, k) with F[key(k)] = val(k) (under a condition), F(args, 0) empty.
func (pr *prover) dictFold(app *Term) (k, bv, cond, key, val *Term) {
	n := len(app.Args)
	if app.Op != OApp || !strings.HasPrefix(app.S, "fn:") || app.Sort.DT == nil || n == 0 || app.Args[n-1].Sort != IntS {
		return
	}
	if c := app.Sort.DT.Ctors[0]; len(c.Sorts) != 3 || c.Sorts[0].Kind != SArray {
		return
	}
	at := func(k *Term) *Term {
		return mkApp(app.S, app.Sort, append(append([]*Term{}, app.Args[:n-1]...), k)...)
	}
	v := mkVar("k!df", IntS)
	knownNonneg[v.ID] = true
	z := pr.body(at(mkInt(0)))
	if z == nil || z.Op != OMk || z.Args[0].Op != OConstArr || z.Args[0].Args[0] != TFalse {
		return
	}
	b := pr.body(at(mkAdd(v, mkInt(1))))
	if b == nil {
		return
	}
	prev := at(v)
	cond = TTrue
	if b.Op == OIte {
		switch prev {
		case b.Args[2]:
			cond, b = b.Args[0], b.Args[1]
		case b.Args[1]:
			cond, b = mkNot(b.Args[0]), b.Args[2]
		}
	}
	c := app.Sort.DT.Ctors[0].Name
	if b.Op != OMk || len(b.Args) != 3 || b.Args[0].Op != OStore || b.Args[1].Op != OStore ||
		b.Args[0].Args[0] != mkSel(c, 0, prev) || b.Args[1].Args[0] != mkSel(c, 1, prev) ||
		b.Args[0].Args[1] != b.Args[1].Args[1] || b.Args[0].Args[2] != TTrue {
		return
	}
	key, val = b.Args[0].Args[1], b.Args[1].Args[2]
	if mentions(key, prev) || mentions(val, prev) {
		return nil, nil, nil, nil, nil
	}
	if mentions(cond, prev) {
		cond = TTrue // a key put in only when it is not there yet: less is known
	}
	return app.Args[n-1], v, cond, key, val
}

// dictFoldFacts: a key such a map holds was put in at some step, with the value of that step.
func (pr *prover) dictFoldFacts(ts *[]*Term, insted map[string]bool) bool {
	var add []*Term
	collect(*ts, func(t *Term) {
		if t.Op != OSelect || t.Args[0].Op != OSel || t.Args[0].Args[0].Op != OApp || !strings.HasPrefix(t.Args[0].Args[0].S, "fn:") || strayBound(t) {
			return
		}
		f, n := t.Args[0].Args[0], t.Args[1]
		id := fmt.Sprintf("df%d/%d", f.ID, n.ID)
		if insted[id] {
			return
		}
		insted[id] = true
		k, bv, cond, key, val := pr.dictFold(f)
		if k == nil {
			return
		}
		c := f.Sort.DT.Ctors[0].Name
		sk := mkVar(fmt.Sprintf("sk!df%d_%d", f.ID, n.ID), IntS)
		at := func(t *Term) *Term { return substitute(t, map[int]*Term{bv.ID: sk}, map[int]*Term{}) }
		add = append(add, mkImplies(mkSelect(mkSel(c, 0, f), n), mkAnd(mkLe(mkInt(0), sk), mkLt(sk, k), at(cond), mkEq(at(key), n), mkEq(mkSelect(mkSel(c, 1, f), n), at(val)))))
	})
	*ts = append(*ts, add...)
	return len(add) > 0
}

// extFacts: a sequence that differs from one built element by element differs
// in length or at some position.
func (pr *prover) extFacts(ts *[]*Term, insted map[string]bool) bool {
	var add []*Term
	for _, t := range *ts {
		if t.Op != ONot || t.Args[0].Op != OEq || t.Args[0].Args[0].Sort.Kind != SSeq || strayBound(t) {
			continue
		}
		a, b := t.Args[0].Args[0], t.Args[0].Args[1]
		id := fmt.Sprintf("ex%d", t.ID)
		if insted[id] {
			continue
		}
		insted[id] = true
		if k, _, _ := pr.mapFold(a); k == nil {
			if k, _, _ = pr.mapFold(b); k == nil {
				continue
			}
		}
		sk := mkVar(fmt.Sprintf("sk!ex%d", t.ID), IntS)
		add = append(add, mkOr(mkNot(mkEq(mkSeqLen(a), mkSeqLen(b))),
			mkAnd(mkLe(mkInt(0), sk), mkLt(sk, mkSeqLen(a)), mkNot(mkEq(mkSeqNth(a, sk), mkSeqNth(b, sk))))))
	}
	*ts = append(*ts, add...)
	return len(add) > 0
}

// mapFoldFacts adds the instances of the mapFold lemma the clauses mention.
func (pr *prover) mapFoldFacts(ts *[]*Term, insted map[string]bool) bool {
	var add []*Term
	known := map[int][3]*Term{}
	fold := func(app *Term) (k, bv, e *Term) {
		r, ok := known[app.ID]
		if !ok {
			r[0], r[1], r[2] = pr.mapFold(app)
			known[app.ID] = r
		}
		return r[0], r[1], r[2]
	}
	collect(*ts, func(t *Term) {
		if (t.Op != OSeqNth && t.Op != OSeqLen) || t.Args[0].Op != OApp || !strings.HasPrefix(t.Args[0].S, "fn:") || strayBound(t) {
			return
		}
		key := fmt.Sprintf("mf%d", t.ID)
		if insted[key] {
			return
		}
		insted[key] = true
		k, bv, e := fold(t.Args[0])
		if k == nil {
			return
		}
		if t.Op == OSeqLen {
			add = append(add, mkEq(t, mkIte(mkLe(k, mkInt(0)), mkInt(0), k)))
			return
		}
		i := t.Args[1]
		add = append(add, mkImplies(mkAnd(mkLe(mkInt(0), i), mkLt(i, k)), mkEq(t, substitute(e, map[int]*Term{bv.ID: i}, map[int]*Term{}))))
	})
	*ts = append(*ts, add...)
	return len(add) > 0
}

// catFacts: an element of a concatenation is an element of one of the parts.
func (pr *prover) catFacts(ts *[]*Term, insted map[string]bool) bool {
	var add []*Term
	collect(*ts, func(t *Term) {
		if t.Op != OSeqNth || t.Args[0].Op != OSeqCat || strayBound(t) {
			return
		}
		key := fmt.Sprintf("cf%d", t.ID)
		if insted[key] {
			return
		}
		insted[key] = true
		i := t.Args[1]
		ps := t.Args[0].Args
		for n, p := range ps {
			if n > 4 {
				break
			}
			add = append(add, mkImplies(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkSeqLen(p))), mkEq(t, mkSeqNth(p, i))))
			i = mkSub(i, mkSeqLen(p))
		}
	})
	*ts = append(*ts, add...)
	return len(add) > 0
}

// ---------------------------------------------------------------- quantifiers

func indexTerms(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	add := func(i *Term) {
		if seen[i.ID] || i.Sort != IntS {
			return
		}
		hasBV := false
		collect([]*Term{i}, func(s *Term) {
			if s.Op == OVar && strings.HasPrefix(s.S, "bv") {
				hasBV = true
			}
		})
		if hasBV {
			return
		}
		seen[i.ID] = true
		out = append(out, i)
	}
	collect(ts, func(t *Term) {
		if t.Op == OSeqNth {
			add(t.Args[1])
		}
		if t.Op == OVar && t.Sort == IntS && (strings.HasPrefix(t.S, "sk!") || strings.HasPrefix(t.S, "k!")) {
			add(t)
		}
	})
	rank := func(t *Term) int {
		switch {
		case t.Op == OVar && strings.HasPrefix(t.S, "sk!"):
			return 0
		case t.Op == OVar && strings.HasPrefix(t.S, "k!"):
			return 1
		case t.Op == OVar:
			return 2
		}
		return 3
	}
	sort.SliceStable(out, func(i, j int) bool { return rank(out[i]) < rank(out[j]) })
	return out
}

// quant expands unit quantifiers: skolemise false ones, instantiate true ones.
func (pr *prover) quant(ts []*Term, insted map[string]bool) ([]*Term, bool) {
	changed := false
	var out []*Term
	for _, t := range ts {
		if t.Op == ONot && t.Args[0].Op == OForall {
			f := t.Args[0]
			pr.skolem++
			sk := mkVar(fmt.Sprintf("sk!%d", pr.skolem), IntS)
			out = append(out, mkLe(f.Args[0], sk), mkLt(sk, f.Args[1]), mkNot(substitute(f.Args[3], map[int]*Term{f.Args[2].ID: sk}, map[int]*Term{})))
			changed = true
			continue
		}
		out = append(out, t)
	}
	n := len(out)
	gi := newGround(out)
	for _, t := range out[:n] {
		if t.Op != OForall {
			continue
		}
		for _, i := range gi.inst(t, 12) {
			key := fmt.Sprintf("%d@%d", t.ID, i.ID)
			if insted[key] {
				continue
			}
			insted[key] = true
			b := substitute(t.Args[3], map[int]*Term{t.Args[2].ID: i}, map[int]*Term{})
			in := mkImplies(mkAnd(mkLe(t.Args[0], i), mkLt(i, t.Args[1])), b)
			if in != TTrue {
				out = append(out, in)
				changed = true
			}
		}
	}
	return out, changed
}

// ground indexes the ground index positions for trigger matching.
type ground struct {
	ts    []*Term
	bound map[int]bool
	nth   map[int][]*Term    // sequence -> indices
	app   map[string][]*Term // function -> ground applications
	all   []*Term
}

func newGround(ts []*Term) *ground {
	g := &ground{ts: ts, bound: map[int]bool{}, nth: map[int][]*Term{}, app: map[string][]*Term{}}
	collect(ts, func(t *Term) {
		if t.Op == OVar && strings.HasPrefix(t.S, "bv") {
			g.bound[t.ID] = true
			return
		}
		for _, a := range t.Args {
			if g.bound[a.ID] {
				g.bound[t.ID] = true
				return
			}
		}
		if t.Op == OSeqNth {
			g.addNth(t.Args[0], t.Args[1], 0)
		}
		if t.Op == OApp && len(t.Args) > 0 {
			g.app[t.S] = append(g.app[t.S], t)
		}
	})
	g.all = indexTerms(ts)
	return g
}

// addNth records an index into a sequence, and into the parts it is made of.
func (g *ground) addNth(s, i *Term, depth int) {
	g.nth[s.ID] = append(g.nth[s.ID], i)
	if depth > 3 {
		return
	}
	switch s.Op {
	case OSeqCat:
		for _, p := range s.Args {
			if p.Op != OSeqUnit {
				g.addNth(p, i, depth+1)
			}
			i = mkSub(i, mkSeqLen(p))
		}
	case OIte:
		g.addNth(s.Args[1], i, depth+1)
		g.addNth(s.Args[2], i, depth+1)
	}
}

// inst lists the ground terms worth instantiating the quantifier with.
func (g *ground) inst(t *Term, max int) []*Term {
	bv := t.Args[2]
	var out []*Term
	seen := map[int]bool{}
	add := func(i *Term) {
		if !seen[i.ID] && i.Sort == IntS && !g.bound[i.ID] {
			seen[i.ID] = true
			out = append(out, i)
		}
	}
	trig := false
	fresh := map[int]bool{}
	hasBV := func(s *Term) bool {
		if v, ok := g.bound[s.ID]; ok {
			return v
		}
		if v, ok := fresh[s.ID]; ok {
			return v
		}
		r := hasBound(s)
		fresh[s.ID] = r
		return r
	}
	collect([]*Term{t.Args[3]}, func(s *Term) {
		if s.Op == OSeqNth && s.Args[1] == bv && !hasBV(s.Args[0]) {
			trig = true
			for _, i := range g.nth[s.Args[0].ID] {
				add(i)
			}
		}
		if s.Op == OApp && !strings.HasPrefix(s.S, "fn:") {
			for j, a := range s.Args {
				if a != bv {
					continue
				}
				trig = true
				for _, o := range g.app[s.S] {
					if len(o.Args) != len(s.Args) {
						continue
					}
					ok := true
					for l, b := range s.Args {
						if l != j && !hasBV(b) && b != o.Args[l] {
							ok = false
						}
					}
					if ok {
						add(o.Args[j])
					}
				}
			}
		}
	})
	if !trig {
		for _, i := range g.all {
			add(i)
		}
		add(t.Args[0])
		add(mkSub(t.Args[1], mkInt(1)))
	}
	rank := func(t *Term) int {
		switch {
		case t.Op == OVar && strings.HasPrefix(t.S, "sk!"):
			return 0
		case t.Op == OVar:
			return 1
		case t.isInt():
			return 3
		}
		return 2
	}
	sort.SliceStable(out, func(i, j int) bool { return rank(out[i]) < rank(out[j]) })
	if len(out) > max {
		out = out[:max]
	}
	return out
}

// ---------------------------------------------------------------- main

var debugVC = os.Getenv("GOVC_DEBUG") != ""

type vcResult struct {
	status string // proved | failed | unknown
	by     string
	smt    string
	model  string
	secs   float64
	stuck  []*Term
}

// prepare simplifies; returns nil,true when refuted (i.e. the VC is valid).
func (pr *prover) prepare(ts []*Term) ([]*Term, bool) {
	insted := map[string]bool{}
	ok := true
	ts, ok = pr.simplify(ts)
	if !ok {
		return nil, true
	}
	for round := 0; round < 5; round++ {
		var c1, c2 bool
		ts, c1 = pr.stepUnfold(ts)
		if c1 {
			if ts, ok = pr.simplify(ts); !ok {
				return nil, true
			}
		}
		ts, c2 = pr.quant(ts, insted)
		if pr.mapFoldFacts(&ts, insted) {
			c2 = true
		}
		if pr.provenance && pr.filterFoldFacts(&ts, insted) {
			c2 = true
		}
		if pr.provenance && pr.dictFoldFacts(&ts, insted) {
			c2 = true
		}
		if pr.provenance && pr.catFacts(&ts, insted) {
			c2 = true
		}
		if pr.provenance && pr.extFacts(&ts, insted) {
			c2 = true
		}
		if c2 {
			if ts, ok = pr.simplify(ts); !ok {
				return nil, true
			}
		}
		if !c1 && !c2 {
			break
		}
	}
	return ts, false
}

// relevant keeps the hypotheses connected to the goal through shared symbols.
func relevant(hyps []*Term, goal *Term, rounds int) []*Term {
	syms := func(t *Term) map[int]bool {
		m := map[int]bool{}
		collect([]*Term{t}, func(s *Term) {
			if s.Op == OVar && !strings.HasPrefix(s.S, "bv") {
				m[s.ID] = true
			}
		})
		return m
	}
	gs := syms(goal)
	hs := make([]map[int]bool, len(hyps))
	for i, h := range hyps {
		hs[i] = syms(h)
	}
	in := make([]bool, len(hyps))
	for r := 0; r < rounds; r++ {
		add := map[int]bool{}
		for i := range hyps {
			if in[i] {
				continue
			}
			hit := len(hs[i]) == 0
			for v := range hs[i] {
				if gs[v] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				for v := range hs[i] {
					add[v] = true
				}
			}
		}
		if len(add) == 0 {
			break
		}
		for v := range add {
			gs[v] = true
		}
	}
	var out []*Term
	for i, h := range hyps {
		if in[i] {
			out = append(out, h)
		}
	}
	return out
}

// split: case analysis on conditions occurring in the clauses.
func (pr *prover) split(ts []*Term, depth int) bool {
	pr.nodes++
	if depth > 14 || pr.nodes > 600 {
		return false
	}
	c := pickSplit(ts)
	if c == nil {
		if os.Getenv("GOVC_DEBUG") == "2" {
			for _, t := range ts {
				fmt.Fprintf(os.Stderr, "        stuck: %.1500s\n", t)
			}
		}
		return false
	}
	for _, lit := range []*Term{c, mkNot(c)} {
		n := append(append([]*Term{}, ts...), lit)
		n, refuted := pr.prepare(n)
		if refuted {
			continue
		}
		if !pr.split(n, depth+1) {
			return false
		}
	}
	return true
}

func pickSplit(ts []*Term) *Term {
	// prefer conditions of ite nodes inside negative equations (the goal), then small disjunctions
	score := map[int]int{}
	terms := map[int]*Term{}
	note := func(c *Term, w int) {
		for c.Op == ONot || c.Op == OAnd || c.Op == OOr {
			if c.Op == ONot {
				c = c.Args[0]
			} else {
				c = c.Args[0]
			}
		}
		if c.Sort != BoolS || c.isConst() {
			return
		}
		if c.Op == OIte {
			return
		}
		hasBV := false
		collect([]*Term{c}, func(s *Term) {
			if s.Op == OVar && strings.HasPrefix(s.S, "bv") {
				hasBV = true
			}
		})
		if hasBV {
			return
		}
		score[c.ID] += w
		terms[c.ID] = c
	}
	for _, t := range ts {
		w := 1
		if t.Op == ONot && (t.Args[0].Op == OEq || t.Args[0].Op == OAnd) {
			w = 50
		}
		if isUnit(t) && t.Op != ONot && t.Op != OEq {
			w = 0
		}
		if w == 0 {
			continue
		}
		ww := w
		collect([]*Term{t}, func(s *Term) {
			if s.Op == OIte {
				note(s.Args[0], ww*4)
			}
		})
		if t.Op == OOr && len(t.Args) <= 4 {
			for _, a := range t.Args {
				note(a, 2)
			}
		}
		if t.Op == OEq && t.Args[0].Sort == BoolS {
			note(t.Args[0], 3)
		}
		if t.Op == ONot && t.Args[0].Op == OAnd {
			for _, a := range t.Args[0].Args {
				note(a, 30)
			}
		}
		if t.Op == ONot && t.Args[0].Op == OEq && t.Args[0].Args[0].Sort == BoolS {
			note(t.Args[0].Args[0], 60)
			note(t.Args[0].Args[1], 60)
		}
	}
	var best *Term
	for id, t := range terms {
		if best == nil || score[id] > score[best.ID] || score[id] == score[best.ID] && id < best.ID {
			best = t
		}
	}
	return best
}

// try attempts to discharge internally; otherwise returns the residue.
func (pr *prover) try(hyps []*Term, goal *Term) (proved bool, by string, residue []*Term) {
	ts := append(append([]*Term{}, hyps...), mkNot(goal))
	ts, refuted := pr.prepare(ts)
	if refuted {
		return true, "simplification", nil
	}
	// drop clauses unrelated to what is left of the goal
	pr.nodes = 0
	if pr.split(ts, 0) {
		return true, "case analysis", nil
	}
	// again with searches unfolded and with where filtered elements come from
	pr.provenance = true
	defer func() { pr.provenance = false }()
	us, _ := pr.upwardUnfold(ts)
	if us, refuted = pr.prepare(us); refuted {
		return true, "case analysis", nil
	}
	if sameTerms(us, ts) {
		return false, "", ts
	}
	pr.nodes = 0
	if pr.split(us, 0) {
		return true, "case analysis", nil
	}
	return false, "", ts
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// upwardUnfold replaces searches from a variable index on by their definition.
func (pr *prover) upwardUnfold(ts []*Term) ([]*Term, bool) {
	m := map[int]*Term{}
	collect(ts, func(t *Term) {
		if t.Op != OApp || !strings.HasPrefix(t.S, "fn:") || len(t.Args) == 0 || !pr.upward(t) {
			return
		}
		if a := t.Args[len(t.Args)-1]; a.Sort != IntS || a.isInt() || isStep(a) {
			return
		}
		if b := pr.body(t); b != nil && b != t {
			m[t.ID] = b
		}
	})
	if len(m) == 0 {
		return ts, false
	}
	cache := map[int]*Term{}
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = substitute(t, m, cache)
	}
	return n, true
}

func (p *Program) logicByName(n string) *SSAFn {
	if !strings.HasPrefix(n, "fn:") {
		return nil
	}
	return p.byName[n[3:]]
}
