package main

// Symbolic execution of go/ssa with guarded merging; loops are unrolled when
// their condition is decided, and otherwise cut with inferred invariants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Kind   string // ensures | safety | inv-init | inv-pres
	Name   string
	Cand   string // candidate key for inv-*
	Guard  *Term
	Cond   *Term
	NFacts int
	Pos    string
	First  []*Term // the loop is in its first iteration (filter only)
}

type Slot struct {
	Name string
	T    types.Type
	Get  func(st *State) Value
	Set  func(st *State, v Value)
}

type Exec struct {
	P          *Program
	facts      []*Term
	obls       []*Obl
	spec       bool
	verCtr     int
	writeLog   map[string]map[string]bool
	nLogicMaps int
	cellCtr    int
	fnIDs      map[*ssa.Function]int64
	fnByID     map[int64]*ssa.Function
	globals    map[*ssa.Global]*Cell
	globBy     map[*Cell]*ssa.Global
	tier       int             // how many invariant candidates are tried
	disabled   map[string]bool // invariant candidates refuted so far
	cands      map[string]bool // all candidates instantiated in this run
	modCache   map[string]*modInfo
	H          *Harness
	params     map[string]Value // harness params by name
	paramT     map[string]types.Type
	stack      []*Frame
	undecid    map[*Frame]bool
	qDepth     int
	inInit     bool
	reqTerms   []*Term
	ghosts     map[string]*Term
	used       map[string]bool // functions executed (under contract)
	trusted    map[string]bool // external models used
	contr      map[string]bool // contracts used at call sites
	endG       *Term
	seqNo      map[string]int
	steps      int
	evN        int
	depth0     int
	unf        map[int]*Term
	curCall    *ssa.Call
	ensSeen    map[string]bool
	onFrame    func(*Frame)
}

type Frame struct {
	Fn        *ssa.Function
	Path      string
	Parent    *Frame
	Loops     *LoopForest
	Unroll    string
	State     *State // most recent state (for in-scope value lookup)
	CallerEnv map[ssa.Value]Value
	calls     map[ssa.Instruction]int
}

func newExec(p *Program, h *Harness) *Exec {
	resetFresh()
	return &Exec{P: p, H: h, fnIDs: map[*ssa.Function]int64{}, fnByID: map[int64]*ssa.Function{}, globals: map[*ssa.Global]*Cell{}, globBy: map[*Cell]*ssa.Global{},
		disabled: map[string]bool{}, cands: map[string]bool{}, modCache: map[string]*modInfo{}, params: map[string]Value{}, paramT: map[string]types.Type{},
		undecid: map[*Frame]bool{}, ghosts: map[string]*Term{}, used: map[string]bool{}, trusted: map[string]bool{}, contr: map[string]bool{}, seqNo: map[string]int{}, ensSeen: map[string]bool{}}
}

func (x *Exec) fact(t *Term) {
	if t == TTrue {
		return
	}
	x.facts = append(x.facts, t)
}

func (x *Exec) newCell(name string, t types.Type, v Value, st *State) *Cell {
	x.cellCtr++
	c := &Cell{ID: x.cellCtr, Name: name, T: t}
	st.Cells[c] = &CellState{V: v}
	return c
}

func (x *Exec) fnID(f *ssa.Function) int64 {
	if id, ok := x.fnIDs[f]; ok {
		return id
	}
	id := int64(len(x.fnIDs) + 1)
	x.fnIDs[f] = id
	x.fnByID[id] = f
	return id
}

func (x *Exec) oblige(kind, name string, st *State, cond *Term, pos token.Pos) {
	if cond == TTrue || st.G == TFalse {
		return
	}
	if kind == "safety" && impliedBy(st.G, cond) {
		return
	}
	if x.spec || x.inInit {
		if cond == TFalse && !x.inInit {
			st.G = TFalse
		}
		return
	}
	o := &Obl{Kind: kind, Name: name, Guard: st.G, Cond: cond, NFacts: len(x.facts), Pos: x.P.pos(pos)}
	x.obls = append(x.obls, o)
	if kind == "safety" || kind == "ensures" {
		if kind == "safety" && cond == TFalse {
			st.G = TFalse
		} else {
			x.fact(mkImplies(st.G, cond))
		}
	}
}

func (x *Exec) safety(what string, fr *Frame, st *State, cond *Term, pos token.Pos) {
	if cond == TTrue {
		return
	}
	x.oblige("safety", what+" in "+shortFn(fr.Fn), st, cond, pos)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/format/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// ---------------------------------------------------------------- loop forest

type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Parent *Loop
	Kids   []*Loop
}
type LoopForest struct {
	Top   *Loop // pseudo-loop: whole function
	ByHdr map[*ssa.BasicBlock]*Loop
}

func buildLoops(fn *ssa.Function) *LoopForest {
	top := &Loop{Header: fn.Blocks[0], Blocks: map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		top.Blocks[b] = true
	}
	f := &LoopForest{Top: top, ByHdr: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.ByHdr[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.ByHdr[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if l.Blocks[n] {
						continue
					}
					l.Blocks[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	var all []*Loop
	for _, l := range f.ByHdr {
		all = append(all, l)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Header.Index < all[j].Header.Index })
	for _, l := range all {
		best := top
		for _, m := range all {
			if m != l && m.Blocks[l.Header] && len(m.Blocks) < len(best.Blocks) && m.Header != l.Header {
				best = m
			}
		}
		l.Parent = best
		best.Kids = append(best.Kids, l)
	}
	return f
}

// ---------------------------------------------------------------- functions

type retEdge struct {
	st  *State
	val Value
}

func (x *Exec) callFn(fn *ssa.Function, args []Value, bind []Value, st *State, site string) (*State, Value) {
	if len(fn.Blocks) == 0 {
		unsup("call of function without body %s", fn.String())
	}
	if len(x.stack) > 60 {
		unsup("call depth exceeded at %s", fn.String())
	}
	for _, f := range x.stack {
		if f.Fn == fn && !x.spec {
			unsup("recursive call of %s", fn.String())
		}
	}
	var parent *Frame
	path := site
	if len(x.stack) > 0 {
		parent = x.stack[len(x.stack)-1]
		path = parent.Path + parent.Unroll + "/" + site
	}
	if !x.spec && !x.inInit && !x.P.isContractFn(fn) {
		x.used[fn.String()] = true
	}
	fr := &Frame{Fn: fn, Path: path, Parent: parent, Loops: x.P.loops(fn), calls: map[ssa.Instruction]int{}, CallerEnv: st.Env}
	x.stack = append(x.stack, fr)
	depth := len(x.stack)
	defer func() { x.stack = x.stack[:depth-1] }()

	in := &State{G: st.G, Env: map[ssa.Value]Value{}, Cells: make(map[*Cell]*CellState, len(st.Cells)+8)}
	for k, v := range st.Cells {
		in.Cells[k] = v
	}
	for i, p := range fn.Params {
		in.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		in.Env[p] = bind[i]
	}
	rets := x.runFunction(fr, in)
	// merge returns
	var sts []*State
	retKey := &retVal{}
	var retT types.Type = fn.Signature.Results()
	if fn.Signature.Results().Len() == 1 {
		retT = fn.Signature.Results().At(0).Type()
	}
	_ = retT
	for _, r := range rets {
		s := r.st
		s.Env = map[ssa.Value]Value{}
		if r.val != nil {
			s.Env[retKey] = r.val
		}
		sts = append(sts, s)
	}
	m := x.mergeStates(sts)
	if m == nil {
		d := st.clone()
		d.G = TFalse
		return d, nil
	}
	val := m.Env[retKey]
	out := &State{G: m.G, Env: st.Env, Cells: m.Cells}
	// drop cells that became unreachable
	if !x.inInit {
		x.gc(out, st, val)
	}
	return out, val
}

type retVal struct{ ssa.Value }

func (r *retVal) Type() types.Type { return types.Typ[types.Invalid] }

func (x *Exec) gc(out, before *State, val Value) {
	keep := map[*Cell]bool{}
	var mark func(v Value)
	var markCell func(c *Cell)
	markCell = func(c *Cell) {
		if keep[c] {
			return
		}
		keep[c] = true
		if cs := out.Cells[c]; cs != nil {
			mark(cs.V)
		}
	}
	mark = func(v Value) {
		switch a := v.(type) {
		case *Ref:
			markCell(a.Cell)
		case *MapRef:
			markCell(a.Cell)
		case *ProvV:
			markCell(a.R.Cell)
			mark(a.Snap)
		case *StructV:
			for _, f := range a.F {
				mark(f)
			}
		case *SeqV:
			for _, f := range a.E {
				mark(f)
			}
		case TupleV:
			for _, f := range a {
				mark(f)
			}
		case *IfaceV:
			mark(a.V)
		case *ClosureV:
			for _, f := range a.B {
				mark(f)
			}
		case *IteV:
			mark(a.A)
			mark(a.B)
		case *MapC:
			for _, f := range a.Vals {
				mark(f)
			}
		case *ROAddr:
			mark(a.V)
		case *IterV:
			markCell(a.Cell)
		case *OpaqueV:
			if vs, ok := a.Data.([]Value); ok {
				for _, f := range vs {
					mark(f)
				}
			}
		}
	}
	for c := range before.Cells {
		markCell(c)
	}
	mark(val)
	for c := range out.Cells {
		if !keep[c] {
			delete(out.Cells, c)
		}
	}
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (x *Exec) runFunction(fr *Frame, in *State) []retEdge {
	var rets []retEdge
	_, exits := x.runRegion(fr, fr.Loops.Top, in, &rets)
	if len(exits) > 0 {
		panic("exits from function region")
	}
	return rets
}

// topological order of the region with child loops collapsed
func (l *Loop) order(f *LoopForest) []*ssa.BasicBlock {
	kid := map[*ssa.BasicBlock]*Loop{}
	for _, k := range l.Kids {
		for b := range k.Blocks {
			kid[b] = k
		}
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if k := kid[b]; k != nil {
			b = k.Header
		}
		if seen[b] {
			return
		}
		seen[b] = true
		if k := kid[b]; k != nil {
			var tg []*ssa.BasicBlock
			for _, c := range b.Parent().Blocks {
				if k.Blocks[c] {
					for _, s := range c.Succs {
						if !k.Blocks[s] {
							tg = append(tg, s)
						}
					}
				}
			}
			for _, s := range tg {
				if l.Blocks[s] && s != l.Header {
					dfs(s)
				}
			}
		} else {
			for i := len(b.Succs) - 1; i >= 0; i-- {
				s := b.Succs[i]
				if l.Blocks[s] && s != l.Header {
					dfs(s)
				}
			}
		}
		post = append(post, b)
	}
	dfs(l.Header)
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// runRegion executes one pass through region l starting with header state in
// (header phis already bound).  Returns back-edge states and exit edges.
func (x *Exec) runRegion(fr *Frame, l *Loop, in *State, rets *[]retEdge) (backs []edge, exits []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	deliver := func(e edge) {
		if e.st == nil || e.st.G == TFalse {
			return
		}
		if e.to == l.Header && l.Parent != nil {
			backs = append(backs, e)
		} else if !l.Blocks[e.to] {
			exits = append(exits, e)
		} else {
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range l.order(fr.Loops) {
		var st *State
		if b == l.Header {
			st = in.clone()
		} else {
			ins := pending[b]
			if len(ins) == 0 {
				continue
			}
			if k := fr.Loops.ByHdr[b]; k != nil && k != l {
				hs := x.joinEdges(b, ins)
				if hs == nil {
					continue
				}
				for _, e := range x.runLoop(fr, k, hs, rets) {
					deliver(e)
				}
				continue
			}
			st = x.joinEdges(b, ins)
			if st == nil {
				continue
			}
		}
		for _, e := range x.runBlock(fr, b, st, rets) {
			deliver(e)
		}
	}
	return
}

// joinEdges binds phis of b per incoming edge, then merges.
func (x *Exec) joinEdges(b *ssa.BasicBlock, ins []edge) *State {
	var sts []*State
	for _, e := range ins {
		if e.st.G == TFalse {
			continue
		}
		s := e.st.clone()
		x.bindPhis(b, e.from, s)
		sts = append(sts, s)
	}
	return x.mergeStates(sts)
}

func (x *Exec) bindPhis(b, from *ssa.BasicBlock, s *State) {
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
			break
		}
	}
	type nv struct {
		p *ssa.Phi
		v Value
	}
	var nvs []nv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nvs = append(nvs, nv{p, x.val(p.Edges[idx], s)})
	}
	for _, n := range nvs {
		s.Env[n.p] = n.v
	}
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, rets *[]retEdge) []edge {
	for _, in := range b.Instrs {
		x.steps++
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.If:
			c := x.boolTerm(x.val(i.Cond, st), st)
			if c != TTrue && c != TFalse {
				x.undecid[fr] = true
			}
			// the condition may be decided by the path condition
			if c != TTrue && c != TFalse {
				if impliedBy(st.G, c) {
					c = TTrue
				} else if impliedBy(st.G, mkNot(c)) {
					c = TFalse
				}
			}
			var out []edge
			if c != TFalse {
				s := st
				if c != TTrue {
					s = st.clone()
				}
				s.G = mkAnd(st.G, c)
				out = append(out, edge{b, b.Succs[0], s})
			}
			if c != TTrue {
				s := st.clone()
				if c != TFalse {
					// st.G was possibly replaced only on the clone
				}
				s.G = mkAnd(st.G, mkNot(c))
				out = append(out, edge{b, b.Succs[1], s})
			}
			// both branches to the same block: keep distinct edges
			return out
		case *ssa.Return:
			var v Value
			if len(i.Results) == 1 {
				v = x.val(i.Results[0], st)
			} else if len(i.Results) > 1 {
				t := TupleV{}
				for _, r := range i.Results {
					t = append(t, x.val(r, st))
				}
				v = t
			}
			*rets = append(*rets, retEdge{st, v})
			return nil
		case *ssa.Panic:
			if !x.spec {
				x.oblige("safety", "explicit panic in "+shortFn(fr.Fn), st, TFalse, i.Pos())
			}
			return nil
		default:
			x.instr(fr, in, st)
			if st.G == TFalse {
				return nil
			}
		}
	}
	unsup("block without terminator")
	return nil
}

func impliedBy(g, c *Term) bool {
	if g == c {
		return true
	}
	if g.Op == OAnd {
		for _, a := range g.Args {
			if a == c {
				return true
			}
		}
	}
	if c.Op == OAnd {
		for _, a := range c.Args {
			if !impliedBy(g, a) {
				return false
			}
		}
		return true
	}
	if c.Op == OOr && len(c.Args) <= 8 {
		for _, a := range c.Args {
			if a.Op != OOr && a.Op != OAnd && impliedBy(g, a) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- loops

type slotKey struct {
	phi  *ssa.Phi
	cell string // cell name
	path string // leaf path in StructV
}

type modInfo struct {
	slots  map[slotKey]bool
	inc    map[slotKey]int64 // closed-form increment
	noInc  map[slotKey]bool
	restr  map[string]bool            // cells whose structure (not only leaves) changes
	writes map[string]map[string]bool // cell -> leaf write patterns
}

// ---- frame conditions: a loop that only writes leaves of a nested structure
// leaves everything else of it as it was.

type frameInfo struct {
	et   types.Type // element type
	pats []string   // patterns below the element
	uid  string
}

var frames = map[string]*frameInfo{}

func patOf(p []Step) string {
	var b strings.Builder
	for _, s := range p {
		switch s.Kind {
		case 0:
			fmt.Fprintf(&b, ".%d", s.F)
		case 1:
			b.WriteString(".i")
		case 2:
			b.WriteString(".d")
		}
	}
	return b.String()
}

func cutPat(pats []string, head string) []string {
	var out []string
	for _, p := range pats {
		if p == head || strings.HasPrefix(p, head+".") {
			out = append(out, p[len(head):])
		}
	}
	return out
}

// frameSeq: the sequence e after leaf writes of the given patterns (each starting with an index).
func frameSeq(e *Term, t types.Type, pats []string, uid string, args []*Term) *Term {
	var et types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	}
	sub := cutPat(pats, ".i")
	if et == nil || len(sub) != len(pats) {
		return nil
	}
	name := "frame:" + uid + "[" + strings.Join(pats, ",") + "]"
	frames[name] = &frameInfo{et: et, pats: sub, uid: uid}
	return mkApp(name, e.Sort, append([]*Term{e}, args...)...)
}

func frameOf(t *Term) *frameInfo {
	if t.Op == OApp && strings.HasPrefix(t.S, "frame:") {
		return frames[t.S]
	}
	return nil
}

func (f *frameInfo) nth(app, i *Term) *Term {
	args := append(append([]*Term{}, app.Args[1:]...), i)
	return frameVal(mkSeqNth(app.Args[0], i), f.et, f.pats, f.uid, args)
}

func frameVal(base *Term, t types.Type, pats []string, uid string, args []*Term) *Term {
	if len(pats) == 0 {
		return base
	}
	for _, p := range pats {
		if p == "" {
			return mkApp("leaf:"+uid, base.Sort, args...)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := base.Sort.DT.Ctors
		in := frameVal(mkSel(c[1].Name, 0, base), u.Elem(), cutPat(pats, ".d"), uid+".d", args)
		return mkIte(mkIs(c[0].Name, base), base, mkMk(base.Sort, c[1].Name, in))
	case *types.Struct:
		c := base.Sort.DT.Ctors[0]
		as := make([]*Term, len(c.Fields))
		for i := range as {
			as[i] = frameVal(mkSel(c.Name, i, base), u.Field(i).Type(), cutPat(pats, fmt.Sprintf(".%d", i)), fmt.Sprintf("%s.%d", uid, i), args)
		}
		return mkMk(base.Sort, c.Name, as...)
	case *types.Slice:
		if r := frameSeq(base, t, pats, uid, args); r != nil {
			return r
		}
	}
	return mkApp("leaf:"+uid, base.Sort, args...)
}

func (x *Exec) headerDecided(fr *Frame, l *Loop, s *State) bool {
	b := l.Header
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// the If must be able to leave the loop
	if l.Blocks[b.Succs[0]] && l.Blocks[b.Succs[1]] {
		return false
	}
	nf, no := len(x.facts), len(x.obls)
	saveFresh := snapshotFresh()
	st := s.clone()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		x.instr(fr, in, st)
	}
	c := x.boolTerm(x.val(last.Cond, st), st)
	x.facts, x.obls = x.facts[:nf], x.obls[:no]
	restoreFresh(saveFresh)
	return c == TTrue || c == TFalse
}

func snapshotFresh() map[string]int {
	m := make(map[string]int, len(freshCount))
	for k, v := range freshCount {
		m[k] = v
	}
	return m
}
func restoreFresh(m map[string]int) { freshCount = m }

const unrollMax = 400

func (x *Exec) runLoop(fr *Frame, l *Loop, s *State, rets *[]retEdge) (exits []edge) {
	saveUnroll := fr.Unroll
	defer func() { fr.Unroll = saveUnroll }()
	for it := 0; ; it++ {
		if s == nil || s.G == TFalse {
			return
		}
		fr.Unroll = fmt.Sprintf("%s@%d.%d", saveUnroll, l.Header.Index, it)
		if !x.headerDecided(fr, l, s) {
			if x.H != nil && x.H.Bounded > 0 && !x.spec && it <= x.H.Bounded {
				// bounded mode: symbolic unrolling up to the stated bound
				if it == x.H.Bounded {
					// cut off: assume no further iteration
					_, ex := x.runRegionOnceExitOnly(fr, l, s, rets)
					exits = append(exits, ex...)
					return
				}
				backs, ex := x.runRegion(fr, l, s, rets)
				exits = append(exits, ex...)
				s = x.joinEdges(l.Header, backs)
				continue
			}
			exits = append(exits, x.cutLoop(fr, l, s, rets)...)
			return
		}
		if it > unrollMax {
			unsup("unroll limit in %s", fr.Fn.Name())
		}
		backs, ex := x.runRegion(fr, l, s, rets)
		exits = append(exits, ex...)
		s = x.joinEdges(l.Header, backs)
	}
}

func (x *Exec) runRegionOnceExitOnly(fr *Frame, l *Loop, s *State, rets *[]retEdge) ([]edge, []edge) {
	nf, no := len(x.facts), len(x.obls)
	var r2 []retEdge
	st := s.clone()
	var out []edge
	for _, e := range x.runBlock(fr, l.Header, st, &r2) {
		if !l.Blocks[e.to] {
			out = append(out, e)
		}
	}
	_ = nf
	_ = no
	return nil, out
}

// leaves enumerates leaf paths of a cell value.
func leaves(v Value, path string, visit func(path string, v Value)) {
	if s, ok := v.(*StructV); ok && len(s.F) > 0 {
		for i, f := range s.F {
			leaves(f, fmt.Sprintf("%s.%d", path, i), visit)
		}
		return
	}
	visit(path, v)
}

func getLeaf(v Value, path string) Value {
	if path == "" {
		return v
	}
	for _, p := range strings.Split(path[1:], ".") {
		var i int
		fmt.Sscan(p, &i)
		s, ok := v.(*StructV)
		if !ok {
			return nil
		}
		v = s.F[i]
	}
	return v
}

func setLeaf(v Value, path string, nv Value) Value {
	if path == "" {
		return nv
	}
	rest := path[1:]
	head := rest
	tail := ""
	if i := strings.Index(rest, "."); i >= 0 {
		head, tail = rest[:i], rest[i:]
	}
	var i int
	fmt.Sscan(head, &i)
	s := v.(*StructV)
	n := &StructV{T: s.T, F: append([]Value{}, s.F...)}
	n.F[i] = setLeaf(s.F[i], tail, nv)
	return n
}

func leafGoType(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	if opaqueStruct(t) != nil {
		return types.Typ[types.String]
	}
	for _, p := range strings.Split(path[1:], ".") {
		var i int
		fmt.Sscan(p, &i)
		if opaqueStruct(t) != nil {
			return types.Typ[types.String]
		}
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (x *Exec) cutLoop(fr *Frame, l *Loop, s *State, rets *[]retEdge) []edge {
	key := fr.Path + "#" + fmt.Sprint(l.Header.Index) + fr.Unroll
	mi := x.modCache[key]
	var phis []*ssa.Phi
	for _, in := range l.Header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	known := mi != nil
	if !known {
		mi = &modInfo{slots: map[slotKey]bool{}, inc: map[slotKey]int64{}, noInc: map[slotKey]bool{}, restr: map[string]bool{}, writes: map[string]map[string]bool{}}
		for _, p := range phis {
			mi.slots[slotKey{phi: p}] = true
		}
		x.modCache[key] = mi
	}
	for attempt := 0; ; attempt++ {
		nf, no := len(x.facts), len(x.obls)
		fs := snapshotFresh()
		vc := x.verCtr
		undo := func() {
			x.facts, x.obls = x.facts[:nf], x.obls[:no]
			restoreFresh(fs)
			x.verCtr = vc
		}
		for round := 0; !known; round++ {
			if round > 40 {
				unsup("modification set does not stabilise in %s", fr.Fn.Name())
			}
			var r2 []retEdge
			changed := x.loopPass(fr, l, s, mi, key, phis, &r2, true, nil)
			undo()
			if !changed {
				break
			}
		}
		var exits []edge
		var r2 []retEdge
		if !x.loopPass(fr, l, s, mi, key, phis, &r2, false, &exits) {
			*rets = append(*rets, r2...)
			return exits
		}
		// the set was computed for another entry state: grow it further
		undo()
		known = false
		if attempt > 20 {
			unsup("unstable loop modification set in %s", fr.Fn.Name())
		}
	}
}

func cellByName(st *State, name string) *Cell {
	for c := range st.Cells {
		if c.Name == name {
			return c
		}
	}
	return nil
}

// loopPass runs the loop body once from a havocked header.  In dry mode it
// grows mi and reports whether it changed; in real mode it emits invariant
// obligations and collects exits.
func (x *Exec) loopPass(fr *Frame, l *Loop, s *State, mi *modInfo, key string, phis []*ssa.Phi, rets *[]retEdge, dry bool, exits *[]edge) bool {
	x.ownSlices(fr, s, func(m mutSite) bool {
		in, ok := m.s.(ssa.Instruction)
		return l.Blocks[m.instr.Block()] && (!ok || !l.Blocks[in.Block()])
	})
	h := s.clone()
	k := freshVar("k", IntS)
	knownNonneg[k.ID] = true
	x.fact(mkLe(mkInt(0), k))
	cells := map[string]*Cell{}
	for c := range s.Cells {
		cells[c.Name] = c
	}
	type slot struct {
		sk    slotKey
		name  string
		t     types.Type
		entry Value
		head  Value
	}
	var slots []*slot
	// ordered list of slots
	var order []slotKey
	for _, p := range phis {
		if mi.slots[slotKey{phi: p}] {
			order = append(order, slotKey{phi: p})
		}
	}
	var cs []slotKey
	for sk := range mi.slots {
		if sk.phi == nil {
			cs = append(cs, sk)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].cell+cs[i].path < cs[j].cell+cs[j].path })
	order = append(order, cs...)
	touched := map[*Cell]bool{}
	for _, sk := range order {
		sl := &slot{sk: sk}
		if sk.phi != nil {
			sl.name = sk.phi.Comment + "~" + sk.phi.Name()
			sl.t = sk.phi.Type()
			sl.entry = s.Env[sk.phi]
		} else {
			c := cells[sk.cell]
			if c == nil {
				continue
			}
			sl.name = c.Name + sk.path
			sl.t = leafGoType(c.T, sk.path)
			sl.entry = getLeaf(s.Cells[c].V, sk.path)
			touched[c] = true
		}
		if inc, ok := mi.inc[sk]; ok {
			e := x.toTerm(sl.entry, sl.t, s)
			sl.head = mkAdd(e, mkMul(mkInt(inc), k))
			if m := uintMax(sl.t); m > 0 {
				// no wraparound is part of the closed form: leave to general havoc
				delete(mi.inc, sk)
				mi.noInc[sk] = true
				sl.head = x.havoc("lv_"+lastName(sl.name), sl.t, h)
			}
		} else if mr, ok := sl.entry.(*MapRef); ok {
			// a map variable set to another map: both maps are referred to by
			// this variable only, so the variable stands for its content
			x.sole(fr, mr.Cell, s)
			c := x.newCell(key+":"+sl.name+".map", sl.t, x.havocMap("lv_"+lastName(sl.name), sl.t, h), h)
			sl.head = &MapRef{Cell: c}
		} else {
			sl.head = x.havocLike("lv_"+lastName(sl.name), sl.t, sl.entry, h)
			if et, ok := sl.entry.(*Term); ok && sk.phi == nil && et.Sort.Kind == SSeq && !mi.restr[sk.cell] {
				var pats []string
				for p := range mi.writes[sk.cell] {
					pats = append(pats, p)
				}
				sort.Strings(pats)
				if pats = cutPat(pats, sk.path); len(pats) > 0 {
					if ht, ok := sl.head.(*Term); ok && ht.Op == OVar {
						if f := frameSeq(et, sl.t, pats, ht.S, nil); f != nil {
							sl.head = f
						}
					}
				}
			}
		}
		if sk.phi != nil {
			h.Env[sk.phi] = sl.head
		} else {
			c := cells[sk.cell]
			n := *h.Cells[c]
			n.V = setLeaf(n.V, sk.path, sl.head)
			h.Cells[c] = &n
		}
		slots = append(slots, sl)
	}
	for c := range touched {
		n := *h.Cells[c]
		x.verCtr++
		n.NW = x.verCtr
		if mi.restr[c.Name] {
			x.verCtr++
			n.SV = x.verCtr
		}
		h.Cells[c] = &n
	}
	for _, sl := range slots {
		if sl.sk.phi != nil || mi.restr[sl.sk.cell] {
			continue
		}
		// only leaves are written: every length stays
		if et, ok := sl.entry.(*Term); ok && et.Sort.Kind == SSeq {
			if ht, ok := sl.head.(*Term); ok {
				x.fact(mkEq(mkSeqLen(ht), mkSeqLen(et)))
			}
		}
	}
	// invariant candidates
	var insts []*candInst
	if !x.spec {
		svs := make([]slotView, len(slots))
		for i, sl := range slots {
			_, closed := mi.inc[sl.sk]
			svs[i] = slotView{name: sl.name, t: sl.t, entry: x.slotTerm(sl.entry, sl.t, s), head: x.slotTerm(sl.head, sl.t, h), closed: closed}
		}
		insts = x.candidates(fr, l, key, s, h, k, svs, dry)
		for _, ci := range insts {
			x.fact(mkImplies(h.G, ci.head))
		}
	}
	var r2 []retEdge
	outerLog := x.writeLog
	x.writeLog = map[string]map[string]bool{}
	backs, ex := x.runRegion(fr, l, h, &r2)
	b := x.joinEdges(l.Header, backs)
	changed := false
	mark := func(why int) {
		changed = true
		if !dry && debugVC {
			fmt.Printf("late modification (%d) in %s\n", why, key)
		}
	}
	inner := x.writeLog
	for c := range inner {
		if cells[c] == nil { // allocated in the loop
			delete(inner, c)
		}
	}
	for c, ps := range inner {
		if mi.writes[c] == nil {
			mi.writes[c] = map[string]bool{}
		}
		for p := range ps {
			if !mi.writes[c][p] {
				mi.writes[c][p] = true
				if !dry && debugVC {
					fmt.Println("late write", c, p)
				}
				mark(0)
			}
			if outerLog != nil {
				if outerLog[c] == nil {
					outerLog[c] = map[string]bool{}
				}
				outerLog[c][p] = true
			}
		}
	}
	x.writeLog = outerLog
	if b != nil {
		for _, sl := range slots {
			var bv Value
			if sl.sk.phi != nil {
				bv = b.Env[sl.sk.phi]
			} else {
				bv = getLeaf(b.Cells[cells[sl.sk.cell]].V, sl.sk.path)
			}
			if _, ok := sl.head.(*MapRef); ok {
				mr, ok := bv.(*MapRef)
				if !ok {
					unsup("map variable reassigned in a loop")
				}
				x.sole(fr, mr.Cell, b)
			}
			if sortIsInt(sl.t) && uintMax(sl.t) == 0 {
				ht := x.toTerm(sl.head, sl.t, h)
				bt := x.toTerm(bv, sl.t, b)
				d := mkSub(bt, ht)
				if inc, ok := mi.inc[sl.sk]; ok {
					if !(d.isInt() && d.I == inc) {
						delete(mi.inc, sl.sk)
						mi.noInc[sl.sk] = true
						mark(1)
					}
				} else if !mi.noInc[sl.sk] {
					if d.isInt() {
						mi.inc[sl.sk] = d.I
					} else {
						mi.noInc[sl.sk] = true
					}
					mark(2)
				}
			}
		}
		for _, c := range sortedCells(s.Cells) {
			n := b.Cells[c]
			if n == nil {
				continue
			}
			hv := h.Cells[c].V
			if n.SV != h.Cells[c].SV && !mi.restr[c.Name] {
				mi.restr[c.Name] = true
				mark(3)
			}
			if n.V == hv {
				continue
			}
			leaves(hv, "", func(p string, v Value) {
				nv := getLeaf(n.V, p)
				if nv == nil {
					unsup("loop changes shape of %s", c.Name)
				}
				if !sameValue(v, nv) && !mi.slots[slotKey{cell: c.Name, path: p}] {
					if !dry && debugVC {
						fmt.Printf("late modification of %s%s: %v -> %v\n", c.Name, p, v, nv)
					}
					mi.slots[slotKey{cell: c.Name, path: p}] = true
					mark(4)
				}
			})
		}
	}
	if dry {
		return changed
	}
	if changed {
		return true
	}
	for _, sl := range slots {
		_ = sl
	}
	// the first iteration (used to discard candidates cheaply)
	var first []*Term
	if len(insts) > 0 {
		first = append(first, mkEq(k, mkInt(0)))
		for _, sl := range slots {
			he, hh := x.tryTermSpec(sl.entry, sl.t, s), x.tryTermSpec(sl.head, sl.t, h)
			if he != nil && hh != nil && he.Sort == hh.Sort {
				first = append(first, mkEq(hh, he))
			}
		}
	}
	// emit invariant obligations
	for _, ci := range insts {
		if ci.init != TTrue {
			x.obls = append(x.obls, &Obl{Kind: "inv-init", Name: ci.key, Cand: ci.key, Guard: s.G, Cond: ci.init, NFacts: ci.nf, Pos: x.P.pos(l.Header.Instrs[0].Pos())})
		}
		if b != nil {
			args := ci.backArgs(func(name string) Value {
				for _, sl := range slots {
					if sl.name == name {
						if sl.sk.phi != nil {
							return x.slotTerm(b.Env[sl.sk.phi], sl.t, b)
						}
						return x.slotTerm(getLeaf(b.Cells[cells[sl.sk.cell]].V, sl.sk.path), sl.t, b)
					}
				}
				return nil
			}, mkAdd(k, mkInt(1)))
			bt := ci.eval(args, b)
			if bt != TTrue {
				x.obls = append(x.obls, &Obl{Kind: "inv-pres", Name: ci.key, Cand: ci.key, Guard: b.G, Cond: bt, First: first, NFacts: len(x.facts), Pos: x.P.pos(l.Header.Instrs[0].Pos())})
			}
		}
	}
	// returned states carry the havocked slots already
	*rets = append(*rets, r2...)
	*exits = append(*exits, ex...)
	return false
}

// sole requires that a map is referred to by one variable only.
func (x *Exec) sole(fr *Frame, c *Cell, st *State) {
	n := 0
	var visit func(v Value, d int)
	visit = func(v Value, d int) {
		if d > 50 {
			unsup("map variable reassigned in a loop")
		}
		switch a := v.(type) {
		case *MapRef:
			if a.Cell == c {
				n++
			}
		case *StructV:
			for _, f := range a.F {
				visit(f, d+1)
			}
		case *SeqV:
			for _, f := range a.E {
				visit(f, d+1)
			}
		case *MapC:
			for _, f := range a.Vals {
				visit(f, d+1)
			}
		case TupleV:
			for _, f := range a {
				visit(f, d+1)
			}
		case *IfaceV:
			visit(a.V, d+1)
		case *ClosureV:
			for _, f := range a.B {
				visit(f, d+1)
			}
		case *IteV:
			visit(a.A, d+1)
			visit(a.B, d+1)
		case *ProvV:
			visit(a.Snap, d+1)
		case *ROAddr:
			visit(a.V, d+1)
		}
	}
	env := func(m map[ssa.Value]Value) {
		for _, v := range m {
			visit(v, 0)
		}
	}
	env(st.Env)
	for f := fr; f != nil; f = f.Parent {
		env(f.CallerEnv)
	}
	for _, cs := range st.Cells {
		visit(cs.V, 0)
	}
	if n != 1 {
		unsup("map variable reassigned in a loop and shared (%d references)", n)
	}
}

func lastName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func sortIsInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// slotTerm gives the value handed to invariant templates.
func (x *Exec) slotTerm(v Value, t types.Type, st *State) Value {
	switch a := v.(type) {
	case *MapC:
		return x.mapTerm(a, t, st)
	case *MapRef:
		return x.mapTerm(st.Cells[a.Cell].V, t, st)
	case *ProvV:
		return x.resolve(a, st)
	}
	return v
}

func (x *Exec) havocLike(name string, t types.Type, entry Value, st *State) Value {
	switch entry.(type) {
	case *MapC:
		return x.havocMap(name, t, st)
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		if tm, ok := entry.(*Term); ok && tm.Sort.Kind == SData {
			return x.havocMap(name, t, st)
		}
		unsup("map variable reassigned in a loop")
	}
	if r, ok := entry.(*Ref); ok {
		// pointer variable re-pointed in a loop: becomes a value pointer
		_ = r
	}
	return x.havoc(name, t, st)
}

func (x *Exec) havocMap(name string, t types.Type, st *State) Value {
	v := freshVar(name, sortOf(t))
	sz := mkSel(v.Sort.DT.Ctors[0].Name, 2, v)
	x.fact(mkLe(mkInt(0), sz))
	return v
}

// ---------------------------------------------------------------- operand values

func (x *Exec) val(v ssa.Value, st *State) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &ClosureV{Fn: c}
	case *ssa.Global:
		return &Ref{Cell: x.globalCell(c, st)}
	case *ssa.Builtin:
		return c
	}
	r, ok := st.Env[v]
	if !ok {
		unsup("no value for %s (%T) in %s", v.Name(), v, v.Parent())
	}
	if r == nil {
		unsup("poisoned value %s", v.Name())
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return mkInt(i)
		case b.Info()&types.IsString != 0:
			return mkStr(constant.StringVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			return mkApp("float:"+c.Value.ExactString(), unintSort("Float"))
		}
	}
	unsup("constant of type %s", t)
	return nil
}

func (x *Exec) boolTerm(v Value, st *State) *Term {
	t, ok := x.plain(v, st).(*Term)
	if !ok {
		if iv, ok := v.(*IteV); ok {
			return mkIte(iv.C, x.boolTerm(iv.A, st), x.boolTerm(iv.B, st))
		}
		unsup("boolean expected, got %T", v)
	}
	return t
}

func (x *Exec) intTerm(v Value, st *State) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("int expected, got %T", v)
	}
	return t
}

// globalCell returns the cell of a package variable, running the package
// initialiser on first use.
func (x *Exec) globalCell(g *ssa.Global, st *State) *Cell {
	if c, ok := x.globals[g]; ok {
		if st.Cells[c] == nil {
			st.Cells[c] = x.P.globInit(x, g)
		}
		return c
	}
	x.cellCtr++
	c := &Cell{ID: x.cellCtr, Name: "global:" + g.String(), T: g.Type().Underlying().(*types.Pointer).Elem()}
	x.globals[g] = c
	x.globBy[c] = g
	st.Cells[c] = x.P.globInit(x, g)
	return c
}
