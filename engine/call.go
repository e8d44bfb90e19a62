package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (x *Exec) call(fr *Frame, i *ssa.Call, st *State) Value {
	c := i.Common()
	fr.calls[i]++
	x.curCall = i
	site := fmt.Sprintf("%s.%s", calleeName(c), i.Name())
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, st, i)
	}
	var args []Value
	if c.IsInvoke() {
		recv := x.val(c.Value, st)
		for _, a := range c.Args {
			args = append(args, x.val(a, st))
		}
		return x.invoke(fr, recv, c, args, st, site, i.Pos())
	}
	for _, a := range c.Args {
		args = append(args, x.val(a, st))
	}
	if sc := c.StaticCallee(); sc != nil {
		var bind []Value
		if cl, ok := c.Value.(*ssa.MakeClosure); ok {
			bind = x.val(cl, st).(*ClosureV).B
		}
		return x.callStatic(fr, sc, args, bind, st, site, i.Pos())
	}
	fv := x.val(c.Value, st)
	return x.callValue(fr, fv, c.Signature(), args, st, site, i.Pos())
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return "dyn"
}

// withState runs f on a state restricted by cond and merges back.
func (x *Exec) splitCall(st *State, cond *Term, f, g func(s *State) Value, rt types.Type) Value {
	if cond == TTrue {
		return f(st)
	}
	if cond == TFalse {
		return g(st)
	}
	s1, s2 := st.clone(), st.clone()
	s1.G = mkAnd(st.G, cond)
	s2.G = mkAnd(st.G, mkNot(cond))
	var v1, v2 Value
	if s1.G != TFalse {
		v1 = f(s1)
	}
	if s2.G != TFalse {
		v2 = g(s2)
	}
	m := x.mergeStates([]*State{s1, s2})
	if m == nil {
		st.G = TFalse
		return nil
	}
	st.G, st.Cells = m.G, m.Cells
	switch {
	case s1.G == TFalse || v1 == nil && v2 != nil:
		return v2
	case s2.G == TFalse || v2 == nil:
		return v1
	}
	return x.mergeV(cond, v1, v2, rt, st)
}

func (x *Exec) callValue(fr *Frame, fv Value, sig *types.Signature, args []Value, st *State, site string, pos token.Pos) Value {
	switch f := fv.(type) {
	case *ClosureV:
		return x.callStatic(fr, f.Fn, args, f.B, st, site, pos)
	case *NilV:
		x.safety("call of nil function", fr, st, TFalse, pos)
		return nil
	case *IteV:
		var rt types.Type
		return x.splitCall(st, f.C,
			func(s *State) Value { return x.callValue(fr, f.A, sig, args, s, site+"a", pos) },
			func(s *State) Value { return x.callValue(fr, f.B, sig, args, s, site+"b", pos) }, rt)
	case *OpaqueV:
		if f.Kind == "memo" {
			return x.callValue(fr, f.Data.([]Value)[0], sig, args, st, site, pos)
		}
	case *ProvV:
		return x.callValue(fr, x.resolve(f, st), sig, args, st, site, pos)
	case *Term:
		// opaque pure function value
		if f.Sort != fnSort {
			break
		}
		x.safety("call of nil function", fr, st, x.notNil(f, st), pos)
		if sig.Results().Len() != 1 {
			unsup("opaque function with %d results", sig.Results().Len())
		}
		x.trusted["function-typed parameters are pure (deterministic, no side effects)"] = true
		ts := []*Term{f}
		for k, a := range args {
			sp := x.spec
			x.spec = true
			ts = append(ts, x.toTerm(a, sig.Params().At(k).Type(), st))
			x.spec = sp
		}
		return mkApp("apply:"+typeName(sig), sortOf(sig.Results().At(0).Type()), ts...)
	}
	unsup("call of %T", fv)
	return nil
}

func (x *Exec) invoke(fr *Frame, recv Value, c *ssa.CallCommon, args []Value, st *State, site string, pos token.Pos) Value {
	recv = x.plain(recv, st)
	switch r := recv.(type) {
	case *IteV:
		return x.splitCall(st, r.C,
			func(s *State) Value { return x.invoke(fr, r.A, c, args, s, site+"a", pos) },
			func(s *State) Value { return x.invoke(fr, r.B, c, args, s, site+"b", pos) }, nil)
	case *NilV:
		x.safety("method call on nil interface", fr, st, TFalse, pos)
		return nil
	case *IfaceV:
		if v, ok := x.modelInvoke(fr, r, c.Method.Name(), args, st); ok {
			return v
		}
		m := x.P.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			unsup("method %s of %s", c.Method.Name(), r.T)
		}
		return x.callStatic(fr, m, append([]Value{r.V}, args...), nil, st, site, pos)
	case *Term:
		if r.Sort == anySort {
			x.safety("method call on nil interface", fr, st, x.notNil(r, st), pos)
			if c.Method.Name() == "Error" && len(args) == 0 {
				return mkApp("errText", StrS, r)
			}
			// dispatch over the dynamic types the module knows for this interface
			return x.dispatchAny(fr, r, c, args, st, site, pos)
		}
	}
	unsup("invoke %s on %T", c.Method.Name(), recv)
	return nil
}

func (x *Exec) dispatchAny(fr *Frame, r *Term, c *ssa.CallCommon, args []Value, st *State, site string, pos token.Pos) Value {
	it := c.Value.Type().Underlying().(*types.Interface)
	var cands []types.Type
	for _, t := range x.P.implementers(it) {
		cands = append(cands, t)
	}
	if len(cands) == 0 {
		unsup("invoke %s on unknown dynamic type", c.Method.Name())
	}
	var rec func(i int, s *State) Value
	rec = func(i int, s *State) Value {
		if i == len(cands) {
			s.G = TFalse // dynamic type outside the module's implementers: excluded (listed assumption)
			x.trusted["interface values implement "+typeName(c.Value.Type())+" through a type of this module"] = true
			return nil
		}
		ct := anyCtor(cands[i])
		return x.splitCall(s, mkIs(ct.Name, r),
			func(s *State) Value {
				m := x.P.Prog.LookupMethod(cands[i], c.Method.Pkg(), c.Method.Name())
				return x.callStatic(fr, m, append([]Value{mkSel(ct.Name, 0, r)}, args...), nil, s, fmt.Sprintf("%s~%d", site, i), pos)
			},
			func(s *State) Value { return rec(i+1, s) }, nil)
	}
	return rec(0, st)
}

func (x *Exec) callStatic(fr *Frame, fn *ssa.Function, args, bind []Value, st *State, site string, pos token.Pos) Value {
	name := fn.String()
	if v, ok := x.modelCall(fr, fn, name, args, st, pos); ok {
		return v
	}
	if repl, by := x.P.contractFor(fn, x.H); repl != nil && !x.inInit {
		if x.P.nativeOnly(by) {
			x.contr[shortFn(fn)+" (contract executed on generated inputs, not proved, by "+by+")"] = true
			x.trusted["contract of "+shortFn(fn)+": bounded stand-in, executed on generated inputs by "+by+", not proved"] = true
		} else {
			x.contr[shortFn(fn)+" (contract proved by "+by+")"] = true
		}
		fn = repl
		name = fn.String()
	}
	if x.P.isLogic(fn) {
		return x.callLogic(fn, args, st)
	}
	if x.inInit && !x.P.inModule(fn) {
		unsup("external call in init: %s", name)
	}
	if !x.P.inModule(fn) && !(fn.Pkg == nil && len(fn.Blocks) > 0) && !x.P.inlineExternal(name) {
		unsup("external function %s has no model", name)
	}
	if x.inInit && fn.Name() == "init" {
		return nil
	}
	if x.H != nil && x.H.Opaque[shortFn(fn)] && !x.inSpecEval() {
		return x.callLogicOpaque(fn, args, st)
	}
	if x.H != nil && x.H.Effect[shortFn(fn)] {
		return x.callEffect(fn, args, st)
	}
	var pre map[*Cell]Value
	u := x.P.provedHere(fn, x.H)
	if u != nil && !x.inInit {
		pre = map[*Cell]Value{}
		for c, s := range st.Cells {
			pre[c] = s.V
		}
		for i, p := range u.repl.Params {
			a := x.plain(args[i], st)
			if iv, ok := a.(*IfaceV); ok {
				a = x.plain(iv.V, st)
			}
			if r, ok := a.(*Ref); ok && u.modifies[p.Name()] {
				delete(pre, r.Cell)
			}
		}
	}
	s2, v := x.callFn(fn, args, bind, st, site)
	st.G, st.Cells = s2.G, s2.Cells
	if u != nil {
		x.frameOf(fn, u, pre, st, pos)
	}
	return v
}

// frameOf: a function with a contract changes nothing but what the contract
// names (its callers see the contract only).
func (x *Exec) frameOf(fn *ssa.Function, u *useDecl, pre map[*Cell]Value, st *State, pos token.Pos) {
	var cs []*Cell
	for c := range pre {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		s := st.Cells[c]
		if s == nil || sameValue(s.V, pre[c]) || strings.HasPrefix(c.Name, "ghost:") && u.modifies["files"] {
			continue
		}
		if g := x.globBy[c]; g != nil && x.P.memoOf(u, g) {
			continue
		}
		old := st.clone()
		x.oblige("frame", shortFn(fn)+" leaves "+c.Name+" unchanged", st, mkEq(x.toTermQ(pre[c], c.T, old), x.toTermQ(s.V, c.T, st)), pos)
	}
}

// callEffect abstracts a deterministic function by what it computes from its
// arguments: its result and the values it leaves in what its pointer
// arguments point to are uninterpreted functions of the argument values.
func (x *Exec) callEffect(fn *ssa.Function, args []Value, st *State) Value {
	if why := x.P.nondeterministic(fn, map[*ssa.Function]bool{}); why != "" {
		if x.H.Assumed[shortFn(fn)] == "" {
			unsup("%s may not be deterministic: %s", shortFn(fn), why)
		}
		x.trusted["determinism: "+shortFn(fn)+" is taken to be deterministic (unchecked: "+why+")"] = true
	} else {
		x.trusted["determinism: "+shortFn(fn)+" has no source of nondeterminism (checked: no map iteration, goroutine, global or I/O besides reading and writing files in it or its callees)"] = true
	}
	reads, writes := x.P.fileAccess(fn, map[*ssa.Function]bool{})
	files := ghostCell("ghost:files", st)
	if reads && x.filesLen(st) != mkInt(0) {
		unsup("effect of %s, which reads files, after files were written", shortFn(fn))
	}
	isWriter := func(t types.Type) bool { return typeName(t) == "io.Writer" }
	var ts []*Term
	inner := map[int][]Value{}
	bare := st.clone()
	for i, p := range fn.Params {
		if isWriter(p.Type()) {
			continue
		}
		inner[i] = x.stripWriters(args[i], p.Type(), bare, map[*Cell]bool{})
		ts = append(ts, x.toTermQ(args[i], p.Type(), bare))
	}
	for i, p := range fn.Params {
		if isWriter(p.Type()) { // what is written depends on the other arguments only
			iv, ok := x.plain(args[i], st).(*IfaceV)
			if !ok {
				unsup("effect of %s on a writer of unknown type", shortFn(fn))
			}
			if _, ok := x.modelInvoke(nil, iv, "Write", []Value{mkApp(fmt.Sprintf("out%d:%s", i, shortFn(fn)), StrS, ts...)}, st); !ok {
				unsup("effect of %s on a writer", shortFn(fn))
			}
			continue
		}
		for k, w := range inner[i] {
			iv, ok := w.(*IfaceV)
			if !ok {
				unsup("effect of %s on a writer of unknown type", shortFn(fn))
			}
			if _, ok := x.modelInvoke(nil, iv, "Write", []Value{mkApp(fmt.Sprintf("out%d.%d:%s", i, k, shortFn(fn)), StrS, ts...)}, st); !ok {
				unsup("effect of %s on a writer", shortFn(fn))
			}
		}
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		r, ok := x.plain(args[i], st).(*Ref)
		if !ok || len(inner[i]) > 0 {
			x.trusted["frame: "+shortFn(fn)+" is taken to leave what its argument "+p.Name()+" points to unchanged (unchecked)"] = true
			continue
		}
		x.store(r, x.explode(mkApp(fmt.Sprintf("post%d:%s", i, shortFn(fn)), sortOf(pt.Elem()), ts...), pt.Elem(), st), pt.Elem(), st)
	}
	if writes && files != nil {
		x.filesAppend(files, mkApp("files:"+shortFn(fn), sortOf(files.T), ts...), st)
	}
	res := fn.Signature.Results()
	one := func(i int) Value {
		if types.Identical(res.At(i).Type(), types.Universe.Lookup("error").Type()) {
			return x.maybeError(mkApp(fmt.Sprintf("ok%d:%s", i, shortFn(fn)), BoolS, ts...), "error of "+shortFn(fn))
		}
		return mkApp(fmt.Sprintf("res%d:%s", i, shortFn(fn)), sortOf(res.At(i).Type()), ts...)
	}
	switch res.Len() {
	case 0:
		return TupleV{}
	case 1:
		return one(0)
	}
	var r TupleV
	for i := 0; i < res.Len(); i++ {
		r = append(r, one(i))
	}
	return r
}

// stripWriters takes the writers out of what v points to.
func (x *Exec) stripWriters(v Value, t types.Type, st *State, seen map[*Cell]bool) []Value {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	r, ok := x.plain(v, st).(*Ref)
	if !ok || seen[r.Cell] {
		return nil
	}
	seen[r.Cell] = true
	u, ok := isStruct(pt.Elem())
	if !ok {
		return nil
	}
	sv, ok := x.load(r, pt.Elem(), st).(*StructV)
	if !ok {
		return nil
	}
	var ws []Value
	n := &StructV{T: sv.T, F: append([]Value{}, sv.F...)}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if typeName(ft) == "io.Writer" {
			ws = append(ws, x.plain(sv.F[i], st))
			n.F[i] = zeroValue(ft)
		} else {
			ws = append(ws, x.stripWriters(sv.F[i], ft, st, seen)...)
		}
	}
	if len(ws) > 0 {
		cur := x.load(r, pt.Elem(), st).(*StructV)
		for i := range n.F {
			if typeName(u.Field(i).Type()) != "io.Writer" {
				n.F[i] = cur.F[i]
			}
		}
		x.store(r, n, pt.Elem(), st)
	}
	return ws
}

// fileAccess: whether fn or its callees read or write files.
func (p *Program) fileAccess(fn *ssa.Function, seen map[*ssa.Function]bool) (reads, writes bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	if !p.inModule(fn) {
		switch fn.String() {
		case "io/ioutil.ReadFile", "os.ReadFile", "os.Open":
			return true, false
		case "io/ioutil.WriteFile", "os.WriteFile", "os.Create":
			return false, true
		}
		return strings.HasSuffix(fn.String(), "/xlsx.OpenFile"), strings.HasSuffix(fn.String(), "/xlsx.File).Save")
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if i, ok := in.(ssa.CallInstruction); ok {
				if f := i.Common().StaticCallee(); f != nil {
					r, w := p.fileAccess(f, seen)
					reads, writes = reads || r, writes || w
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				r, w := p.fileAccess(mc.Fn.(*ssa.Function), seen)
				reads, writes = reads || r, writes || w
			}
		}
	}
	return
}

func (p *Program) nondeterministic(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, u := range p.uses {
		if u.target == shortFn(fn) {
			return "" // has a contract that gives its result
		}
	}
	if !p.inModule(fn) {
		n := fn.String()
		switch n {
		case "io/ioutil.ReadFile", "os.ReadFile", "os.Open", "io/ioutil.WriteFile", "os.WriteFile", "os.MkdirAll":
			return "" // recorded by fileAccess
		}
		for _, bad := range []string{"os.", "io/ioutil.", "time.", "math/rand.", "(*os."} {
			if strings.HasPrefix(n, bad) {
				return "calls " + n
			}
		}
		return ""
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send:
				return "concurrency"
			case *ssa.Range:
				if _, ok := i.X.Type().Underlying().(*types.Map); ok {
					return "map iteration in " + shortFn(fn)
				}
			case *ssa.Store:
				if g, ok := i.Addr.(*ssa.Global); ok {
					return "writes " + g.String()
				}
			case ssa.CallInstruction:
				if f := i.Common().StaticCallee(); f != nil {
					if w := p.nondeterministic(f, seen); w != "" {
						return w
					}
				}
			}
			for _, op := range in.Operands(nil) {
				switch f := (*op).(type) {
				case *ssa.Function:
					if w := p.nondeterministic(f, seen); w != "" {
						return w
					}
				case *ssa.Global:
					if f.Pkg != nil && p.inModulePkg(f.Pkg) && !p.initOnly(f) {
						return "reads " + f.String()
					}
				}
			}
			if mi, ok := in.(*ssa.MakeInterface); ok {
				ms := p.Prog.MethodSets.MethodSet(mi.X.Type())
				for k := 0; k < ms.Len(); k++ {
					if m := p.Prog.MethodValue(ms.At(k)); m != nil && p.inModule(m) {
						if w := p.nondeterministic(m, seen); w != "" {
							return w
						}
					}
				}
			}
		}
	}
	return ""
}

func (p *Program) inModulePkg(pk *ssa.Package) bool {
	return pk.Pkg.Path() == modPath || strings.HasPrefix(pk.Pkg.Path(), modPath+"/")
}

// initOnly: only package initialisation assigns the global or updates the map in it.
func (p *Program) initOnly(g *ssa.Global) bool {
	if p.written == nil {
		p.written = map[*ssa.Global]bool{}
		root := func(v ssa.Value) *ssa.Global {
			for {
				switch a := v.(type) {
				case *ssa.Global:
					return a
				case *ssa.UnOp:
					v = a.X
				case *ssa.FieldAddr:
					v = a.X
				case *ssa.IndexAddr:
					v = a.X
				default:
					return nil
				}
			}
		}
		for f := range ssautil.AllFunctions(p.Prog) {
			if !p.inModule(f) || f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch s := in.(type) {
					case *ssa.Store:
						p.written[root(s.Addr)] = true
					case *ssa.MapUpdate:
						p.written[root(s.Map)] = true
					}
				}
			}
		}
	}
	return !p.written[g]
}

func (x *Exec) inSpecEval() bool { return false }

// ---------------------------------------------------------------- logical functions

type logicApp struct {
	fn   *ssa.Function
	args []*Term
}

func (x *Exec) logicArgs(fn *ssa.Function, args []Value, st *State) []*Term {
	sp := x.spec
	x.spec = true
	defer func() { x.spec = sp }()
	var ts []*Term
	for i, p := range fn.Params {
		ts = append(ts, x.toTerm(args[i], p.Type(), st))
	}
	return ts
}

func logicName(fn *ssa.Function) string { return "fn:" + shortFn(fn) }

func (x *Exec) callLogic(fn *ssa.Function, args []Value, st *State) Value {
	ts := x.logicArgs(fn, args, st)
	v := x.logicTerm(fn, ts)
	// a map result is a map of its own that the caller may update
	if res := fn.Signature.Results(); res.Len() == 1 {
		if tm, ok := v.(*Term); ok {
			if _, isMap := res.At(0).Type().Underlying().(*types.Map); isMap {
				x.nLogicMaps++
				return &MapRef{Cell: x.newCell(fmt.Sprintf("logicmap%d", x.nLogicMaps), res.At(0).Type(), tm, st)}
			}
		}
	}
	return v
}

func (x *Exec) logicTerm(fn *ssa.Function, ts []*Term) Value {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		unsup("logical function %s must have one result", fn.Name())
	}
	s := sortOf(res.At(0).Type())
	app := mkApp(logicName(fn), s, ts...)
	x.P.logicApps[app.ID] = &logicApp{fn, ts}
	// evaluate directly when the recursion is decided by a constant argument
	try := false
	for _, t := range ts {
		if t.Sort == IntS && t.isInt() {
			try = true
		}
		if t.Op == OSeqEmpty {
			try = true
		}
	}
	if n := len(x.stack); n > 0 && x.depth0 > 0 && x.undecid[x.stack[n-1]] {
		try = false
	}
	if try {
		if r, ok := x.P.constUnfold[app.ID]; ok {
			if r != nil {
				return r
			}
			return app
		}
		r, decided := x.evalLogic(fn, ts)
		if decided {
			x.P.constUnfold[app.ID] = r
			return r
		}
		x.P.constUnfold[app.ID] = nil
	}
	return app
}

// evalLogic evaluates the body of a logical function on terms (one unfolding).
func (x *Exec) evalLogic(fn *ssa.Function, ts []*Term) (r *Term, decided bool) {
	y := x.specExec()
	y.stack = append([]*Frame{}, x.stack...)
	if len(y.stack) > 400 {
		unsup("logical recursion too deep in %s", fn.Name())
	}
	st := &State{G: TTrue, Env: map[ssa.Value]Value{}, Cells: map[*Cell]*CellState{}}
	var args []Value
	for _, t := range ts {
		args = append(args, t)
	}
	y.stack = nil
	y.depth0 = x.depth0 + 1
	if y.depth0 > 300 {
		unsup("logical recursion too deep in %s", fn.Name())
	}
	fr, s2, v := y.callTracked(fn, args, st)
	if v == nil {
		return nil, false // undefined here
	}
	r = y.toTerm(v, fn.Signature.Results().At(0).Type(), s2)
	return r, !y.undecid[fr]
}

func (x *Exec) callTracked(fn *ssa.Function, args []Value, st *State) (*Frame, *State, Value) {
	var got *Frame
	x.onFrame = func(f *Frame) {
		if got == nil {
			got = f
		}
	}
	fr := &Frame{Fn: fn, Path: "logic:" + fn.Name(), Loops: x.P.loops(fn), calls: map[ssa.Instruction]int{}}
	x.stack = append(x.stack, fr)
	in := &State{G: TTrue, Env: map[ssa.Value]Value{}, Cells: st.Cells}
	for i, p := range fn.Params {
		in.Env[p] = args[i]
	}
	rets := x.runFunction(fr, in)
	var sts []*State
	key := &retVal{}
	for _, r := range rets {
		r.st.Env = map[ssa.Value]Value{key: r.val}
		sts = append(sts, r.st)
	}
	m := x.mergeStates(sts)
	if m == nil {
		return fr, st, nil
	}
	return fr, m, m.Env[key]
}

func (x *Exec) specExec() *Exec {
	y := *x
	y.spec = true
	y.undecid = map[*Frame]bool{}
	y.facts = nil
	y.obls = nil
	y.stack = nil
	return &y
}

// callLogicOpaque abstracts a (checked pure) function by an uninterpreted symbol.
func (x *Exec) callLogicOpaque(fn *ssa.Function, args []Value, st *State) Value {
	ts := x.logicArgs(fn, args, st)
	res := fn.Signature.Results()
	if res.Len() != 1 {
		unsup("opaque function %s must have one result", fn.Name())
	}
	app := mkApp(logicName(fn), sortOf(res.At(0).Type()), ts...)
	x.P.logicApps[app.ID] = &logicApp{fn, ts}
	return app
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, st *State, i *ssa.Call) Value {
	switch b.Name() {
	case "len":
		return x.length(x.plain(x.val(c.Args[0], st), st), st)
	case "cap":
		unsup("cap")
	case "append":
		if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.High != nil {
			if _, isS := sl.X.Type().Underlying().(*types.Slice); isS {
				if hi, ok := sl.High.(*ssa.Const); !ok || hi.Int64() != 0 || true {
					unsup("append to a shortened slice (may overwrite shared storage)")
				}
			}
		}
		a := x.plain(x.val(c.Args[0], st), st)
		if len(c.Args) == 1 {
			return a
		}
		bv := x.plain(x.val(c.Args[1], st), st)
		return x.appendV(a, bv, i.Type(), st)
	case "delete":
		x.mapDelete(x.val(c.Args[0], st), c.Args[0].Type(), x.val(c.Args[1], st), st)
		return nil
	case "copy":
		unsup("copy")
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return x.val(c.Args[0], st)
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendV(a, b Value, t types.Type, st *State) Value {
	if ib, ok := a.(*IteV); ok {
		return x.mergeV(ib.C, x.appendV(ib.A, b, t, st), x.appendV(ib.B, b, t, st), t, st)
	}
	if ib, ok := b.(*IteV); ok {
		return x.mergeV(ib.C, x.appendV(a, ib.A, t, st), x.appendV(a, ib.B, t, st), t, st)
	}
	sa, ok1 := a.(*SeqV)
	sb, ok2 := b.(*SeqV)
	if ok1 && ok2 {
		return &SeqV{Elem: sa.Elem, E: append(append([]Value{}, sa.E...), sb.E...), Nil: sa.Nil && len(sb.E) == 0}
	}
	s := sortOf(t)
	if s == StrS {
		return mkStrCat(x.toTerm(a, t, st), x.toTerm(b, t, st))
	}
	return mkSeqCat(s, x.toTerm(a, t, st), x.toTerm(b, t, st))
}

// ---------------------------------------------------------------- fmt

func (x *Exec) ifaceArgs(v Value, st *State) []Value {
	v = x.plain(v, st)
	switch a := v.(type) {
	case *SeqV:
		return a.E
	case *NilV:
		return nil
	}
	unsup("variadic argument %T", v)
	return nil
}

func (x *Exec) sprintf(fr *Frame, format Value, args []Value, st *State, pos token.Pos) *Term {
	f, ok := format.(*Term)
	if !ok {
		unsup("format %T", format)
	}
	if f.Op == OIte {
		return mkIte(f.Args[0], x.sprintf(fr, f.Args[1], args, st, pos), x.sprintf(fr, f.Args[2], args, st, pos))
	}
	if !f.isStr() {
		unsup("non-constant format string")
	}
	var parts []*Term
	s := f.S
	ai := 0
	for len(s) > 0 {
		p := strings.IndexByte(s, '%')
		if p < 0 {
			parts = append(parts, mkStr(s))
			break
		}
		parts = append(parts, mkStr(s[:p]))
		s = s[p+1:]
		if s == "" {
			unsup("bad format")
		}
		v := s[0]
		switch v {
		case '%':
			parts = append(parts, mkStr("%"))
			s = s[1:]
			continue
		case 's', 'd', 'v', 'w', 't', 'q':
			s = s[1:]
		default:
			unsup("format verb %%%c", v)
		}
		if ai >= len(args) {
			parts = append(parts, mkStr("%!"+string(v)+"(MISSING)"))
			continue
		}
		parts = append(parts, x.fmtVerb(fr, v, args[ai], st))
		ai++
	}
	if ai < len(args) {
		parts = append(parts, mkApp("fmtExtra", StrS))
	}
	return mkStrCat(parts...)
}

func (x *Exec) fmtVerb(fr *Frame, verb byte, v Value, st *State) *Term {
	v = x.plain(v, st)
	switch a := v.(type) {
	case *IteV:
		return mkIte(a.C, x.fmtVerb(fr, verb, a.A, st), x.fmtVerb(fr, verb, a.B, st))
	case *NilV:
		return mkStr(map[byte]string{'v': "<nil>", 's': "%!s(<nil>)", 'd': "%!d(<nil>)", 'w': "%!w(<nil>)", 't': "%!t(<nil>)", 'q': "%!q(<nil>)"}[verb])
	case *IfaceV:
		t := a.T
		// methods Error / String take precedence for %s %v %w
		if verb != 'd' && verb != 't' {
			if m := x.P.Prog.MethodSets.MethodSet(t).Lookup(nil, "Error"); m != nil {
				return x.errString(fr, a, st)
			}
			if b, ok := t.Underlying().(*types.Basic); !ok || b == nil {
				if m := x.P.Prog.MethodSets.MethodSet(t).Lookup(nil, "String"); m != nil {
					return mkApp("fmtStringer:"+typeName(t), StrS, x.toTermQ(a.V, t, st))
				}
			}
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return mkApp("fmt%"+string(verb)+":"+typeName(t), StrS, x.toTermQ(a.V, t, st))
		}
		tm, isT := x.plain(a.V, st).(*Term)
		if !isT {
			if iv, k := x.plain(a.V, st).(*IteV); k {
				return mkIte(iv.C, x.fmtVerb(fr, verb, &IfaceV{T: t, V: iv.A}, st), x.fmtVerb(fr, verb, &IfaceV{T: t, V: iv.B}, st))
			}
			unsup("fmt of %T", a.V)
		}
		switch {
		case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
			return tm
		case b.Info()&types.IsString != 0 && verb == 'q':
			if tm.isStr() {
				return mkStr(strconv.Quote(tm.S))
			}
			return mkApp("strconv.Quote", StrS, tm)
		case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
			return mkStrFromInt(tm)
		case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
			return mkIte(tm, mkStr("true"), mkStr("false"))
		}
		return mkApp("fmt%"+string(verb)+":"+typeName(t), StrS, tm)
	case *Term:
		if a.Sort == anySort {
			// resolve by constructor for the common basic types
			r := mkApp("fmt%"+string(verb)+":any", StrS, a)
			if verb == 'v' || verb == 's' {
				if c := anySort.DT.ctor("any:string"); c != nil {
					r = mkIte(mkIs(c.Name, a), mkSel(c.Name, 0, a), r)
				}
			}
			return r
		}
	}
	unsup("fmt of %T", v)
	return nil
}

func (x *Exec) toTermQ(v Value, t types.Type, st *State) *Term {
	sp := x.spec
	x.spec = true
	defer func() { x.spec = sp }()
	return x.toTerm(v, t, st)
}

func (x *Exec) errString(fr *Frame, v Value, st *State) *Term {
	switch a := x.plain(v, st).(type) {
	case *IfaceV:
		if typeName(a.T) == "*errors.errorString" {
			if t, ok := x.plain(a.V, st).(*Term); ok {
				return x.field(x.deref(t, st), 0, st).(*Term)
			}
		}
		if m := x.P.Prog.LookupMethod(a.T, nil, "Error"); m != nil && x.P.inModule(m) {
			sp := x.spec
			x.spec = true
			r := x.callStatic(fr, m, []Value{a.V}, nil, st.clone(), "Error", token.NoPos)
			x.spec = sp
			return x.strArg(r, st)
		}
		return mkApp("errText", StrS, x.toTermQ(a, types.Universe.Lookup("error").Type(), st))
	case *Term:
		return mkApp("errText", StrS, a)
	}
	return mkApp("errText?", StrS)
}
