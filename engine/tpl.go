package main

// Symbolic execution of constant text/template programs: the template text is
// parsed with text/template/parse and its tree is interpreted on the symbolic
// data, so the text that runs is the text in the repository.

import (
	"fmt"
	"go/token"
	"go/types"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

type tplV struct {
	funcs []Value
	text  string
	tree  *parse.Tree
}

var tplBuiltins = map[string]interface{}{"eq": 1, "ne": 1, "and": 1, "or": 1, "not": 1, "len": 1, "printf": 1, "index": 1, "print": 1, "lt": 1, "gt": 1, "le": 1, "ge": 1}

func (x *Exec) tplFuncs(t *tplV, st *State) map[string]Value {
	m := map[string]Value{}
	for _, f := range t.funcs {
		c, ok := x.mapContent(f, st).(*MapC)
		if !ok {
			unsup("symbolic template function map")
		}
		for i, k := range c.Keys {
			m[k.S] = c.Vals[i]
		}
	}
	return m
}

func (x *Exec) tplParse(recv Value, text *Term, st *State) Value {
	o, ok := recv.(*OpaqueV)
	if !ok || o.Kind != "tpl" {
		unsup("template %T", recv)
	}
	if !text.isStr() {
		unsup("template text is not a constant")
	}
	t := *(o.Data.(*tplV))
	t.text = text.S
	fm := map[string]interface{}{}
	for k := range x.tplFuncs(&t, st) {
		fm[k] = 1
	}
	trees, err := parse.Parse("t", text.S, "", "", fm, tplBuiltins)
	errT := types.Universe.Lookup("error").Type()
	if err != nil {
		return TupleV{&NilV{T: types.Typ[types.UntypedNil]}, x.newError(mkStr("template parse error: " + err.Error()))}
	}
	t.tree = trees["t"]
	return TupleV{&OpaqueV{Kind: "tpl", Data: &t}, &NilV{T: errT}}
}

type tv struct {
	v Value
	t types.Type
}

type tplExec struct {
	x     *Exec
	fr    *Frame
	funcs map[string]Value
	vars  []struct {
		n string
		v tv
	}
	out  *Term
	st   *State
	pos  token.Pos
	site string
	rng  int
	root tv
}

func (x *Exec) tplExecute(fr *Frame, recv, wr, data Value, st *State, pos token.Pos) Value {
	o, ok := x.plain(recv, st).(*OpaqueV)
	if !ok || o.Kind != "tpl" {
		unsup("template %T", recv)
	}
	t := o.Data.(*tplV)
	if t.tree == nil {
		unsup("template was not parsed")
	}
	e := &tplExec{x: x, fr: fr, funcs: x.tplFuncs(t, st), out: mkStr(""), st: st, pos: pos}
	e.site = "tpl"
	if x.curCall != nil {
		e.site = "tpl." + x.curCall.Name()
	}
	d := e.unwrap(tv{data, types.NewInterfaceType(nil, nil)})
	e.root = d
	e.push("$", d)
	if t.tree.Root != nil {
		e.walk(d, t.tree.Root)
	}
	// write the output
	if st.G == TFalse {
		return &NilV{T: types.Universe.Lookup("error").Type()}
	}
	w := x.plain(wr, st)
	if iv, ok := w.(*IfaceV); ok {
		if _, ok := x.modelInvoke(fr, iv, "Write", []Value{e.out}, st); ok {
			return &NilV{T: types.Universe.Lookup("error").Type()}
		}
	}
	unsup("template output to %T", w)
	return nil
}

func (e *tplExec) push(n string, v tv) {
	e.vars = append(e.vars, struct {
		n string
		v tv
	}{n, v})
}

func (e *tplExec) lookup(n string) tv {
	for i := len(e.vars) - 1; i >= 0; i-- {
		if e.vars[i].n == n {
			return e.vars[i].v
		}
	}
	unsup("template variable %s", n)
	return tv{}
}

func (e *tplExec) fail(what string) {
	e.x.oblige("safety", "template execution error ("+what+") in "+shortFn(e.fr.Fn), e.st, TFalse, e.pos)
	e.st.G = TFalse
}

func (e *tplExec) check(what string, c *Term) {
	e.x.safety("template execution: "+what, e.fr, e.st, c, e.pos)
}

// unwrap strips interface wrappers with a known dynamic type.
func (e *tplExec) unwrap(a tv) tv {
	for {
		a.v = e.x.plain(a.v, e.st)
		iv, ok := a.v.(*IfaceV)
		if !ok {
			return a
		}
		a = tv{iv.V, iv.T}
	}
}

func (e *tplExec) emit(t *Term) { e.out = mkStrCat(e.out, t) }

func (e *tplExec) walk(dot tv, n parse.Node) {
	if e.st.G == TFalse {
		return
	}
	switch n := n.(type) {
	case *parse.TextNode:
		e.emit(mkStr(string(n.Text)))
	case *parse.CommentNode:
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, c := range n.Nodes {
			e.walk(dot, c)
		}
	case *parse.ActionNode:
		v := e.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 && e.st.G != TFalse {
			e.emit(e.print(v))
		}
	case *parse.IfNode:
		mark := len(e.vars)
		c := e.truth(e.pipe(dot, n.Pipe))
		e.branch(c, func() { e.walk(dot, n.List) }, func() {
			if n.ElseList != nil {
				e.walk(dot, n.ElseList)
			}
		})
		e.vars = e.vars[:mark]
	case *parse.WithNode:
		mark := len(e.vars)
		v := e.pipe(dot, n.Pipe)
		e.branch(e.truth(v), func() { e.walk(v, n.List) }, func() {
			if n.ElseList != nil {
				e.walk(dot, n.ElseList)
			}
		})
		e.vars = e.vars[:mark]
	case *parse.RangeNode:
		e.rangeNode(dot, n)
	default:
		unsup("template node %T", n)
	}
}

func (e *tplExec) branch(c *Term, f, g func()) {
	if c == TTrue {
		f()
		return
	}
	if c == TFalse {
		g()
		return
	}
	st, out := e.st, e.out
	s1, s2 := st.clone(), st.clone()
	s1.G, s2.G = mkAnd(st.G, c), mkAnd(st.G, mkNot(c))
	e.st, e.out = s1, mkStr("")
	f()
	o1 := e.out
	e.st, e.out = s2, mkStr("")
	g()
	o2 := e.out
	m := e.x.mergeStates([]*State{s1, s2})
	e.st = st
	if m == nil {
		st.G = TFalse
		return
	}
	st.G, st.Cells = m.G, m.Cells
	switch {
	case s1.G == TFalse:
		e.out = mkStrCat(out, o2)
	case s2.G == TFalse:
		e.out = mkStrCat(out, o1)
	default:
		e.out = mkStrCat(out, mkIte(c, o1, o2))
	}
}

func (e *tplExec) rangeNode(dot tv, n *parse.RangeNode) {
	mark := len(e.vars)
	defer func() { e.vars = e.vars[:mark] }()
	e.rng++
	id := e.rng
	// evaluate without declaring the loop variables
	p := *n.Pipe
	p.Decl = nil
	xs := e.unwrap(e.pipe(dot, &p))
	if e.st.G == TFalse {
		return
	}
	sl, ok := xs.t.Underlying().(*types.Slice)
	if !ok {
		unsup("template range over %s", xs.t)
	}
	bind := func(i, el Value) tv {
		d := tv{el, sl.Elem()}
		switch len(n.Pipe.Decl) {
		case 1:
			e.push(n.Pipe.Decl[0].Ident[0], d)
		case 2:
			e.push(n.Pipe.Decl[0].Ident[0], tv{i, types.Typ[types.Int]})
			e.push(n.Pipe.Decl[1].Ident[0], d)
		}
		return d
	}
	e.rangeOver(xs, n, dot, bind, id)
}

func (e *tplExec) rangeOver(xs tv, n *parse.RangeNode, dot tv, bind func(i, el Value) tv, id int) {
	x := e.x
	switch a := x.plain(xs.v, e.st).(type) {
	case *IteV:
		e.branch(a.C, func() { e.rangeOver(tv{a.A, xs.t}, n, dot, bind, id) }, func() { e.rangeOver(tv{a.B, xs.t}, n, dot, bind, id) })
	case *NilV:
		if n.ElseList != nil {
			e.walk(dot, n.ElseList)
		}
	case *SeqV:
		if len(a.E) == 0 && n.ElseList != nil {
			e.walk(dot, n.ElseList)
		}
		for i, el := range a.E {
			mark := len(e.vars)
			save := e.site
			e.site = fmt.Sprintf("%s.r%d@%d", save, id, i)
			d := bind(mkInt(int64(i)), el)
			e.walk(d, n.List)
			e.site = save
			e.vars = e.vars[:mark]
		}
	case *Term:
		switch a.Op {
		case OSeqEmpty:
			if n.ElseList != nil {
				e.walk(dot, n.ElseList)
			}
			return
		case OSeqUnit:
			e.rangeOver(tv{&SeqV{Elem: xs.t.Underlying().(*types.Slice).Elem(), E: []Value{a.Args[0]}}, xs.t}, n, dot, bind, id)
			return
		case OIte:
			e.branch(a.Args[0], func() { e.rangeOver(tv{a.Args[1], xs.t}, n, dot, bind, id) }, func() { e.rangeOver(tv{a.Args[2], xs.t}, n, dot, bind, id) })
			return
		case OSeqCat:
			if n.ElseList == nil && len(n.Pipe.Decl) < 2 {
				for j, p := range a.Args {
					save := e.site
					e.site = fmt.Sprintf("%s.c%d", save, j)
					e.rangeOver(tv{p, xs.t}, n, dot, bind, id)
					e.site = save
				}
				return
			}
		}
		if n.ElseList != nil {
			e.branch(mkEq(mkSeqLen(a), mkInt(0)), func() { e.walk(dot, n.ElseList) }, func() { e.cutRange(xs, a, n, bind, id) })
			return
		}
		e.cutRange(xs, a, n, bind, id)
	default:
		unsup("template range over %T", a)
	}
}

// cutRange: the loop is cut with inferred invariants over its output so far.
func (e *tplExec) cutRange(xs tv, a *Term, n *parse.RangeNode, bind func(i, el Value) tv, id int) {
	x := e.x
	st := e.st
	key := fmt.Sprintf("%s%s/%s.r%d", e.fr.Path, e.fr.Unroll, e.site, id)
	before := e.out
	k := freshVar("k", IntS)
	knownNonneg[k.ID] = true
	x.fact(mkLe(mkInt(0), k))
	head := freshVar("lv_out", StrS)
	pushed := map[ssa.Value]Value{}
	_ = pushed
	strT := types.Typ[types.String]
	cc := &candCtx{fr: e.fr, key: key, k: k, xs: a, xsT: xs.t, entrySt: st, headSt: st,
		slots: []slotView{{name: "out", t: strT, entry: mkStr(""), head: head}}}
	for _, v := range e.vars {
		cc.extra = append(cc.extra, namedVal{v.n, v.v.v, v.v.t})
	}
	cc.auto = func(get func(name string) Value, kk *Term, s *State) *Term { return mkLe(kk, mkSeqLen(a)) }
	insts := x.candidatesFor(cc)
	for _, ci := range insts {
		x.fact(mkImplies(st.G, ci.head))
	}
	// one arbitrary iteration
	body := st.clone()
	body.G = mkAnd(st.G, mkLt(k, mkSeqLen(a)))
	e.st, e.out = body, mkStr("")
	mark := len(e.vars)
	save := e.site
	e.site = fmt.Sprintf("%s.r%d@k", save, id)
	d := bind(k, mkSeqNth(a, k))
	e.walk(d, n.List)
	e.site = save
	e.vars = e.vars[:mark]
	for c, cs := range body.Cells {
		if st.Cells[c] != nil && st.Cells[c] != cs && !sameValue(st.Cells[c].V, cs.V) {
			unsup("template body changes program state")
		}
	}
	out2 := mkStrCat(head, e.out)
	e.st = st
	for _, ci := range insts {
		if ci.init != TTrue {
			x.obls = append(x.obls, &Obl{Kind: "inv-init", Name: ci.key, Cand: ci.key, Guard: st.G, Cond: ci.init, NFacts: ci.nf, Pos: x.P.pos(e.pos)})
		}
		if body.G != TFalse {
			bt := ci.eval(ci.backArgs(func(name string) Value {
				if name == "out" {
					return out2
				}
				return nil
			}, mkAdd(k, mkInt(1))), body)
			if bt != TTrue {
				x.obls = append(x.obls, &Obl{Kind: "inv-pres", Name: ci.key, Cand: ci.key, Guard: body.G, Cond: bt, First: []*Term{mkEq(k, mkInt(0)), mkEq(head, mkStr(""))}, NFacts: len(x.facts), Pos: x.P.pos(e.pos)})
			}
		}
	}
	st.G = mkAnd(st.G, mkLe(mkSeqLen(a), k))
	e.out = mkStrCat(before, head)
}

func (e *tplExec) truth(a tv) *Term {
	x := e.x
	a = e.unwrap(a)
	if iv, ok := a.v.(*IteV); ok {
		return mkIte(iv.C, e.truth(tv{iv.A, a.t}), e.truth(tv{iv.B, a.t}))
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		t := a.v.(*Term)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return t
		case u.Info()&types.IsString != 0:
			return mkNot(mkEq(t, mkStr("")))
		case u.Info()&types.IsInteger != 0:
			return mkNot(mkEq(t, mkInt(0)))
		}
	case *types.Slice, *types.Map, *types.Array:
		return mkNot(mkEq(x.length(a.v, e.st), mkInt(0)))
	case *types.Pointer, *types.Interface, *types.Signature:
		return x.notNil(a.v, e.st)
	case *types.Struct:
		return TTrue
	}
	unsup("template truth of %s", a.t)
	return nil
}

func (e *tplExec) pipe(dot tv, p *parse.PipeNode) tv {
	var v *tv
	for _, c := range p.Cmds {
		r := e.cmd(dot, c, v)
		v = &r
		if e.st.G == TFalse {
			return tv{mkStr(""), types.Typ[types.String]}
		}
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			unsup("template assignment")
		}
		e.push(d.Ident[0], *v)
	}
	return *v
}

func (e *tplExec) cmd(dot tv, c *parse.CommandNode, final *tv) tv {
	first := c.Args[0]
	if id, ok := first.(*parse.IdentifierNode); ok {
		return e.callFunc(dot, id.Ident, c.Args[1:], final)
	}
	if len(c.Args) > 1 || final != nil {
		switch f := first.(type) {
		case *parse.FieldNode:
			if len(f.Ident) == 1 {
				return e.method(dot, f.Ident[0], c.Args[1:], dot, final)
			}
		}
		unsup("template command with arguments")
	}
	return e.arg(dot, first)
}

func (e *tplExec) arg(dot tv, n parse.Node) tv {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.StringNode:
		return tv{mkStr(n.Text), types.Typ[types.String]}
	case *parse.BoolNode:
		return tv{mkBool(n.True), types.Typ[types.Bool]}
	case *parse.NumberNode:
		if n.IsInt {
			return tv{mkInt(n.Int64), types.Typ[types.Int]}
		}
	case *parse.NilNode:
		return tv{&NilV{T: types.Typ[types.UntypedNil]}, types.Typ[types.UntypedNil]}
	case *parse.FieldNode:
		return e.fields(dot, n.Ident, dot)
	case *parse.VariableNode:
		return e.fields(e.lookup(n.Ident[0]), n.Ident[1:], dot)
	case *parse.ChainNode:
		return e.fields(e.arg(dot, n.Node), n.Field, dot)
	case *parse.PipeNode:
		return e.pipe(dot, n)
	case *parse.IdentifierNode:
		return e.callFunc(dot, n.Ident, nil, nil)
	}
	unsup("template argument %T", n)
	return tv{}
}

func (e *tplExec) fields(v tv, ids []string, dot tv) tv {
	for _, id := range ids {
		v = e.field(v, id, dot)
		if e.st.G == TFalse {
			return tv{mkStr(""), types.Typ[types.String]}
		}
	}
	return v
}

func (e *tplExec) field(v tv, id string, dot tv) tv {
	v = e.unwrap(v)
	x := e.x
	// methods first
	if m := e.findMethod(v, id); m != nil {
		return e.method(v, id, nil, dot, nil)
	}
	t := v.t
	val := v.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		e.check("nil pointer evaluating field "+id, x.notNil(val, e.st))
		if e.st.G == TFalse {
			return v
		}
		val = x.loadAddr(e.fr, val, p.Elem(), e.st, e.pos)
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		obj, idx, _ := types.LookupFieldOrMethod(t, true, e.fr.Fn.Pkg.Pkg, id)
		f, ok := obj.(*types.Var)
		if !ok || !f.Exported() {
			e.fail("no field " + id)
			return tv{mkStr(""), types.Typ[types.String]}
		}
		cur, ct := val, t
		for _, i := range idx {
			if p, ok := ct.Underlying().(*types.Pointer); ok {
				cur = x.loadAddr(e.fr, cur, p.Elem(), e.st, e.pos)
				ct = p.Elem()
			}
			s := ct.Underlying().(*types.Struct)
			cur = x.field(x.plain(cur, e.st), i, e.st)
			ct = s.Field(i).Type()
		}
		return tv{cur, ct}
	case *types.Map:
		k := mkStr(id)
		g, _ := x.mapGet(x.mapContent(val, e.st), k, u, e.st)
		return tv{g, u.Elem()}
	}
	e.fail("cannot evaluate field " + id)
	return tv{mkStr(""), types.Typ[types.String]}
}

func (e *tplExec) findMethod(v tv, id string) *ssa.Function {
	ts := []types.Type{v.t}
	if _, ok := v.t.Underlying().(*types.Pointer); !ok {
		ts = append(ts, types.NewPointer(v.t))
	}
	for _, t := range ts[:1] {
		if sel := e.x.P.Prog.MethodSets.MethodSet(t).Lookup(nil, id); sel != nil && token.IsExported(id) {
			return e.x.P.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (e *tplExec) method(v tv, id string, args []parse.Node, dot tv, final *tv) tv {
	v = e.unwrap(v)
	m := e.findMethod(v, id)
	if m == nil {
		unsup("template method %s", id)
	}
	vals := []Value{v.v}
	ps := m.Signature.Params()
	for i, a := range args {
		vals = append(vals, e.conv(e.arg(dot, a), ps.At(i).Type()))
	}
	if final != nil {
		vals = append(vals, e.conv(*final, ps.At(len(args)).Type()))
	}
	r := e.x.callStatic(e.fr, m, vals, nil, e.st, e.site+"."+id, e.pos)
	return e.result(r, m.Signature)
}

func (e *tplExec) result(r Value, sig *types.Signature) tv {
	if sig.Results().Len() == 1 {
		return tv{r, sig.Results().At(0).Type()}
	}
	unsup("template function with %d results", sig.Results().Len())
	return tv{}
}

func (e *tplExec) conv(a tv, t types.Type) Value {
	if isIface(t) {
		if isIface(a.t) {
			return a.v
		}
		return &IfaceV{T: a.t, V: a.v}
	}
	a = e.unwrap(a)
	return a.v
}

func (e *tplExec) callFunc(dot tv, name string, args []parse.Node, final *tv) tv {
	x := e.x
	var vs []tv
	eval := func() {
		for _, a := range args {
			vs = append(vs, e.arg(dot, a))
		}
		if final != nil {
			vs = append(vs, *final)
		}
	}
	if f, ok := e.funcs[name]; ok {
		eval()
		fv := e.unwrap(tv{f, types.NewInterfaceType(nil, nil)})
		sig, ok := fv.t.Underlying().(*types.Signature)
		if !ok {
			unsup("template function %s", name)
		}
		var as []Value
		for i, a := range vs {
			as = append(as, e.conv(a, sig.Params().At(i).Type()))
		}
		old := x.curCall
		r := x.callValue(e.fr, fv.v, sig, as, e.st, e.site+"."+name, e.pos)
		x.curCall = old
		if e.st.G == TFalse {
			return tv{mkStr(""), types.Typ[types.String]}
		}
		return e.result(r, sig)
	}
	boolT := types.Typ[types.Bool]
	switch name {
	case "eq":
		eval()
		var cs []*Term
		for _, b := range vs[1:] {
			cs = append(cs, e.eq(vs[0], b))
		}
		return tv{mkOr(cs...), boolT}
	case "ne":
		eval()
		return tv{mkNot(e.eq(vs[0], vs[1])), boolT}
	case "not":
		eval()
		return tv{mkNot(e.truth(vs[0])), boolT}
	case "and", "or":
		eval()
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			c := e.truth(vs[i])
			if !types.Identical(vs[i].t, r.t) {
				unsup("template and/or of mixed types")
			}
			if name == "and" {
				r = tv{x.mergeV(c, r.v, vs[i].v, r.t, e.st), r.t}
			} else {
				r = tv{x.mergeV(c, vs[i].v, r.v, r.t, e.st), r.t}
			}
		}
		return r
	case "len":
		eval()
		a := e.unwrap(vs[0])
		return tv{x.length(a.v, e.st), types.Typ[types.Int]}
	case "printf":
		eval()
		var as []Value
		for _, a := range vs[1:] {
			as = append(as, e.conv(a, types.NewInterfaceType(nil, nil)))
		}
		return tv{x.sprintf(e.fr, e.unwrap(vs[0]).v, as, e.st, e.pos), types.Typ[types.String]}
	case "lt", "le", "gt", "ge":
		eval()
		a, b := e.unwrap(vs[0]), e.unwrap(vs[1])
		op := map[string]token.Token{"lt": token.LSS, "le": token.LEQ, "gt": token.GTR, "ge": token.GEQ}[name]
		return tv{x.binopV(e.fr, op, a.v, b.v, a.t, b.t, boolT, e.st, e.pos), boolT}
	case "index":
		eval()
		a := e.unwrap(vs[0])
		i := e.unwrap(vs[1])
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			it := i.v.(*Term)
			e.check("index bounds", mkAnd(mkLe(mkInt(0), it), mkLt(it, x.length(a.v, e.st))))
			return tv{x.index(a.v, it, e.st), u.Elem()}
		case *types.Map:
			g, _ := x.mapGet(x.mapContent(a.v, e.st), x.toTerm(i.v, u.Key(), e.st), u, e.st)
			return tv{g, u.Elem()}
		}
	}
	unsup("template function %s", name)
	return tv{}
}

func (e *tplExec) eq(a, b tv) *Term {
	a, b = e.unwrap(a), e.unwrap(b)
	return e.x.equal(a.v, b.v, a.t, b.t, e.st)
}

func (e *tplExec) print(a tv) *Term {
	a = e.unwrap(a)
	x := e.x
	if iv, ok := a.v.(*IteV); ok {
		return mkIte(iv.C, e.print(tv{iv.A, a.t}), e.print(tv{iv.B, a.t}))
	}
	if n, ok := a.v.(*NilV); ok && isIface(a.t) {
		_ = n
		return mkStr("<no value>")
	}
	if p, ok := a.t.Underlying().(*types.Pointer); ok {
		if m := x.P.Prog.MethodSets.MethodSet(a.t).Lookup(nil, "String"); m == nil {
			return e.print(tv{x.loadAddr(e.fr, a.v, p.Elem(), e.st, e.pos), p.Elem()})
		}
	}
	if isIface(a.t) {
		return x.fmtVerb(e.fr, 'v', a.v, e.st)
	}
	return x.fmtVerb(e.fr, 'v', &IfaceV{T: a.t, V: a.v}, e.st)
}
