package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(fr *Frame, in ssa.Instruction, st *State) {
	if x.inInit {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); ok {
					if v, ok := in.(ssa.Value); ok {
						st.Env[v] = nil
					}
					// a lost write poisons its target
					var addr ssa.Value
					switch w := in.(type) {
					case *ssa.Store:
						addr = w.Addr
					case *ssa.MapUpdate:
						addr = w.Map
					}
					if addr != nil {
						x.poison(addr, st)
					}
					return
				}
				panic(e)
			}
		}()
	}
	fr.State = st
	switch i := in.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		fr.calls[i]++
		name := fmt.Sprintf("%s%s/%s.%s", fr.Path, fr.Unroll, i.Name(), i.Comment)
		c := x.newCell(name, t, zeroValue(t), st)
		st.Env[i] = &Ref{Cell: c}
	case *ssa.FieldAddr:
		b := x.val(i.X, st)
		et := i.X.Type().Underlying().(*types.Pointer).Elem()
		st.Env[i] = x.fieldAddr(fr, b, i.Field, et, st, i.Pos())
	case *ssa.Field:
		st.Env[i] = x.wrapProv(x.field(x.plain(x.val(i.X, st), st), i.Field, st), nil, i.Type(), st)
	case *ssa.IndexAddr:
		x.ownSlices(fr, st, func(m mutSite) bool { return m.s == i.X })
		b := x.val(i.X, st)
		idx := x.intTerm(x.val(i.Index, st), st)
		x.bounds(fr, b, i.X.Type(), idx, st, i.Pos())
		st.Env[i] = x.indexAddr(b, idx, i.X.Type(), st)
	case *ssa.Index:
		b := x.val(i.X, st)
		idx := x.intTerm(x.val(i.Index, st), st)
		x.bounds(fr, b, i.X.Type(), idx, st, i.Pos())
		st.Env[i] = x.index(b, idx, st)
	case *ssa.UnOp:
		st.Env[i] = x.unop(fr, i, st)
	case *ssa.BinOp:
		st.Env[i] = x.binop(fr, i, st)
	case *ssa.Store:
		a := x.val(i.Addr, st)
		v := x.val(i.Val, st)
		x.storeTo(fr, a, v, i.Val.Type(), st, i.Pos())
	case *ssa.Call:
		x.ownSlices(fr, st, func(m mutSite) bool { return m.instr == in })
		v := x.call(fr, i, st)
		if v != nil {
			st.Env[i] = v
		}
	case *ssa.MakeInterface:
		v := x.val(i.X, st)
		if _, ok := i.X.Type().Underlying().(*types.Interface); ok {
			st.Env[i] = v
			return
		}
		st.Env[i] = &IfaceV{T: i.X.Type(), V: v}
	case *ssa.ChangeInterface:
		st.Env[i] = x.val(i.X, st)
	case *ssa.ChangeType:
		st.Env[i] = x.retype(x.val(i.X, st), i.X.Type(), i.Type(), st)
	case *ssa.Convert:
		st.Env[i] = x.convert(i, st)
	case *ssa.TypeAssert:
		st.Env[i] = x.typeAssert(fr, x.val(i.X, st), i.AssertedType, i.CommaOk, st, i.Pos())
	case *ssa.Extract:
		t := x.val(i.Tuple, st)
		st.Env[i] = x.extract(t, i.Index, st)
	case *ssa.Lookup:
		st.Env[i] = x.lookup(fr, x.val(i.X, st), i.X.Type(), x.val(i.Index, st), i.CommaOk, st, i.Pos())
	case *ssa.MapUpdate:
		x.mapUpdate(fr, x.val(i.Map, st), i.Map.Type(), x.val(i.Key, st), x.val(i.Value, st), st, i.Pos())
	case *ssa.MakeMap:
		t := i.Type()
		mt := t.Underlying().(*types.Map)
		c := x.newCell(fmt.Sprintf("%s%s/%s.map", fr.Path, fr.Unroll, i.Name()), t, &MapC{K: mt.Key(), V: mt.Elem()}, st)
		st.Env[i] = &MapRef{Cell: c}
	case *ssa.MakeSlice:
		n := x.intTerm(x.val(i.Len, st), st)
		et := i.Type().Underlying().(*types.Slice).Elem()
		var content Value
		if n.isInt() && n.I <= 4096 {
			s := &SeqV{Elem: et}
			for j := int64(0); j < n.I; j++ {
				s.E = append(s.E, zeroValue(et))
			}
			content = s
		} else {
			v := freshVar("mkslice", sortOf(i.Type()))
			x.fact(mkImplies(st.G, mkEq(mkSeqLen(v), n)))
			content = v
		}
		c := x.newCell(fmt.Sprintf("%s%s/%s.slice", fr.Path, fr.Unroll, i.Name()), i.Type(), content, st)
		st.Env[i] = &ProvV{R: &Ref{Cell: c}, Snap: content, T: i.Type()}
	case *ssa.MakeClosure:
		cl := &ClosureV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			cl.B = append(cl.B, x.val(b, st))
		}
		st.Env[i] = cl
	case *ssa.Slice:
		st.Env[i] = x.slice(fr, i, st)
	case *ssa.Range:
		st.Env[i] = x.rangeOver(fr, i, st)
	case *ssa.Next:
		st.Env[i] = x.next(fr, i, st)
	case *ssa.DebugRef:
	case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsup("instruction %T", in)
	default:
		unsup("instruction %T", in)
	}
}

// split on symbolic alternatives
func (x *Exec) onIte(v Value, t types.Type, st *State, f func(v Value) Value) Value {
	if iv, ok := v.(*IteV); ok {
		return x.mergeV(iv.C, x.onIte(iv.A, t, st, f), x.onIte(iv.B, t, st, f), t, st)
	}
	return f(v)
}

func (x *Exec) notNil(v Value, st *State) *Term {
	switch a := v.(type) {
	case *Ref, *ROAddr, *MapRef, *ClosureV, *OpaqueV, *IterV:
		return TTrue
	case *NilV:
		return TFalse
	case *IfaceV:
		return TTrue
	case *StructV:
		return TTrue
	case *IteV:
		return mkIte(a.C, x.notNil(a.A, st), x.notNil(a.B, st))
	case *ProvV:
		return x.notNil(x.resolve(a, st), st)
	case *SeqV:
		if a.Nil {
			return TFalse
		}
		return TTrue
	case *Term:
		switch {
		case a.Sort == anySort:
			return mkNot(mkIs("any.nil", a))
		case a.Sort == fnSort:
			return mkNot(mkIs("func.nil", a))
		case a.Sort.Kind == SData && len(a.Sort.DT.Ctors) == 2:
			return mkIs(a.Sort.DT.Ctors[1].Name, a)
		case a.Sort.Kind == SSeq:
			n := mkSeqLen(a)
			if n.isInt() && n.I > 0 {
				return TTrue
			}
			// nil vs empty is not tracked: unknown when empty
			return mkOr(mkNot(mkEq(n, mkInt(0))), freshVar("nonnilslice", BoolS))
		case a.Sort.Kind == SData:
			return TTrue // maps: assumed non-nil
		case a.Sort.Kind == SUnint:
			return mkApp("nonnil:"+a.Sort.Name, BoolS, a)
		}
	}
	unsup("nil test of %T", v)
	return nil
}

func (x *Exec) fieldAddr(fr *Frame, b Value, f int, et types.Type, st *State, pos token.Pos) Value {
	switch a := b.(type) {
	case *Ref:
		return &Ref{Cell: a.Cell, P: append(append([]Step{}, a.P...), Step{Kind: 0, F: f}), Prov: a.Prov}
	case *ROAddr:
		return &ROAddr{x.field(a.V, f, st)}
	case *ProvV:
		r := x.resolve(a, st)
		if rr, ok := r.(*Ref); ok {
			return x.fieldAddr(fr, rr, f, et, st, pos)
		}
		x.safety("nil dereference", fr, st, x.notNil(r, st), pos)
		cs := st.Cells[a.R.Cell]
		if cs == nil || cs.SV != a.SV {
			return &ROAddr{x.field(x.deref(r, st), f, st)}
		}
		p := append(append([]Step{}, a.R.P...), Step{Kind: 2}, Step{Kind: 0, F: f})
		return &Ref{Cell: a.R.Cell, P: p, Prov: a}
	case *Term:
		x.safety("nil dereference", fr, st, x.notNil(a, st), pos)
		return &ROAddr{x.field(x.deref(a, st), f, st)}
	case *NilV:
		x.safety("nil dereference", fr, st, TFalse, pos)
		return &ROAddr{zeroValue(et.Underlying().(*types.Struct).Field(f).Type())}
	case *IteV:
		// check nil-ness under each side through the merged condition
		x.safety("nil dereference", fr, st, x.notNil(a, st), pos)
		l := x.fieldAddrQuiet(fr, a.A, f, et, st, pos)
		r := x.fieldAddrQuiet(fr, a.B, f, et, st, pos)
		if sameValue(l, r) {
			return l
		}
		return &IteV{C: a.C, A: l, B: r}
	}
	unsup("field address on %T", b)
	return nil
}

func (x *Exec) fieldAddrQuiet(fr *Frame, b Value, f int, et types.Type, st *State, pos token.Pos) Value {
	sp := x.spec
	x.spec = true
	defer func() { x.spec = sp }()
	g := st.G
	v := x.fieldAddr(fr, b, f, et, st, pos)
	st.G = g
	return v
}

func (x *Exec) bounds(fr *Frame, b Value, t types.Type, idx *Term, st *State, pos token.Pos) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok {
			x.safety("index bounds", fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkInt(arr.Len()))), pos)
			return
		}
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		x.safety("index bounds", fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, mkInt(arr.Len()))), pos)
		return
	}
	x.safety("index bounds", fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, x.length(b, st))), pos)
}

func (x *Exec) indexAddr(b Value, idx *Term, t types.Type, st *State) Value {
	switch a := b.(type) {
	case *Ref: // pointer to array
		return &Ref{Cell: a.Cell, P: append(append([]Step{}, a.P...), Step{Kind: 1, I: idx}), Prov: a.Prov}
	case *ProvV:
		cs := st.Cells[a.R.Cell]
		if cs == nil || cs.SV != a.SV {
			return &ROAddr{x.index(x.resolve(a, st), idx, st)}
		}
		return &Ref{Cell: a.R.Cell, P: append(append([]Step{}, a.R.P...), Step{Kind: 1, I: idx}), Prov: a}
	case *Term, *SeqV:
		return &ROAddr{x.index(a, idx, st)}
	case *NilV:
		return &ROAddr{zeroValue(t.Underlying().(*types.Slice).Elem())}
	case *IteV:
		l, r := x.indexAddr(a.A, idx, t, st), x.indexAddr(a.B, idx, t, st)
		return &IteV{C: a.C, A: l, B: r}
	case *ROAddr:
		return &ROAddr{x.index(a.V, idx, st)}
	}
	unsup("index address on %T", b)
	return nil
}

// wrapProv remembers where a slice/pointer value was loaded from.
func (x *Exec) wrapProv(v Value, r *Ref, t types.Type, st *State) Value {
	if r == nil || x.spec {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		switch v.(type) {
		case *Term, *SeqV:
		default:
			return v
		}
	case *types.Pointer:
		switch v.(type) {
		case *Term:
		default:
			return v
		}
	default:
		return v
	}
	if tm, ok := v.(*Term); ok && tm.Sort.Kind != SSeq && tm.Sort.Kind != SData {
		return v
	}
	cs := st.Cells[r.Cell]
	return &ProvV{R: &Ref{Cell: r.Cell, P: r.P}, Snap: v, T: t, SV: cs.SV, NW: cs.NW}
}

func (x *Exec) loadAddr(fr *Frame, a Value, t types.Type, st *State, pos token.Pos) Value {
	switch r := a.(type) {
	case *Ref:
		return x.wrapProv(x.load(r, t, st), r, t, st)
	case *ROAddr:
		return r.V
	case *IteV:
		g := st.G
		st.G = mkAnd(g, r.C)
		a := x.loadAddr(fr, r.A, t, st, pos)
		st.G = mkAnd(g, mkNot(r.C))
		b := x.loadAddr(fr, r.B, t, st, pos)
		st.G = g
		return x.mergeV(r.C, a, b, t, st)
	case *Term:
		x.safety("nil dereference", fr, st, x.notNil(r, st), pos)
		return x.deref(r, st)
	case *ProvV:
		v := x.resolve(r, st)
		x.safety("nil dereference", fr, st, x.notNil(v, st), pos)
		return x.deref(v, st)
	case *NilV:
		x.safety("nil dereference", fr, st, TFalse, pos)
		return zeroValue(t)
	}
	unsup("load through %T", a)
	return nil
}

func (x *Exec) storeTo(fr *Frame, a, v Value, t types.Type, st *State, pos token.Pos) {
	switch r := a.(type) {
	case *Ref:
		x.store(r, v, t, st)
	case *IteV:
		s1, s2 := st.clone(), st.clone()
		x.storeTo(fr, r.A, v, t, s1, pos)
		x.storeTo(fr, r.B, v, t, s2, pos)
		s1.G, s2.G = mkAnd(TTrue, r.C), mkNot(r.C)
		m := x.mergeStates([]*State{s1, s2})
		st.Cells = m.Cells
	case *ProvV:
		rv := x.resolve(r, st)
		if rr, ok := rv.(*Ref); ok {
			x.store(rr, v, t, st)
			return
		}
		x.safety("nil dereference", fr, st, x.notNil(rv, st), pos)
		x.store(&Ref{Cell: r.R.Cell, P: append(append([]Step{}, r.R.P...), Step{Kind: 2}), Prov: r}, v, t, st)
	case *NilV:
		x.safety("nil dereference", fr, st, TFalse, pos)
	default:
		unsup("store through %T", a)
	}
}

func (x *Exec) unop(fr *Frame, i *ssa.UnOp, st *State) Value {
	v := x.val(i.X, st)
	switch i.Op {
	case token.MUL:
		return x.loadAddr(fr, v, i.Type(), st, i.Pos())
	case token.NOT:
		return mkNot(x.boolTerm(v, st))
	case token.SUB:
		return mkMul(mkInt(-1), x.intTerm(v, st))
	}
	unsup("unary %s", i.Op)
	return nil
}

func (x *Exec) binop(fr *Frame, i *ssa.BinOp, st *State) Value {
	a, b := x.val(i.X, st), x.val(i.Y, st)
	t := i.X.Type()
	return x.binopV(fr, i.Op, a, b, t, i.Y.Type(), i.Type(), st, i.Pos())
}

func (x *Exec) binopV(fr *Frame, op token.Token, a, b Value, t, t2, rt types.Type, st *State, pos token.Pos) Value {
	a, b = x.plain(a, st), x.plain(b, st)
	if op == token.EQL || op == token.NEQ {
		e := x.equal(a, b, t, t2, st)
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	}
	if iv, ok := a.(*IteV); ok {
		return x.mergeV(iv.C, x.binopV(fr, op, iv.A, b, t, t2, rt, st, pos), x.binopV(fr, op, iv.B, b, t, t2, rt, st, pos), rt, st)
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binary %s on %T,%T", op, a, b)
	}
	if ta.Sort == StrS {
		switch op {
		case token.ADD:
			return mkStrCat(ta, tb)
		case token.LSS:
			return mkStrLt(ta, tb)
		case token.GTR:
			return mkStrLt(tb, ta)
		case token.LEQ:
			return mkNot(mkStrLt(tb, ta))
		case token.GEQ:
			return mkNot(mkStrLt(ta, tb))
		}
	}
	if ta.Sort == IntS {
		wrap := func(r *Term) Value {
			if m := uintMax(rt); m > 0 && m < 1<<40 {
				return mkMod(r, mkInt(m+1))
			}
			return r
		}
		switch op {
		case token.ADD:
			return wrap(mkAdd(ta, tb))
		case token.SUB:
			return wrap(mkSub(ta, tb))
		case token.MUL:
			return wrap(mkMul(ta, tb))
		case token.LSS:
			return mkLt(ta, tb)
		case token.LEQ:
			return mkLe(ta, tb)
		case token.GTR:
			return mkLt(tb, ta)
		case token.GEQ:
			return mkLe(tb, ta)
		case token.QUO:
			x.safety("division by zero", fr, st, mkNot(mkEq(tb, mkInt(0))), pos)
			return mkIte(mkLe(mkInt(0), ta), mkDiv(ta, tb), mkMul(mkInt(-1), mkDiv(mkMul(mkInt(-1), ta), tb)))
		case token.REM:
			x.safety("division by zero", fr, st, mkNot(mkEq(tb, mkInt(0))), pos)
			return mkIte(mkLe(mkInt(0), ta), mkMod(ta, tb), mkMul(mkInt(-1), mkMod(mkMul(mkInt(-1), ta), tb)))
		}
	}
	if ta.Sort.Kind == SUnint {
		return mkApp("op:"+op.String(), sortOf(rt), ta, tb)
	}
	unsup("binary %s on sort %s", op, ta.Sort.Name)
	return nil
}

func isNilish(v Value) bool { _, ok := v.(*NilV); return ok }

func (x *Exec) equal(a, b Value, t, t2 types.Type, st *State) *Term {
	if iv, ok := a.(*IteV); ok {
		return mkIte(iv.C, x.equal(iv.A, b, t, t2, st), x.equal(iv.B, b, t, t2, st))
	}
	if iv, ok := b.(*IteV); ok {
		return mkIte(iv.C, x.equal(a, iv.A, t, t2, st), x.equal(a, iv.B, t, t2, st))
	}
	nilSeq := func(v Value) bool { s, ok := v.(*SeqV); return ok && s.Nil && len(s.E) == 0 }
	if isNilish(b) || nilSeq(b) && isSlice(t) {
		return mkNot(x.notNil(a, st))
	}
	if isNilish(a) || nilSeq(a) && isSlice(t) {
		return mkNot(x.notNil(b, st))
	}
	ra, ok1 := a.(*Ref)
	rb, ok2 := b.(*Ref)
	if ok1 && ok2 {
		if ra.Cell != rb.Cell {
			return TFalse
		}
		if sameValue(ra, rb) {
			return TTrue
		}
		unsup("comparison of interior pointers")
	}
	if _, isP := t.Underlying().(*types.Pointer); isP {
		ta, k1 := a.(*Term)
		tb, k2 := b.(*Term)
		if k1 && k2 && ta == tb {
			return TTrue
		}
		if x.spec || x.inSpecFile() {
			return mkEq(x.toTermT(a, t, st), x.toTermT(b, t, st))
		}
		if x.H.ByContent {
			x.trusted["pointers to distinct objects of one type are taken to have distinct contents where they are compared (directive identity content)"] = true
			return mkEq(x.toTermT(a, t, st), x.toTermT(b, t, st))
		}
		unsup("pointer identity comparison")
	}
	ia, ok1 := a.(*IfaceV)
	ib, ok2 := b.(*IfaceV)
	if ok1 && ok2 {
		if !types.Identical(ia.T, ib.T) {
			return TFalse
		}
		return x.equal(x.plain(ia.V, st), x.plain(ib.V, st), ia.T, ib.T, st)
	}
	if ok1 && !isIface(t2) {
		return x.equal(a, &IfaceV{T: t2, V: b}, t, t, st)
	}
	if ok2 && !isIface(t) {
		return x.equal(&IfaceV{T: t, V: a}, b, t2, t2, st)
	}
	return mkEq(x.toTermT(a, t, st), x.toTermT(b, t2, st))
}

// inSpecFile: the innermost executing function is contract code
func (x *Exec) inSpecFile() bool {
	return len(x.stack) > 0 && x.P.isContractFn(x.stack[len(x.stack)-1].Fn)
}

func (x *Exec) toTermT(v Value, t types.Type, st *State) *Term { return x.toTerm(v, t, st) }

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// retype handles named/unnamed changes where sorts differ by name.
func (x *Exec) retype(v Value, from, to types.Type, st *State) Value {
	if _, ok := to.Underlying().(*types.Struct); ok {
		if sortOf(from) != sortOf(to) {
			u := to.Underlying().(*types.Struct)
			n := &StructV{T: to}
			for i := 0; i < u.NumFields(); i++ {
				n.F = append(n.F, x.field(x.plain(v, st), i, st))
			}
			return n
		}
	}
	if p, ok := to.Underlying().(*types.Pointer); ok {
		if _, isT := x.plain(v, st).(*Term); isT && sortOf(from) != sortOf(to) {
			unsup("pointer retype %s", typeName(p))
		}
	}
	return v
}

func (x *Exec) convert(i *ssa.Convert, st *State) Value {
	v := x.plain(x.val(i.X, st), st)
	from, to := i.X.Type(), i.Type()
	sf, sto := sortOf(from), sortOf(to)
	if sf == IntS && sto == IntS {
		t := x.intTerm(v, st)
		if m := uintMax(to); m > 0 && m < 1<<40 {
			if fm := uintMax(from); fm > 0 && fm <= m {
				return t
			}
			return mkMod(t, mkInt(m+1))
		}
		return t
	}
	if sf == sto {
		if sv, ok := v.(*SeqV); ok && sf == StrS {
			if len(sv.E) == 0 {
				return mkStr("")
			}
		}
		return v
	}
	if sf == IntS && sto.Kind == SUnint {
		return mkApp("toFloat", sto, x.intTerm(v, st))
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(fr *Frame, v Value, t types.Type, commaOk bool, st *State, pos token.Pos) Value {
	v = x.plain(v, st)
	var ok *Term
	var res Value
	switch a := v.(type) {
	case *IteV:
		if commaOk {
			return x.mergeV(a.C, x.typeAssert(fr, a.A, t, true, st, pos), x.typeAssert(fr, a.B, t, true, st, pos), nil, st)
		}
		p1 := x.typeAssert(fr, a.A, t, true, st, pos).(TupleV)
		p2 := x.typeAssert(fr, a.B, t, true, st, pos).(TupleV)
		x.safety("type assertion", fr, st, mkIte(a.C, p1[1].(*Term), p2[1].(*Term)), pos)
		return x.mergeV(a.C, p1[0], p2[0], t, st)
	case *NilV:
		ok = TFalse
		res = zeroValue(t)
	case *IfaceV:
		if isIface(t) {
			ok = mkBool(types.Implements(a.T, t.Underlying().(*types.Interface)))
			res = v
		} else if types.Identical(a.T, t) {
			ok = TTrue
			res = a.V
		} else {
			ok = TFalse
			res = zeroValue(t)
		}
	case *Term:
		if a.Sort != anySort {
			unsup("type assertion on %s", a.Sort.Name)
		}
		if isIface(t) {
			if t.Underlying().(*types.Interface).NumMethods() == 0 {
				ok = x.notNil(a, st)
				res = a
			} else {
				unsup("interface-to-interface assertion on symbolic value")
			}
		} else {
			c := anyCtor(t)
			ok = mkIs(c.Name, a)
			res = x.mergeV(ok, mkSel(c.Name, 0, a), zeroValue(t), t, st)
		}
	default:
		unsup("type assertion on %T", v)
	}
	if commaOk {
		return TupleV{res, ok}
	}
	x.safety("type assertion", fr, st, ok, pos)
	return res
}

func (x *Exec) extract(t Value, i int, st *State) Value {
	switch a := t.(type) {
	case TupleV:
		return a[i]
	case *IteV:
		return x.mergeV(a.C, x.extract(a.A, i, st), x.extract(a.B, i, st), nil, st)
	}
	unsup("extract from %T", t)
	return nil
}

// ---------------------------------------------------------------- maps

func (x *Exec) mapContent(m Value, st *State) Value {
	switch a := x.plain(m, st).(type) {
	case *MapRef:
		return st.Cells[a.Cell].V
	case *Term:
		return a
	case *NilV:
		mt := a.T.Underlying().(*types.Map)
		return &MapC{K: mt.Key(), V: mt.Elem()}
	}
	unsup("map value %T", m)
	return nil
}

func (x *Exec) lookup(fr *Frame, m Value, mt types.Type, key Value, commaOk bool, st *State, pos token.Pos) Value {
	if iv, ok := m.(*IteV); ok {
		return x.mergeV(iv.C, x.lookup(fr, iv.A, mt, key, commaOk, st, pos), x.lookup(fr, iv.B, mt, key, commaOk, st, pos), nil, st)
	}
	if isStr(mt) {
		idx := x.intTerm(key, st)
		x.safety("index bounds", fr, st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, x.length(m, st))), pos)
		return mkApp("byteAt", IntS, x.plain(m, st).(*Term), idx)
	}
	ut := mt.Underlying().(*types.Map)
	k := x.toTerm(key, ut.Key(), st)
	content := x.mapContent(m, st)
	v, ok := x.mapGet(content, k, ut, st)
	if commaOk {
		return TupleV{v, ok}
	}
	return v
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) mapGet(content Value, k *Term, ut *types.Map, st *State) (Value, *Term) {
	switch c := content.(type) {
	case *MapC:
		var v Value = zeroValue(ut.Elem())
		ok := TFalse
		for i := 0; i < len(c.Keys); i++ {
			e := mkEq(k, c.Keys[i])
			if e == TFalse {
				continue
			}
			if e == TTrue {
				return c.Vals[i], TTrue
			}
			v = x.mergeV(e, c.Vals[i], v, ut.Elem(), st)
			ok = mkOr(ok, e)
		}
		return v, ok
	case *Term:
		ct := c.Sort.DT.Ctors[0].Name
		dom := mkSelect(mkSel(ct, 0, c), k)
		val := mkSelect(mkSel(ct, 1, c), k)
		z := x.toTerm(zeroValue(ut.Elem()), ut.Elem(), st)
		return mkIte(dom, val, z), dom
	case *IteV:
		v1, o1 := x.mapGet(c.A, k, ut, st)
		v2, o2 := x.mapGet(c.B, k, ut, st)
		return x.mergeV(c.C, v1, v2, ut.Elem(), st), mkIte(c.C, o1, o2)
	}
	unsup("map content %T", content)
	return nil, nil
}

func (x *Exec) mapUpdate(fr *Frame, m Value, mt types.Type, key, val Value, st *State, pos token.Pos) {
	m = x.plain(m, st)
	ut := mt.Underlying().(*types.Map)
	if _, ok := m.(*NilV); ok {
		x.safety("assignment to nil map", fr, st, TFalse, pos)
		return
	}
	r, ok := m.(*MapRef)
	if !ok {
		if iv, isI := m.(*IteV); isI {
			s1, s2 := st.clone(), st.clone()
			x.mapUpdate(fr, iv.A, mt, key, val, s1, pos)
			x.mapUpdate(fr, iv.B, mt, key, val, s2, pos)
			s1.G, s2.G = iv.C, mkNot(iv.C)
			st.Cells = x.mergeStates([]*State{s1, s2}).Cells
			return
		}
		unsup("update of map value %T %.200v", m, m)
	}
	cs := st.Cells[r.Cell]
	if cs.Frozen != "" {
		unsup("update of map %s after it escaped", r.Cell.Name)
	}
	k := x.toTerm(key, ut.Key(), st)
	n := *cs
	switch c := cs.V.(type) {
	case *MapC:
		all := true
		hit := -1
		for i := range c.Keys {
			e := mkEq(k, c.Keys[i])
			if e == TTrue {
				hit = i
			} else if e != TFalse {
				all = false
			}
		}
		if hit >= 0 {
			nc := &MapC{K: c.K, V: c.V, Keys: c.Keys, Vals: append([]Value{}, c.Vals...)}
			nc.Vals[hit] = val
			n.V = nc
		} else if all {
			nc := &MapC{K: c.K, V: c.V, Keys: append(append([]*Term{}, c.Keys...), k), Vals: append(append([]Value{}, c.Vals...), val)}
			n.V = nc
		} else {
			n.V = x.mapStore(x.mapTerm(c, mt, st), k, x.toTerm(val, ut.Elem(), st))
		}
	case *Term:
		n.V = x.mapStore(c, k, x.toTerm(val, ut.Elem(), st))
	case *IteV:
		n.V = x.mapStore(x.mapTerm(c, mt, st), k, x.toTerm(val, ut.Elem(), st))
	default:
		unsup("map update on %T", cs.V)
	}
	st.Cells[r.Cell] = &n
}

func (x *Exec) mapStore(m, k, v *Term) *Term {
	ct := m.Sort.DT.Ctors[0].Name
	dom, val, sz := mkSel(ct, 0, m), mkSel(ct, 1, m), mkSel(ct, 2, m)
	return mkMk(m.Sort, ct, mkStore(dom, k, TTrue), mkStore(val, k, v), mkIte(mkSelect(dom, k), sz, mkAdd(sz, mkInt(1))))
}

func (x *Exec) mapDelete(m Value, mt types.Type, key Value, st *State) {
	m = x.plain(m, st)
	if _, ok := m.(*NilV); ok {
		return
	}
	r, ok := m.(*MapRef)
	if !ok {
		unsup("delete on %T", m)
	}
	ut := mt.Underlying().(*types.Map)
	k := x.toTerm(key, ut.Key(), st)
	cs := st.Cells[r.Cell]
	if cs.Frozen != "" {
		unsup("delete from escaped map")
	}
	n := *cs
	if c, ok := cs.V.(*MapC); ok {
		nc := &MapC{K: c.K, V: c.V}
		decided := true
		for i := range c.Keys {
			e := mkEq(k, c.Keys[i])
			if e == TTrue {
				continue
			}
			if e != TFalse {
				decided = false
			}
			nc.Keys = append(nc.Keys, c.Keys[i])
			nc.Vals = append(nc.Vals, c.Vals[i])
		}
		if decided {
			n.V = nc
			st.Cells[r.Cell] = &n
			return
		}
	}
	t := x.mapTerm(cs.V, mt, st)
	ct := t.Sort.DT.Ctors[0].Name
	dom, val, sz := mkSel(ct, 0, t), mkSel(ct, 1, t), mkSel(ct, 2, t)
	n.V = mkMk(t.Sort, ct, mkStore(dom, k, TFalse), mkStore(val, k, zeroOfSort(val.Sort.B)), mkIte(mkSelect(dom, k), mkSub(sz, mkInt(1)), sz))
	st.Cells[r.Cell] = &n
}

func (x *Exec) rangeOver(fr *Frame, i *ssa.Range, st *State) Value {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		unsup("range over %s", i.X.Type())
	}
	content := x.mapContent(x.val(i.X, st), st)
	m := x.mapTerm(content, i.X.Type(), st)
	keys := freshVar("rangekeys", seqSort(sortOf(mt.Key())))
	ct := m.Sort.DT.Ctors[0].Name
	dom, sz := mkSel(ct, 0, m), mkSel(ct, 2, m)
	x.fact(mkImplies(st.G, mkEq(mkSeqLen(keys), sz)))
	// every iterated key is in the map; keys are distinct
	x.P.keySeqFacts(x, keys, dom, st)
	c := x.newCell(fmt.Sprintf("%s%s/%s.iter", fr.Path, fr.Unroll, i.Name()), types.Typ[types.Int], mkInt(0), st)
	return &IterV{Cell: c, Keys: keys, M: m, KT: mt.Key(), VT: mt.Elem()}
}

func (x *Exec) next(fr *Frame, i *ssa.Next, st *State) Value {
	it, ok := x.val(i.Iter, st).(*IterV)
	if !ok {
		unsup("next")
	}
	idx := st.Cells[it.Cell].V.(*Term)
	okT := mkLt(idx, mkSeqLen(it.Keys))
	k := mkSeqNth(it.Keys, idx)
	m := it.M.(*Term)
	v := mkSelect(mkSel(m.Sort.DT.Ctors[0].Name, 1, m), k)
	n := *st.Cells[it.Cell]
	n.V = mkAdd(idx, mkInt(1))
	st.Cells[it.Cell] = &n
	return TupleV{okT, k, v}
}

// ---------------------------------------------------------------- slices

func (x *Exec) slice(fr *Frame, i *ssa.Slice, st *State) Value {
	v := x.val(i.X, st)
	t := i.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok { // slicing an array
		r, ok := v.(*Ref)
		if !ok {
			unsup("slice of array pointer %T", v)
		}
		content := x.load(r, p.Elem(), st)
		if i.Low == nil && i.High == nil {
			if s, ok := content.(*SeqV); ok {
				return s
			}
		}
		if s, ok := content.(*SeqV); ok && i.Low == nil && i.High != nil { // make([]T, n, m) with constants
			if h := x.intTerm(x.val(i.High, st), st); h.isInt() && h.I >= 0 && int(h.I) <= len(s.E) {
				n := &SeqV{Elem: s.Elem}
				n.E = append(n.E, s.E[:h.I]...)
				return n
			}
		}
		unsup("partial array slice")
	}
	v = x.plain(v, st)
	var lo, hi *Term = mkInt(0), nil
	if i.Low != nil {
		lo = x.intTerm(x.val(i.Low, st), st)
	}
	n := x.length(v, st)
	if i.High != nil {
		hi = x.intTerm(x.val(i.High, st), st)
	} else {
		hi = n
	}
	// (capacity is not modelled: slices are only ever cut within their length)
	x.safety("slice bounds", fr, st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)), i.Pos())
	return x.onIte(v, i.Type(), st, func(v Value) Value {
		switch a := v.(type) {
		case *SeqV:
			if lo.isInt() && hi.isInt() && lo.I >= 0 && lo.I <= hi.I && hi.I <= int64(len(a.E)) {
				return &SeqV{Elem: a.Elem, E: a.E[lo.I:hi.I:hi.I]}
			}
			tm := x.toTerm(a, i.Type(), st)
			return mkSeqExtract(tm, lo, mkSub(hi, lo))
		case *Term:
			if a.Sort == StrS {
				return mkSubstr(a, lo, mkSub(hi, lo))
			}
			return mkSeqExtract(a, lo, mkSub(hi, lo))
		case *NilV:
			return a
		}
		unsup("slice of %T", v)
		return nil
	})
}

// poison marks the object behind an address as unknown (package initialisers only).
func (x *Exec) poison(a ssa.Value, st *State) {
	var c *Cell
	if g, ok := a.(*ssa.Global); ok {
		c = x.globalCell(g, st)
	} else {
		switch r := st.Env[a].(type) {
		case *Ref:
			c = r.Cell
		case *MapRef:
			c = r.Cell
		}
	}
	if c != nil {
		st.Cells[c] = &CellState{V: &OpaqueV{Kind: "poison"}}
	}
}
