package main

// Slices held in local variables and written element by element
// (xs[i] = v).  Such a variable is given a cell of its own before the write,
// provided no other live variable or memory location shares its array.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mutSite struct {
	s     ssa.Value
	instr ssa.Instruction
	ptr   bool // the write goes through a pointer the slice holds
}

type mutAnalysis struct {
	sites  []mutSite
	params map[int]bool // parameters whose elements are written
}

// elemRoot: the slice value whose element the address points into (nil: none),
// and whether it does so through a pointer held by the slice.
func elemRoot(a ssa.Value) (root ssa.Value, ptr bool) {
	for {
		switch i := a.(type) {
		case *ssa.FieldAddr:
			a = i.X
		case *ssa.UnOp:
			ia, ok := i.X.(*ssa.IndexAddr)
			if i.Op != token.MUL || !ok || ptr {
				return nil, false
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				return nil, false
			}
			return ia.X, true
		case *ssa.IndexAddr:
			if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
				return i.X, ptr
			}
			a = i.X
		default:
			return nil, false
		}
	}
}

func (p *Program) mutOf(fn *ssa.Function) *mutAnalysis {
	if m, ok := p.mutCache[fn]; ok {
		return m
	}
	m := &mutAnalysis{params: map[int]bool{}}
	p.mutCache[fn] = m
	add := func(s ssa.Value, in ssa.Instruction, ptr bool) {
		m.sites = append(m.sites, mutSite{s, in, ptr})
		for i, q := range fn.Params {
			if q == s && !ptr {
				m.params[i] = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if r, ptr := elemRoot(i.Addr); r != nil {
					add(r, in, ptr)
				}
			case *ssa.Call:
				c := i.Common()
				if g := c.StaticCallee(); g != nil && p.inModule(g) && g != fn {
					for k := range p.mutOf(g).params {
						if k < len(c.Args) {
							if _, ok := c.Args[k].Type().Underlying().(*types.Slice); ok {
								add(c.Args[k], in, false)
							}
						}
					}
				}
			}
		}
	}
	return m
}

// shareOK: nothing else that is still used shares the array of s when it is
// written at in.
func (p *Program) shareOK(fn *ssa.Function, s ssa.Value, in ssa.Instruction) bool {
	group := map[ssa.Value]bool{}
	ok := true
	var grow func(v ssa.Value)
	grow = func(v ssa.Value) {
		if group[v] {
			return
		}
		group[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				grow(e)
			}
		case *ssa.Slice:
			if _, isS := i.X.Type().Underlying().(*types.Slice); isS {
				grow(i.X)
			}
		case *ssa.ChangeType:
			grow(i.X)
		case *ssa.Call:
			if b, isB := i.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" {
				grow(i.Common().Args[0])
			} else {
				ok = ok && false
			}
		case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc:
		default:
			ok = false
			return
		}
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				switch i := r.(type) {
				case *ssa.Phi:
					grow(i)
				case *ssa.ChangeType:
					grow(i)
				case *ssa.Slice:
					if i.X == v {
						grow(i)
					}
				case *ssa.Call:
					if b, isB := i.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" && i.Common().Args[0] == v {
						grow(i)
					}
				}
			}
		}
	}
	grow(s)
	if !ok {
		return false
	}
	for v := range group {
		if _, isC := v.(*ssa.Const); isC {
			continue
		}
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			if r == in {
				continue
			}
			switch i := r.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.DebugRef:
				continue
			case *ssa.Slice:
				continue
			case *ssa.Call:
				if b, isB := i.Common().Value.(*ssa.Builtin); isB && (b.Name() == "append" || b.Name() == "len" || b.Name() == "cap") {
					if b.Name() != "append" || i.Common().Args[0] == v {
						continue
					}
				}
			case *ssa.IndexAddr, *ssa.Range:
			}
			// a use of the array: through s itself only later, through others only earlier
			if v != s && reaches(in, r) {
				return false
			}
			switch i := r.(type) {
			case *ssa.Store:
				if i.Val == v && reaches(r, in) {
					return false
				}
			case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.MapUpdate, *ssa.Return:
				if reaches(r, in) {
					return false
				}
			}
		}
	}
	return true
}

// freshElems: every element of s is a pointer to an object made for it: nothing
// else holds it.
func freshElems(s ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return i.IsNil()
		case *ssa.MakeSlice:
			n, isC := i.Len.(*ssa.Const)
			return isC && n.Value != nil && n.Int64() == 0
		case *ssa.Call:
			b, isB := i.Common().Value.(*ssa.Builtin)
			return isB && b.Name() == "append" && ok(i.Common().Args[0]) && freshArgs(i.Common().Args[1])
		}
		return false
	}
	return ok(s)
}

// freshArgs: the variadic slice holds new objects used nowhere else.
func freshArgs(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *arr.Referrers() {
		if r == ssa.Instruction(sl) {
			continue
		}
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		for _, q := range *ia.Referrers() {
			st, ok := q.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(ia) {
				return false
			}
			obj, ok := st.Val.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, u := range *obj.Referrers() {
				switch w := u.(type) {
				case *ssa.FieldAddr, *ssa.DebugRef:
				case *ssa.Store:
					if w.Val == ssa.Value(obj) && w != st {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

// reaches: b can execute after a.
func reaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if n == b.Block() {
			return true
		}
		work = append(work, n.Succs...)
	}
	return false
}

// ownSlice gives the local slice s a cell of its own.
func (x *Exec) ownSlice(fr *Frame, m mutSite, st *State) {
	v, ok := st.Env[m.s]
	if !ok {
		return
	}
	switch v.(type) {
	case *Term, *SeqV:
	default:
		return
	}
	if _, isP := m.s.(*ssa.Parameter); isP {
		return
	}
	if !x.P.shareOK(fr.Fn, m.s, m.instr) || m.ptr && !freshElems(m.s) {
		return
	}
	t := m.s.Type()
	c := x.newCell(fr.Path+fr.Unroll+"/"+m.s.Name()+".own", t, v, st)
	st.Env[m.s] = &ProvV{R: &Ref{Cell: c}, Snap: v, T: t}
}

func (x *Exec) ownSlices(fr *Frame, st *State, within func(mutSite) bool) {
	if x.spec {
		return
	}
	for _, m := range x.P.mutOf(fr.Fn).sites {
		if within(m) {
			x.ownSlice(fr, m, st)
		}
	}
}
