package main

// Inference of loop invariants: invariant templates (contract functions
// VInv_<property>_*) are instantiated at every loop that has to be cut; the
// instances that are not inductive are discarded by a Houdini fixpoint.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type slotView struct {
	name   string
	t      types.Type
	entry  Value
	head   Value
	closed bool
}

type candInst struct {
	key      string
	init     *Term
	head     *Term
	nf       int
	backArgs func(get func(name string) Value, k1 *Term) []Value
	eval     func(args []Value, st *State) *Term
}

type namedVal struct {
	n string
	v Value
	t types.Type
}

type candCtx struct {
	fr      *Frame
	key     string
	k       *Term
	xs      *Term
	xsT     types.Type
	entrySt *State
	headSt  *State
	slots   []slotView
	extra   []namedVal
	vary    map[int]bool
	auto    func(get func(name string) Value, k *Term, st *State) *Term
}

type binding struct {
	desc string
	init Value
	head Value
	back func(get func(name string) Value, k1 *Term) Value
}

func fixedBinding(desc string, v Value) *binding {
	return &binding{desc: desc, init: v, head: v, back: func(func(string) Value, *Term) Value { return v }}
}

func lenOf(t *Term) *Term { // find (seq.len s) in a linear term
	var r *Term
	collect([]*Term{t}, func(s *Term) {
		if s.Op == OSeqLen && r == nil {
			r = s.Args[0]
		}
	})
	return r
}

func (x *Exec) headerCond(fr *Frame, l *Loop, s *State) *Term {
	b := l.Header
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	nf, no := len(x.facts), len(x.obls)
	fs := snapshotFresh()
	sp, cs := x.spec, fr.State
	x.spec = true
	st := s.clone()
	defer func() {
		x.spec = sp
		fr.State = cs
		x.facts, x.obls = x.facts[:nf], x.obls[:no]
		restoreFresh(fs)
	}()
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if _, ok := in.(*ssa.Call); ok {
			c := in.(*ssa.Call).Common()
			if _, isB := c.Value.(*ssa.Builtin); !isB {
				return nil
			}
		}
		x.instr(fr, in, st)
	}
	c := x.boolTerm(x.val(last.Cond, st), st)
	if !l.Blocks[b.Succs[0]] {
		c = mkNot(c)
	}
	return c
}

// rangedSeq: the sequence whose length bounds the loop (i < len(xs)).
func (x *Exec) rangedSeq(fr *Frame, l *Loop, h *State) *Term {
	last, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	b, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{b.Y, b.X} {
		c, ok := v.(*ssa.Call)
		if !ok || l.Blocks[c.Block()] {
			continue
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			continue
		}
		a := c.Call.Args[0]
		if _, ok := a.Type().Underlying().(*types.Slice); !ok || h.Env[a] == nil {
			continue
		}
		return x.tryTermSpec(h.Env[a], a.Type(), h)
	}
	return nil
}

func (x *Exec) candidates(fr *Frame, l *Loop, key string, s, h *State, k *Term, svs []slotView, dry bool) []*candInst {
	if dry {
		return nil
	}
	cc := &candCtx{fr: fr, key: key, k: k, entrySt: s, headSt: h, slots: svs}
	hc := x.headerCond(fr, l, h)
	if hc != nil && hc.Op == ONot && hc.Args[0].Op == OLe {
		a, b := hc.Args[0].Args[0], hc.Args[0].Args[1] // not (a <= b): b < a
		if sq := x.rangedSeq(fr, l, h); sq != nil {
			cc.xs = sq
		} else if sq := lenOf(a); sq != nil {
			cc.xs = sq
		}
		_ = b
		cc.auto = func(get func(string) Value, kk *Term, st *State) *Term {
			c := x.headerCond(fr, l, st)
			if c == nil {
				return TTrue
			}
			if c.Op == ONot && c.Args[0].Op == OLe {
				return mkLe(c.Args[0].Args[1], c.Args[0].Args[0])
			}
			return TTrue
		}
	}
	// values in scope
	saved := fr.State
	fr.State = h
	defer func() { fr.State = saved }()
	return x.candidatesFor(cc)
}

func (x *Exec) candidatesFor(cc *candCtx) []*candInst {
	var out []*candInst
	nf := len(x.facts)
	if cc.auto != nil {
		key := cc.key + "|auto"
		x.cands[key] = true
		if !x.disabled[key] {
			hd := cc.auto(nil, cc.k, cc.headSt)
			in := cc.auto(nil, mkInt(0), cc.entrySt)
			out = append(out, &candInst{key: key, init: in, head: hd, nf: nf,
				backArgs: func(get func(string) Value, k1 *Term) []Value { return []Value{k1} },
				eval:     func(args []Value, st *State) *Term { return cc.auto(nil, args[0].(*Term), st) }})
		}
	}
	if x.H == nil {
		return out
	}
	out = append(out, x.copyCands(cc, nf)...)
	out = append(out, x.foldCands(cc, nf)...)
	for _, tf := range x.H.Invs {
		opts := make([][]*binding, len(tf.Params))
		dead := false
		for i, p := range tf.Params {
			opts[i] = x.bindOptions(cc, p, tf)
			if len(opts[i]) == 0 {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		// enumerate combinations; values of the same "o" group must agree with their slot
		var rec func(i int, cur []*binding)
		count := 0
		rec = func(i int, cur []*binding) {
			if count > 40 {
				return
			}
			if i == len(opts) {
				count++
				if ci := x.instCand(cc, tf, append([]*binding{}, cur...), nf); ci != nil {
					out = append(out, ci)
				}
				return
			}
			for _, b := range opts[i] {
				if b.desc != "" && strings.HasPrefix(b.desc, "entry:") {
					// entry value of a slot bound earlier: must be that slot
					want := strings.TrimPrefix(b.desc, "entry:")
					ok := false
					base := strings.TrimSuffix(tf.Params[i].Name(), "_0")
					for j, q := range tf.Params[:i] {
						if q.Name() == base && cur[j].desc == "slot:"+want {
							ok = true
						}
					}
					if !ok {
						continue
					}
				} else if strings.HasPrefix(b.desc, "slot:") {
					dup := false
					for _, c := range cur {
						if c.desc == b.desc {
							dup = true
						}
					}
					if dup {
						continue
					}
				}
				rec(i+1, append(cur, b))
			}
		}
		rec(0, nil)
	}
	return out
}

func sameType(a, b types.Type) bool {
	return types.Identical(types.Unalias(a), types.Unalias(b))
}

func (x *Exec) bindOptions(cc *candCtx, p *ssa.Parameter, tf *ssa.Function) []*binding {
	name, t := p.Name(), p.Type()
	switch {
	case name == "k" && sortIsInt(t):
		return []*binding{{desc: "k", init: mkInt(0), head: cc.k, back: func(g func(string) Value, k1 *Term) Value { return k1 }}}
	case name == "xs":
		if cc.xs == nil || cc.xs.Sort != sortOf(t) {
			return nil
		}
		return []*binding{fixedBinding("xs", cc.xs)}
	case strings.HasPrefix(name, "v"):
		var r []*binding
		entry := strings.HasSuffix(name, "_0")
		for _, s := range cc.slots {
			s := s
			if !sameType(s.t, t) {
				continue
			}
			if entry {
				r = append(r, fixedBinding("entry:"+s.name, s.entry))
			} else {
				if s.closed {
					continue
				}
				r = append(r, &binding{desc: "slot:" + s.name, init: s.entry, head: s.head, back: func(g func(string) Value, k1 *Term) Value { return g(s.name) }})
			}
		}
		return r
	}
	return x.bindOptionsNamed(cc, p, tf, 4)
}

func (x *Exec) bindOptionsNamed(cc *candCtx, p *ssa.Parameter, tf *ssa.Function, lim int) []*binding {
	name, t := p.Name(), p.Type()
	// a harness parameter of that name and type
	if v, ok := x.params[name]; ok && sameType(x.paramT[name], t) {
		return []*binding{fixedBinding("param:"+name, v)}
	}
	// otherwise: values of that type in scope, innermost first
	var r []*binding
	seen := map[int]bool{}
	varying := cc.varying(x)
	add := func(desc string, v Value, st *State) {
		if len(r) >= lim || v == nil {
			return
		}
		tm := x.tryTermSpec(v, t, st)
		if tm == nil {
			return
		}
		// the value must be the same in every iteration
		if x.tryTermSpec(v, t, cc.entrySt) != tm {
			return
		}
		bad := false
		collect([]*Term{tm}, func(s *Term) {
			if s.Op == OVar && varying[s.ID] {
				bad = true
			}
		})
		if bad {
			return
		}
		if seen[tm.ID] {
			return
		}
		seen[tm.ID] = true
		r = append(r, fixedBinding(desc, tm))
	}
	for i := len(cc.extra) - 1; i >= 0; i-- {
		if e := cc.extra[i]; sameType(e.t, t) {
			add("tplvar:"+e.n, e.v, cc.headSt)
		}
	}
	depth := 0
	for fr := cc.fr; fr != nil; fr = fr.Parent {
		st := fr.State
		if st == nil {
			continue
		}
		var keys []ssa.Value
		for v := range st.Env {
			if _, ok := v.(*retVal); ok {
				continue
			}
			if sameType(v.Type(), t) {
				keys = append(keys, v)
			}
		}
		sort.Slice(keys, func(i, j int) bool {
			oi, oj := isOwn(st.Env[keys[i]]), isOwn(st.Env[keys[j]])
			if oi != oj {
				return oi
			}
			return ssaOrder(keys[i]) < ssaOrder(keys[j])
		})
		for _, v := range keys {
			if _, isPhi := v.(*ssa.Phi); isPhi && depth == 0 && isSlotPhi(cc, v) {
				continue
			}
			if isOwn(st.Env[v]) {
				pv := st.Env[v].(*ProvV)
				lim++
				add(fmt.Sprintf("f%d:%s.old", depth, v.Name()), pv.Snap, cc.headSt)
			}
			add(fmt.Sprintf("f%d:%s", depth, v.Name()), st.Env[v], cc.headSt)
		}
		depth++
	}
	return r
}

// varying: the symbols that stand for an arbitrary iteration of the loop.
func (cc *candCtx) varying(x *Exec) map[int]bool {
	if cc.vary != nil {
		return cc.vary
	}
	cc.vary = map[int]bool{cc.k.ID: true}
	keep := map[int]bool{}
	for _, s := range cc.slots {
		if e := x.tryTermSpec(s.entry, s.t, cc.entrySt); e != nil {
			collect([]*Term{e}, func(t *Term) { keep[t.ID] = true })
		}
	}
	for _, s := range cc.slots {
		if h := x.tryTermSpec(s.head, s.t, cc.headSt); h != nil {
			collect([]*Term{h}, func(t *Term) {
				if t.Op == OVar && !keep[t.ID] {
					cc.vary[t.ID] = true
				}
			})
		}
	}
	return cc.vary
}

func isOwn(v Value) bool {
	pv, ok := v.(*ProvV)
	return ok && strings.HasSuffix(pv.R.Cell.Name, ".own")
}

func isSlotPhi(cc *candCtx, v ssa.Value) bool {
	p := v.(*ssa.Phi)
	for _, s := range cc.slots {
		if s.name == p.Comment+"~"+p.Name() {
			return true
		}
	}
	return false
}

func ssaOrder(v ssa.Value) string {
	n := v.Name()
	switch v.(type) {
	case *ssa.Parameter:
		return "0" + n
	case *ssa.FreeVar:
		return "1" + n
	}
	return fmt.Sprintf("2%03d%s", len(n), n)
}

func (x *Exec) tryTermSpec(v Value, t types.Type, st *State) (r *Term) {
	sp := x.spec
	x.spec = true
	defer func() {
		x.spec = sp
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return x.toTerm(v, t, st)
}

func (x *Exec) instCand(cc *candCtx, tf *ssa.Function, bs []*binding, nf int) (ci *candInst) {
	var ds []string
	for _, b := range bs {
		ds = append(ds, b.desc)
	}
	key := cc.key + "|" + tf.Name() + "(" + strings.Join(ds, ",") + ")"
	x.cands[key] = true
	if x.disabled[key] {
		return nil
	}
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupported); ok {
				if debugVC {
					fmt.Fprintf(os.Stderr, "  candidate %s: %s\n", key, u.msg)
				}
				x.disabled[key] = true
				ci = nil
				return
			}
			panic(e)
		}
	}()
	eval := func(args []Value, st *State) *Term {
		y := x.specExec()
		s2 := st.clone()
		s2.G = TTrue
		_, v := y.callFn(tf, args, nil, s2, "inv:"+tf.Name())
		for _, f := range y.facts {
			x.fact(f)
		}
		if v == nil {
			return TFalse
		}
		return y.boolTerm(v, s2)
	}
	var ia, ha []Value
	for _, b := range bs {
		ia = append(ia, b.init)
		ha = append(ha, b.head)
	}
	init := eval(ia, cc.entrySt)
	head := eval(ha, cc.headSt)
	if head == TTrue {
		return nil
	}
	return &candInst{key: key, init: init, head: head, nf: nf,
		backArgs: func(get func(string) Value, k1 *Term) []Value {
			var r []Value
			for _, b := range bs {
				r = append(r, b.back(get, k1))
			}
			return r
		}, eval: eval}
}

// specFns: logical functions the harness (or its invariant templates) can reach.
func (p *Program) specFns(h *Harness) []*ssa.Function {
	if r, ok := p.specFnCache[h]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	work := append([]*ssa.Function{h.Fn}, h.Invs...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if p.isLogic(f) {
			out = append(out, f)
		}
		for _, a := range f.AnonFuncs {
			work = append(work, a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if s := c.Common().StaticCallee(); s != nil && p.isContractFn(s) {
						work = append(work, s)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.specFnCache[h] = out
	return out
}

// foldCands: a variable of the loop equals a logical function of the number
// of completed iterations (possibly after what it held at loop entry).
func (x *Exec) foldCands(cc *candCtx, nf int) []*candInst {
	var out []*candInst
	for _, lf := range x.P.specFns(x.H) {
		n := len(lf.Params)
		if n == 0 || lf.Params[n-1].Name() != "k" || !sortIsInt(lf.Params[n-1].Type()) || x.P.upwardFn(lf) {
			continue
		}
		rt := lf.Signature.Results().At(0).Type()
		for _, s := range cc.slots {
			if s.closed || !sameType(s.t, rt) {
				continue
			}
			s := s
			opts := make([][]*binding, n)
			dead := false
			for i, p := range lf.Params {
				if i < n-1 && sameType(p.Type(), rt) {
					opts[i] = append(opts[i], fixedBinding("entry", s.entry))
				}
				opts[i] = append(opts[i], x.foldBind(cc, p, lf)...)
				if len(opts[i]) == 0 {
					dead = true
					break
				}
			}
			if dead {
				continue
			}
			count := 0
			var rec func(i int, cur []*binding)
			rec = func(i int, cur []*binding) {
				if count > 60 {
					return
				}
				if i == n {
					count++
					if ci := x.foldCand(cc, lf, s, append([]*binding{}, cur...), nf); ci != nil {
						out = append(out, ci)
					}
					return
				}
				for _, b := range opts[i] {
					rec(i+1, append(cur, b))
				}
			}
			rec(0, nil)
		}
	}
	return out
}

func (x *Exec) foldBind(cc *candCtx, p *ssa.Parameter, lf *ssa.Function) []*binding {
	if p.Name() == "k" && sortIsInt(p.Type()) {
		return []*binding{{desc: "k", init: mkInt(0), head: cc.k, back: func(g func(string) Value, k1 *Term) Value { return k1 }}}
	}
	var r []*binding
	seen := map[int]bool{}
	isXs := false
	if cc.xs != nil && cc.xs.Sort == sortOf(p.Type()) {
		r = append(r, fixedBinding("xs", cc.xs))
		seen[cc.xs.ID] = true
		isXs = true
	}
	lim := 4
	if x.tier > 0 {
		lim = 12
	}
	for _, b := range x.bindOptionsNamed(cc, p, lf, lim) {
		if x.tier == 0 && isXs && !strings.HasSuffix(b.desc, ".old") {
			continue
		}
		if t, ok := b.init.(*Term); ok {
			if seen[t.ID] {
				continue
			}
			seen[t.ID] = true
		}
		r = append(r, b)
	}
	return r
}

// copyCands: the variable collects the elements visited so far.
func (x *Exec) copyCands(cc *candCtx, nf int) (out []*candInst) {
	if cc.xs == nil || cc.xs.Sort.Kind != SSeq {
		return nil
	}
	for _, s := range cc.slots {
		if _, ok := s.t.Underlying().(*types.Slice); !ok || sortOf(s.t) != cc.xs.Sort {
			continue
		}
		entry, ok1 := s.entry.(*Term)
		if !ok1 {
			entry = x.tryTermSpec(s.entry, s.t, cc.entrySt)
		}
		head, ok2 := s.head.(*Term)
		if !ok2 {
			head = x.tryTermSpec(s.head, s.t, cc.headSt)
		}
		if entry == nil || head == nil {
			continue
		}
		key := cc.key + "|" + s.name + "=copy"
		x.cands[key] = true
		if x.disabled[key] {
			continue
		}
		if strings.HasSuffix(s.name, ".own") {
			continue // written in place: does not grow
		}
		name, t, xs := s.name, s.t, cc.xs
		val := func(k *Term) *Term { return mkSeqCat(xs.Sort, entry, mkSeqExtract(xs, mkInt(0), k)) }
		out = append(out, &candInst{key: key, init: TTrue, head: mkEq(head, val(cc.k)), nf: nf,
			backArgs: func(get func(string) Value, k1 *Term) []Value { return []Value{get(name), k1} },
			eval: func(args []Value, st *State) *Term {
				y := x.specExec()
				return mkEq(y.toTerm(args[0], t, st), val(args[1].(*Term)))
			}})
	}
	return out
}

func (x *Exec) foldCand(cc *candCtx, lf *ssa.Function, s slotView, bs []*binding, nf int) (ci *candInst) {
	var ds []string
	for _, b := range bs {
		ds = append(ds, b.desc)
	}
	desc := lf.Name() + "(" + strings.Join(ds, ",") + ")"
	key := cc.key + "|" + s.name + "=" + desc
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				x.disabled[key] = true
				ci = nil
				return
			}
			panic(e)
		}
	}()
	if x.disabled[key] {
		x.cands[key] = true
		return nil
	}
	app := func(get func(b *binding) Value, st *State) *Term {
		var args []Value
		for _, b := range bs {
			args = append(args, get(b))
		}
		y := x.specExec()
		s2 := st.clone()
		s2.G = TTrue
		t := y.toTerm(y.callLogic(lf, args, s2), s.t, s2)
		for _, f := range y.facts {
			x.fact(f)
		}
		return t
	}
	entry, ok1 := s.entry.(*Term)
	if !ok1 {
		entry = x.tryTermSpec(s.entry, s.t, cc.entrySt)
	}
	head, ok2 := s.head.(*Term)
	if !ok2 {
		head = x.tryTermSpec(s.head, s.t, cc.headSt)
	}
	if entry == nil || head == nil {
		return nil
	}
	i0 := app(func(b *binding) Value { return b.init }, cc.entrySt)
	prefix := (*Term)(nil)
	init := mkEq(entry, i0)
	if chained := i0.Op != OSeqEmpty && i0 != mkStr("") && i0.Op != OMk; chained && !x.quickTrue(init) {
		// continues another fold: to be proved
	} else if !x.quickTrue(init) {
		// after what was there before the loop
		switch s.t.Underlying().(type) {
		case *types.Slice:
			if i0.Op != OSeqEmpty {
				return nil
			}
			prefix = entry
		default:
			if sortOf(s.t) != StrS || i0 != mkStr("") {
				return nil
			}
			prefix = entry
		}
		key += "+entry"
		if strings.HasSuffix(s.name, ".own") {
			return nil // written in place: does not grow
		}
		if x.disabled[key] {
			x.cands[key] = true
			return nil
		}
		init = TTrue
	} else {
		init = TTrue
	}
	x.cands[key] = true
	wrap := func(t *Term) *Term {
		if prefix == nil {
			return t
		}
		if t.Sort == StrS {
			return mkStrCat(prefix, t)
		}
		return mkSeqCat(t.Sort, prefix, t)
	}
	hd := mkEq(head, wrap(app(func(b *binding) Value { return b.head }, cc.headSt)))
	return &candInst{key: key, init: init, head: hd, nf: nf,
		backArgs: func(get func(string) Value, k1 *Term) []Value {
			r := []Value{get(s.name)}
			for _, b := range bs {
				r = append(r, b.back(get, k1))
			}
			return r
		},
		eval: func(args []Value, st *State) *Term {
			i := 0
			t := app(func(b *binding) Value { i++; return args[i] }, st)
			y := x.specExec()
			v := y.toTerm(args[0], s.t, st)
			return mkEq(v, wrap(t))
		}}
}

// quickTrue: settled by the simplifier under the known facts.
func (x *Exec) quickTrue(t *Term) bool {
	if t == TTrue {
		return true
	}
	if t == TFalse {
		return false
	}
	if t.Op == OEq && t.Args[0] == t.Args[1] {
		return true
	}
	return false
}
