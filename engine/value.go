package main

// Symbolic values, locations, states.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// *Term                 : any SMT term
type StructV struct {
	T types.Type
	F []Value
}
type SeqV struct { // concrete-length slice/array
	Elem types.Type
	E    []Value
	Nil  bool
}
type NilV struct{ T types.Type } // nil func / opaque pointer / interface / map
type IfaceV struct {
	T types.Type // dynamic type
	V Value
}
type ClosureV struct {
	Fn *ssa.Function
	B  []Value
}
type TupleV []Value
type OpaqueV struct {
	Kind string
	Data interface{}
}
type IteV struct {
	C    *Term
	A, B Value
}
type MapC struct { // content of a map cell with constant keys (insertion order kept)
	K, V types.Type
	Keys []*Term
	Vals []Value
}
type MapRef struct{ Cell *Cell } // map value
type Step struct {
	Kind int // 0 field, 1 index, 2 deref
	F    int
	I    *Term
}
type Ref struct { // address of a location
	Cell *Cell
	P    []Step
	Prov *ProvV // provenance that must still be valid (if any)
}
type ROAddr struct{ V Value } // read-only address
type ProvV struct {           // slice/pointer value loaded from a location
	R    *Ref
	Snap Value
	T    types.Type
	SV   int
	NW   int
}
type IterV struct { // map iterator
	Cell *Cell // Int index cell
	Keys *Term // Seq of keys
	M    Value // snapshot of the map (term)
	KT   types.Type
	VT   types.Type
}

type Cell struct {
	ID   int
	Name string
	T    types.Type
}
type CellState struct {
	V      Value
	SV     int
	NW     int
	Frozen string
}
type State struct {
	G     *Term
	Env   map[ssa.Value]Value
	Cells map[*Cell]*CellState
}

func (s *State) clone() *State {
	n := &State{G: s.G, Env: make(map[ssa.Value]Value, len(s.Env)+8), Cells: make(map[*Cell]*CellState, len(s.Cells)+8)}
	for k, v := range s.Env {
		n.Env[k] = v
	}
	for k, v := range s.Cells {
		n.Cells[k] = v
	}
	return n
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	if os.Getenv("GOVC_STACK") != "" {
		debug.PrintStack()
	}
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// ---------------------------------------------------------------- sorts

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var sortCache = map[string]*Sort{}

// selRange: "dt.ctor.idx" -> number of bits for unsigned ints
var selRange = map[string]int64{}

func uintMax(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 255
		case types.Uint16:
			return 65535
		case types.Uint32:
			return 1<<32 - 1
		case types.Uint, types.Uint64, types.Uintptr:
			return 1<<62 - 1
		}
	}
	return 0
}

var opaqueTypes = map[string]bool{
	"regexp.Regexp": true, "template.Template": true, "pluralize.Client": true,
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	name := typeName(t)
	if s, ok := sortCache[name]; ok {
		return s
	}
	set := func(s *Sort) *Sort { sortCache[name] = s; return s }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return set(BoolS)
		case u.Info()&types.IsInteger != 0:
			return set(IntS)
		case u.Info()&types.IsString != 0:
			return set(StrS)
		case u.Kind() == types.UntypedNil:
			return set(anySort)
		}
		return set(unintSort("Float"))
	case *types.Struct:
		if opaqueTypes[name] {
			return set(unintSort(name))
		}
		s := set(dataSort(name))
		c := &Ctor{Name: name}
		s.DT.Ctors = []*Ctor{c}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.Fields = append(c.Fields, f.Name())
			fs := sortOf(f.Type())
			c.Sorts = append(c.Sorts, fs)
			if m := uintMax(f.Type()); m > 0 {
				selRange[fmt.Sprintf("%s.%d", name, i)] = m
			}
		}
		return s
	case *types.Pointer:
		en := typeName(u.Elem())
		if opaqueTypes[en] {
			return set(unintSort("*" + en))
		}
		s := set(dataSort("*" + en))
		s.DT.Ctors = []*Ctor{{Name: "nil*" + en}, {Name: "box*" + en, Fields: []string{"v"}, Sorts: []*Sort{nil}}}
		s.DT.Ctors[1].Sorts[0] = sortOf(u.Elem())
		if m := uintMax(u.Elem()); m > 0 {
			selRange["box*"+en+".0"] = m
		}
		return s
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return set(StrS) // []byte
		}
		return set(seqSort(sortOf(u.Elem())))
	case *types.Array:
		return set(seqSort(sortOf(u.Elem())))
	case *types.Map:
		n := "map[" + typeName(u.Key()) + "]" + typeName(u.Elem())
		s := set(dataSort(n))
		ks, vs := sortOf(u.Key()), sortOf(u.Elem())
		s.DT.Ctors = []*Ctor{{Name: n, Fields: []string{"dom", "val", "size"}, Sorts: []*Sort{arrSort(ks, BoolS), arrSort(ks, vs), IntS}}}
		return s
	case *types.Interface:
		return set(anySort)
	case *types.Signature:
		return set(fnSort)
	case *types.Tuple:
		unsup("tuple sort")
	}
	unsup("sort of type %s", name)
	return nil
}

var anySort = func() *Sort {
	s := dataSort("Any")
	s.DT.Ctors = []*Ctor{{Name: "any.nil"}, {Name: "any.other", Fields: []string{"id"}, Sorts: []*Sort{IntS}}}
	return s
}()
var fnSort = func() *Sort {
	s := dataSort("Func")
	s.DT.Ctors = []*Ctor{{Name: "func.nil"}, {Name: "func.id", Fields: []string{"id"}, Sorts: []*Sort{IntS}}}
	openSorts["Func"] = true
	return s
}()

func anyCtor(t types.Type) *Ctor {
	n := "any:" + typeName(t)
	if c := anySort.DT.ctor(n); c != nil {
		return c
	}
	c := &Ctor{Name: n, Fields: []string{"v"}, Sorts: []*Sort{sortOf(t)}}
	anySort.DT.Ctors = append(anySort.DT.Ctors, c)
	return c
}

// ---------------------------------------------------------------- zero values

func zeroTerm(t types.Type) *Term {
	s := sortOf(t)
	return zeroOfSort(s)
}

func zeroOfSort(s *Sort) *Term {
	switch s.Kind {
	case SBool:
		return TFalse
	case SInt:
		return mkInt(0)
	case SString:
		return mkStr("")
	case SSeq:
		return mkSeqEmpty(s)
	case SUnint:
		return mkVar("zero:"+s.Name, s)
	case SArray:
		return mkConstArr(s, zeroOfSort(s.B))
	case SData:
		c := s.DT.Ctors[0]
		var args []*Term
		for _, f := range c.Sorts {
			args = append(args, zeroOfSort(f))
		}
		return mkMk(s, c.Name, args...)
	}
	panic("zero")
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueTypes[typeName(t)] {
			return zeroTerm(t)
		}
		if m := opaqueStruct(t); m != nil {
			return m
		}
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, zeroValue(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		s := &SeqV{Elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			s.E = append(s.E, zeroValue(u.Elem()))
		}
		return s
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return mkStr("")
		}
		return &SeqV{Elem: u.Elem(), Nil: true}
	case *types.Map, *types.Interface, *types.Signature, *types.Pointer:
		return &NilV{T: t}
	}
	return zeroTerm(t)
}

// opaqueStruct gives models for library structs held by value (bytes.Buffer).
func opaqueStruct(t types.Type) Value {
	switch typeName(t) {
	case "bytes.Buffer", "strings.Builder":
		return &StructV{T: t, F: []Value{mkStr("")}}
	}
	return nil
}

// ---------------------------------------------------------------- conversion to terms

func (x *Exec) toTerm(v Value, t types.Type, st *State) *Term {
	s := sortOf(t)
	r := x.toTermS(v, t, s, st)
	if r.Sort != s {
		unsup("toTerm sort mismatch %s vs %s (%s)", r.Sort.Name, s.Name, typeName(t))
	}
	return r
}

func (x *Exec) toTermS(v Value, t types.Type, s *Sort, st *State) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *ProvV:
		return x.toTermS(x.resolve(a, st), t, s, st)
	case *StructV:
		u, _ := isStruct(t)
		if u == nil || u.NumFields() != len(a.F) {
			unsup("struct term of %s", typeName(t))
		}
		var args []*Term
		for i := range a.F {
			args = append(args, x.toTerm(a.F[i], u.Field(i).Type(), st))
		}
		return mkMk(s, s.DT.Ctors[0].Name, args...)
	case *SeqV:
		if s == StrS { // []byte
			if len(a.E) == 0 {
				return mkStr("")
			}
			unsup("[]byte literal")
		}
		var parts []*Term
		for _, e := range a.E {
			parts = append(parts, mkSeqUnit(x.toTerm(e, a.Elem, st)))
		}
		return mkSeqCat(s, parts...)
	case *NilV:
		return zeroOfSort(s)
	case *IfaceV:
		if s != anySort {
			unsup("iface to %s", s.Name)
		}
		c := anyCtor(a.T)
		return mkMk(anySort, c.Name, x.toTerm(a.V, a.T, st))
	case *IteV:
		return mkIte(a.C, x.toTermS(a.A, t, s, st), x.toTermS(a.B, t, s, st))
	case *Ref:
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			unsup("ref to term of %s", typeName(t))
		}
		c := x.load(a, p.Elem(), st)
		if !x.spec && len(a.P) == 0 {
			x.freeze(a.Cell, st)
		}
		return mkMk(s, s.DT.Ctors[1].Name, x.toTerm(c, p.Elem(), st))
	case *ROAddr:
		p := t.Underlying().(*types.Pointer)
		return mkMk(s, s.DT.Ctors[1].Name, x.toTerm(a.V, p.Elem(), st))
	case *MapRef:
		cs := st.Cells[a.Cell]
		if !x.spec {
			x.freeze(a.Cell, st)
		}
		return x.mapTerm(cs.V, t, st)
	case *ClosureV:
		// identity of a closed function
		if len(a.B) == 0 {
			return mkMk(fnSort, "func.id", mkInt(x.fnID(a.Fn)))
		}
		unsup("closure %s as term", a.Fn.Name())
	case *OpaqueV:
		if a.Kind == "fn" {
			return a.Data.(*Term)
		}
		if s.Kind == SUnint {
			return mkApp("opaque:"+a.Kind, s)
		}
		unsup("opaque %s as term", a.Kind)
	}
	unsup("toTerm of %T", v)
	return nil
}

func (x *Exec) mapTerm(v Value, t types.Type, st *State) *Term {
	switch m := v.(type) {
	case *Term:
		return m
	case *IteV:
		return mkIte(m.C, x.mapTerm(m.A, t, st), x.mapTerm(m.B, t, st))
	case *MapC:
		s := sortOf(t)
		c := s.DT.Ctors[0]
		dom := mkConstArr(c.Sorts[0], TFalse)
		val := mkConstArr(c.Sorts[1], zeroOfSort(c.Sorts[1].B))
		for i, k := range m.Keys {
			dom = mkStore(dom, k, TTrue)
			val = mkStore(val, k, x.toTerm(m.Vals[i], m.V, st))
		}
		return mkMk(s, c.Name, dom, val, mkInt(int64(len(m.Keys))))
	}
	unsup("map content %T", v)
	return nil
}

func (x *Exec) freeze(c *Cell, st *State) {
	cs := st.Cells[c]
	if cs == nil || cs.Frozen != "" {
		return
	}
	n := *cs
	n.Frozen = "escaped"
	st.Cells[c] = &n
}

// ---------------------------------------------------------------- load / store

func (x *Exec) load(r *Ref, t types.Type, st *State) Value {
	x.checkProv(r, st)
	cs := st.Cells[r.Cell]
	if cs == nil {
		unsup("load of dead cell %s", r.Cell.Name)
	}
	return x.walk(cs.V, r.P, st)
}

func (x *Exec) walk(v Value, p []Step, st *State) Value {
	for i, s := range p {
		if iv, ok := v.(*IteV); ok {
			return x.mergeV(iv.C, x.walk(iv.A, p[i:], st), x.walk(iv.B, p[i:], st), nil, st)
		}
		if pv, ok := v.(*ProvV); ok {
			v = x.resolve(pv, st)
		}
		switch s.Kind {
		case 0:
			v = x.field(v, s.F, st)
		case 1:
			v = x.index(v, s.I, st)
		case 2:
			v = x.deref(v, st)
		}
	}
	return v
}

func (x *Exec) deref(v Value, st *State) Value {
	switch a := v.(type) {
	case *Term:
		if a.Sort.Kind != SData || len(a.Sort.DT.Ctors) != 2 {
			unsup("deref of %s", a.Sort.Name)
		}
		return mkSel(a.Sort.DT.Ctors[1].Name, 0, a)
	case *Ref:
		x.checkProv(a, st)
		cs := st.Cells[a.Cell]
		if cs == nil {
			unsup("deref dead cell")
		}
		return x.walk(cs.V, a.P, st)
	case *ROAddr:
		return a.V
	case *ProvV:
		return x.deref(x.resolve(a, st), st)
	}
	unsup("deref of %T", v)
	return nil
}

func (x *Exec) field(v Value, f int, st *State) Value {
	switch a := v.(type) {
	case *StructV:
		return a.F[f]
	case *Term:
		if a.Sort.Kind != SData {
			unsup("field of %s", a.Sort.Name)
		}
		return mkSel(a.Sort.DT.Ctors[0].Name, f, a)
	case *IteV:
		return x.mergeV(a.C, x.field(a.A, f, st), x.field(a.B, f, st), nil, st)
	}
	unsup("field of %T", v)
	return nil
}

func (x *Exec) index(v Value, i *Term, st *State) Value {
	switch a := v.(type) {
	case *SeqV:
		if i.isInt() {
			if i.I < 0 || i.I >= int64(len(a.E)) {
				return zeroValue(a.Elem) // guarded by a bounds obligation
			}
			return a.E[i.I]
		}
		if len(a.E) == 0 {
			return zeroValue(a.Elem)
		}
		r := a.E[len(a.E)-1]
		for j := len(a.E) - 2; j >= 0; j-- {
			r = x.mergeV(mkEq(i, mkInt(int64(j))), a.E[j], r, a.Elem, st)
		}
		return r
	case *Term:
		if a.Sort == StrS {
			return mkApp("byteAt", IntS, a, i)
		}
		return mkSeqNth(a, i)
	case *IteV:
		return x.mergeV(a.C, x.index(a.A, i, st), x.index(a.B, i, st), nil, st)
	case *ProvV:
		return x.index(x.resolve(a, st), i, st)
	}
	unsup("index of %T", v)
	return nil
}

func (x *Exec) length(v Value, st *State) *Term {
	switch a := v.(type) {
	case *SeqV:
		return mkInt(int64(len(a.E)))
	case *Term:
		if a.Sort == StrS {
			return mkStrLen(a)
		}
		if a.Sort.Kind == SData { // map
			return mkSel(a.Sort.DT.Ctors[0].Name, 2, a)
		}
		return mkSeqLen(a)
	case *ProvV:
		return x.length(x.resolve(a, st), st)
	case *IteV:
		return mkIte(a.C, x.length(a.A, st), x.length(a.B, st))
	case *NilV:
		return mkInt(0)
	case *MapRef:
		switch m := st.Cells[a.Cell].V.(type) {
		case *MapC:
			return mkInt(int64(len(m.Keys)))
		case *Term:
			return x.length(m, st)
		}
	}
	unsup("len of %T", v)
	return nil
}

// checkProv validates that a derived address still denotes the same object.
func (x *Exec) checkProv(r *Ref, st *State) {
	if r.Prov == nil {
		return
	}
	cs := st.Cells[r.Cell]
	if cs == nil {
		unsup("stale provenance (dead cell)")
	}
	if cs.SV != r.Prov.SV {
		unsup("address through a container that was restructured since (%s)", r.Cell.Name)
	}
}

// resolve yields the current plain value of a provenance value.
func (x *Exec) resolve(p *ProvV, st *State) Value {
	cs := st.Cells[p.R.Cell]
	if cs == nil {
		return p.Snap
	}
	if cs.SV == p.SV {
		if cs.NW == p.NW {
			return p.Snap
		}
		v := x.walk(cs.V, p.R.P, st)
		if pv, ok := v.(*ProvV); ok && pv != p {
			return x.resolve(pv, st)
		}
		return v
	}
	if cs.NW == p.NW {
		return p.Snap
	}
	unsup("value aliases a container that was both restructured and written (%s)", p.R.Cell.Name)
	return nil
}

func (x *Exec) plain(v Value, st *State) Value {
	for {
		p, ok := v.(*ProvV)
		if !ok {
			return v
		}
		v = x.resolve(p, st)
	}
}

func leafType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return true
	}
	return false
}

func (x *Exec) store(r *Ref, v Value, t types.Type, st *State) {
	x.checkProv(r, st)
	cs := st.Cells[r.Cell]
	if cs == nil {
		unsup("store to dead cell %s", r.Cell.Name)
	}
	if cs.Frozen != "" {
		unsup("store to object %s after it escaped into a value", r.Cell.Name)
	}
	if x.writeLog != nil {
		if x.writeLog[r.Cell.Name] == nil {
			x.writeLog[r.Cell.Name] = map[string]bool{}
		}
		x.writeLog[r.Cell.Name][patOf(r.P)] = true
	}
	n := *cs
	n.V = x.put(cs.V, r.P, v, r.Cell.T, st)
	if len(r.P) > 0 && r.Prov != nil {
		n.NW++
		x.verCtr++
		n.NW = x.verCtr
	}
	if !leafType(t) {
		x.verCtr++
		n.SV = x.verCtr
		// a nested structural write through a provenance path keeps the path itself valid
		if r.Prov != nil {
			r.Prov.SV = n.SV
		}
	}
	st.Cells[r.Cell] = &n
}

func stepType(t types.Type, s Step) types.Type {
	switch s.Kind {
	case 0:
		return t.Underlying().(*types.Struct).Field(s.F).Type()
	case 1:
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
	case 2:
		return t.Underlying().(*types.Pointer).Elem()
	}
	panic("stepType")
}

func (x *Exec) put(old Value, p []Step, v Value, t types.Type, st *State) Value {
	if len(p) == 0 {
		return v
	}
	if iv, ok := old.(*IteV); ok {
		return x.mergeV(iv.C, x.put(iv.A, p, v, t, st), x.put(iv.B, p, v, t, st), t, st)
	}
	if pv, ok := old.(*ProvV); ok {
		old = x.resolve(pv, st)
	}
	s := p[0]
	et := stepType(t, s)
	switch s.Kind {
	case 0:
		switch a := old.(type) {
		case *StructV:
			n := &StructV{T: a.T, F: append([]Value{}, a.F...)}
			n.F[s.F] = x.put(a.F[s.F], p[1:], v, et, st)
			return n
		case *Term:
			c := a.Sort.DT.Ctors[0]
			args := make([]*Term, len(c.Fields))
			for i := range args {
				args[i] = mkSel(c.Name, i, a)
			}
			args[s.F] = x.toTerm(x.put(args[s.F], p[1:], v, et, st), et, st)
			return mkMk(a.Sort, c.Name, args...)
		}
	case 1:
		switch a := old.(type) {
		case *SeqV:
			if s.I.isInt() {
				if s.I.I < 0 || s.I.I >= int64(len(a.E)) {
					return old
				}
				n := &SeqV{Elem: a.Elem, E: append([]Value{}, a.E...)}
				n.E[s.I.I] = x.put(a.E[s.I.I], p[1:], v, et, st)
				return n
			}
			n := &SeqV{Elem: a.Elem, E: append([]Value{}, a.E...)}
			for j := range n.E {
				n.E[j] = x.mergeV(mkEq(s.I, mkInt(int64(j))), x.put(a.E[j], p[1:], v, et, st), a.E[j], et, st)
			}
			return n
		case *Term:
			e := x.put(mkSeqNth(a, s.I), p[1:], v, et, st)
			return mkSeqUpdate(a, s.I, x.toTerm(e, et, st))
		}
	case 2:
		switch a := old.(type) {
		case *Term:
			c := a.Sort.DT.Ctors[1]
			return mkMk(a.Sort, c.Name, x.toTerm(x.put(mkSel(c.Name, 0, a), p[1:], v, et, st), et, st))
		case *Ref:
			// pointer to another cell stored inside: write there instead
			x.store(&Ref{Cell: a.Cell, P: append(append([]Step{}, a.P...), p[1:]...), Prov: a.Prov}, v, et, st)
			return old
		}
	}
	unsup("store into %T step %d", old, s.Kind)
	return nil
}

// ---------------------------------------------------------------- merging

func sameValue(a, b Value) bool {
	if p, ok := a.(TupleV); ok {
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameValue(p[i], q[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	if a == b {
		return true
	}
	switch p := a.(type) {
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !sameValue(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case *SeqV:
		q, ok := b.(*SeqV)
		if !ok || len(p.E) != len(q.E) || p.Nil != q.Nil {
			return false
		}
		for i := range p.E {
			if !sameValue(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case *NilV:
		_, ok := b.(*NilV)
		return ok
	case *IfaceV:
		q, ok := b.(*IfaceV)
		return ok && types.Identical(p.T, q.T) && sameValue(p.V, q.V)
	case *MapRef:
		q, ok := b.(*MapRef)
		return ok && p.Cell == q.Cell
	case *MapC:
		q, ok := b.(*MapC)
		if !ok || len(p.Keys) != len(q.Keys) {
			return false
		}
		for i := range p.Keys {
			if p.Keys[i] != q.Keys[i] || !sameValue(p.Vals[i], q.Vals[i]) {
				return false
			}
		}
		return true
	case *ClosureV:
		q, ok := b.(*ClosureV)
		if !ok || p.Fn != q.Fn || len(p.B) != len(q.B) {
			return false
		}
		for i := range p.B {
			if !sameValue(p.B[i], q.B[i]) {
				return false
			}
		}
		return true
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameValue(p[i], q[i]) {
				return false
			}
		}
		return true
	case *Ref:
		q, ok := b.(*Ref)
		if !ok || p.Cell != q.Cell || len(p.P) != len(q.P) {
			return false
		}
		for i := range p.P {
			if p.P[i] != q.P[i] {
				return false
			}
		}
		return true
	case *ProvV:
		q, ok := b.(*ProvV)
		return ok && sameValue(p.R, q.R) && sameValue(p.Snap, q.Snap) && p.SV == q.SV && p.NW == q.NW
	case *IteV:
		q, ok := b.(*IteV)
		return ok && p.C == q.C && sameValue(p.A, q.A) && sameValue(p.B, q.B)
	case *ROAddr:
		q, ok := b.(*ROAddr)
		return ok && sameValue(p.V, q.V)
	case *OpaqueV:
		q, ok := b.(*OpaqueV)
		return ok && p.Kind == q.Kind && p.Data == q.Data
	case *IterV:
		return false
	}
	return false
}

// mergeV = if c then a else b. t may be nil when unknown.
func (x *Exec) mergeV(c *Term, a, b Value, t types.Type, st *State) Value {
	if c == TTrue || sameValue(a, b) {
		return a
	}
	if c == TFalse {
		return b
	}
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if oka && okb && ta.Sort == tb.Sort {
		return mkIte(c, ta, tb)
	}
	switch p := a.(type) {
	case *StructV:
		if q, ok := b.(*StructV); ok && len(p.F) == len(q.F) {
			n := &StructV{T: p.T, F: make([]Value, len(p.F))}
			for i := range p.F {
				n.F[i] = x.mergeV(c, p.F[i], q.F[i], nil, st)
			}
			return n
		}
		if okb && tb.Sort.Kind == SData {
			n := &StructV{T: p.T, F: make([]Value, len(p.F))}
			for i := range p.F {
				n.F[i] = x.mergeV(c, p.F[i], mkSel(tb.Sort.DT.Ctors[0].Name, i, tb), nil, st)
			}
			return n
		}
	case *SeqV:
		if q, ok := b.(*SeqV); ok && len(p.E) == len(q.E) && p.Nil == q.Nil {
			n := &SeqV{Elem: p.Elem, E: make([]Value, len(p.E)), Nil: p.Nil}
			for i := range p.E {
				n.E[i] = x.mergeV(c, p.E[i], q.E[i], p.Elem, st)
			}
			return n
		}
		if okb {
			if ta2 := x.tryTerm(a, types.NewSlice(p.Elem), st); ta2 != nil && ta2.Sort == tb.Sort {
				return mkIte(c, ta2, tb)
			}
		}
	case TupleV:
		if q, ok := b.(TupleV); ok && len(p) == len(q) {
			n := make(TupleV, len(p))
			for i := range p {
				n[i] = x.mergeV(c, p[i], q[i], nil, st)
			}
			return n
		}
	case *IfaceV:
		if q, ok := b.(*IfaceV); ok && types.Identical(p.T, q.T) {
			return &IfaceV{T: p.T, V: x.mergeV(c, p.V, q.V, p.T, st)}
		}
	}
	if _, ok := b.(*StructV); ok && oka {
		return x.mergeV(mkNot(c), b, a, t, st)
	}
	if _, ok := b.(*SeqV); ok && oka {
		return x.mergeV(mkNot(c), b, a, t, st)
	}
	// same-condition nesting
	if p, ok := a.(*IteV); ok && p.C == c {
		return x.mergeV(c, p.A, b, t, st)
	}
	if q, ok := b.(*IteV); ok && q.C == c {
		return x.mergeV(c, a, q.B, t, st)
	}
	return &IteV{C: c, A: a, B: b}
}

// tryTerm converts without side effects on unsupported values.
func (x *Exec) tryTerm(v Value, t types.Type, st *State) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	if !convertible(v) {
		return nil
	}
	return x.toTerm(v, t, st)
}

// convertible: conversion would not need to freeze cells
func convertible(v Value) bool {
	switch a := v.(type) {
	case *Term, *NilV:
		return true
	case *ProvV:
		return true
	case *StructV:
		for _, f := range a.F {
			if !convertible(f) {
				return false
			}
		}
		return true
	case *SeqV:
		for _, f := range a.E {
			if !convertible(f) {
				return false
			}
		}
		return true
	case *IfaceV:
		return convertible(a.V)
	case *IteV:
		return convertible(a.A) && convertible(a.B)
	}
	return false
}

// mergeStates joins control-flow edges (guards are mutually exclusive).
func (x *Exec) mergeStates(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s.G != TFalse {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	res := live[len(live)-1].clone()
	for i := len(live) - 2; i >= 0; i-- {
		s := live[i]
		c := relGuard(s.G, res.G)
		ng := mkOr(s.G, res.G)
		for k, v := range res.Env {
			w, ok := s.Env[k]
			if !ok {
				delete(res.Env, k)
				continue
			}
			if !sameValue(v, w) {
				res.Env[k] = x.mergeV(c, w, v, k.Type(), res)
			}
		}
		for k, v := range s.Cells {
			w, ok := res.Cells[k]
			if !ok {
				res.Cells[k] = v
				continue
			}
			if v == w {
				continue
			}
			n := &CellState{SV: v.SV, NW: v.NW, Frozen: v.Frozen}
			if w.SV != v.SV {
				x.verCtr++
				n.SV = x.verCtr
			}
			if w.NW != v.NW {
				x.verCtr++
				n.NW = x.verCtr
			}
			if w.Frozen != "" {
				n.Frozen = w.Frozen
			}
			n.V = x.mergeCell(c, v.V, w.V, k.T, res)
			res.Cells[k] = n
		}
		res.G = ng
	}
	return res
}

func (x *Exec) mergeCell(c *Term, a, b Value, t types.Type, st *State) Value {
	if sameValue(a, b) {
		return a
	}
	ma, oka := a.(*MapC)
	mb, okb := b.(*MapC)
	if oka && okb {
		same := len(ma.Keys) == len(mb.Keys)
		if same {
			for i := range ma.Keys {
				if ma.Keys[i] != mb.Keys[i] {
					same = false
				}
			}
		}
		if same {
			n := &MapC{K: ma.K, V: ma.V, Keys: ma.Keys}
			for i := range ma.Keys {
				n.Vals = append(n.Vals, x.mergeV(c, ma.Vals[i], mb.Vals[i], ma.V, st))
			}
			return n
		}
	}
	if oka || okb {
		if _, isMap := t.Underlying().(*types.Map); isMap {
			return mkIte(c, x.mapTerm(a, t, st), x.mapTerm(b, t, st))
		}
	}
	return x.mergeV(c, a, b, t, st)
}

// relGuard picks a compact condition selecting edge a among {a,b}: the
// conjuncts of a not shared with b.
func relGuard(a, b *Term) *Term {
	conj := func(t *Term) []*Term {
		if t.Op == OAnd {
			return t.Args
		}
		return []*Term{t}
	}
	inb := map[int]bool{}
	for _, c := range conj(b) {
		inb[c.ID] = true
	}
	// a conjunct of a whose negation is a conjunct of b separates the two
	for _, c := range conj(a) {
		if inb[mkNot(c).ID] {
			return c
		}
	}
	var keep []*Term
	for _, c := range conj(a) {
		if !inb[c.ID] {
			keep = append(keep, c)
		}
	}
	if len(keep) == 0 {
		return a
	}
	return mkAnd(keep...)
}

// havoc creates an unconstrained value of a type.
func (x *Exec) havoc(name string, t types.Type, st *State) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if m := opaqueStruct(t); m != nil {
			return &StructV{T: t, F: []Value{freshVar(name, StrS)}}
		}
		if opaqueTypes[typeName(t)] {
			return freshVar(name, sortOf(t))
		}
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, x.havoc(name+"."+u.Field(i).Name(), u.Field(i).Type(), st))
		}
		return sv
	}
	v := freshVar(name, sortOf(t))
	if m := uintMax(t); m > 0 {
		knownNonneg[v.ID] = true
		x.fact(mkLe(v, mkInt(m)))
		x.fact(mkLe(mkInt(0), v))
	}
	return v
}

func sortedCells(m map[*Cell]*CellState) []*Cell {
	var cs []*Cell
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	return cs
}

func showV(v Value) string {
	switch a := v.(type) {
	case *Term:
		return a.String()
	case *StructV:
		var s []string
		for _, f := range a.F {
			s = append(s, showV(f))
		}
		return typeName(a.T) + "{" + strings.Join(s, ", ") + "}"
	case *SeqV:
		var s []string
		for _, f := range a.E {
			s = append(s, showV(f))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case *Ref:
		return "&" + a.Cell.Name
	case *IfaceV:
		return "iface(" + typeName(a.T) + "," + showV(a.V) + ")"
	case *IteV:
		return "iteV"
	case *NilV:
		return "nil"
	case *ProvV:
		return "prov(" + showV(a.Snap) + ")"
	}
	return fmt.Sprintf("%T", v)
}
