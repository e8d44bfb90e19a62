package main

// Hash-consed SMT terms with a simplifying constructor for every operator.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SString
	SSeq
	SArray
	SData
	SUnint
)

type Sort struct {
	Kind SortKind
	Name string // canonical name (unique)
	A, B *Sort
	DT   *Datatype
}

type Ctor struct {
	Name   string
	Fields []string
	Sorts  []*Sort
}

type Datatype struct {
	Name  string
	Ctors []*Ctor
}

func (d *Datatype) ctor(name string) *Ctor {
	for _, c := range d.Ctors {
		if c.Name == name {
			return c
		}
	}
	return nil
}

var sortTab = map[string]*Sort{}

func internSort(s *Sort) *Sort {
	if x, ok := sortTab[s.Name]; ok {
		return x
	}
	sortTab[s.Name] = s
	return s
}

var (
	BoolS = internSort(&Sort{Kind: SBool, Name: "Bool"})
	IntS  = internSort(&Sort{Kind: SInt, Name: "Int"})
	StrS  = internSort(&Sort{Kind: SString, Name: "String"})
)

func seqSort(e *Sort) *Sort {
	return internSort(&Sort{Kind: SSeq, Name: "(Seq " + e.Name + ")", A: e})
}
func arrSort(k, v *Sort) *Sort {
	return internSort(&Sort{Kind: SArray, Name: "(Array " + k.Name + " " + v.Name + ")", A: k, B: v})
}
func unintSort(n string) *Sort { return internSort(&Sort{Kind: SUnint, Name: n}) }
func dataSort(n string) *Sort {
	return internSort(&Sort{Kind: SData, Name: n, DT: &Datatype{Name: n}})
}

type Op int

const (
	OConst Op = iota // bool/int/string constants
	OVar             // free constant
	OApp             // uninterpreted function
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd // n-ary, first may be const
	OMul // const * t  (or t*t)
	ODiv
	OMod
	OLt
	OLe
	OStrCat
	OStrLen
	OStrPrefix // prefixof a b
	OStrSuffix
	OStrContains // a contains b
	OStrSub      // substr s off len
	OStrIndexOf
	OStrFromInt
	OStrToInt
	OStrLt
	OStrInRe // args[0], sval=regex smt
	OStrReplAll
	OSeqCat
	OSeqUnit
	OSeqEmpty
	OSeqLen
	OSeqNth
	OSeqExtract
	OSeqUpdate
	OSelect
	OStore
	OConstArr
	OMk
	OSel
	OIs
	OForall // lo hi bound body
)

type Term struct {
	Op   Op
	Args []*Term
	Sort *Sort
	S    string // var/func/ctor/selector name, string const, regex
	I    int64  // int const / bool const / selector index
	ID   int
	key  string
	fv   []int // lazily computed set of var/app ids (not used for all)
}

var termTab = map[string]*Term{}
var termCount int

func intern(op Op, sort *Sort, s string, i int64, args ...*Term) *Term {
	var b strings.Builder
	b.Grow(32 + 8*len(args))
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	if op == OConst || op == OSeqEmpty || op == OVar || op == OApp || op == OMk || op == OConstArr {
		b.WriteString(sort.Name)
		b.WriteByte('|')
	}
	if s != "" {
		b.WriteString(strconv.Itoa(len(s)))
		b.WriteByte(':')
		b.WriteString(s)
	}
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(i, 10))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Args: args, Sort: sort, S: s, I: i, ID: termCount}
	termTab[k] = t
	return t
}

var (
	TTrue  = intern(OConst, BoolS, "", 1)
	TFalse = intern(OConst, BoolS, "", 0)
)

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func mkInt(i int64) *Term     { return intern(OConst, IntS, "", i) }
func mkStr(s string) *Term    { return intern(OConst, StrS, s, 0) }
func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) isInt() bool   { return t.Op == OConst && t.Sort == IntS }
func (t *Term) isStr() bool   { return t.Op == OConst && t.Sort == StrS }

// isValue: closed constructor term that is a literal value
func (t *Term) isValue() bool {
	switch t.Op {
	case OConst, OSeqEmpty:
		return true
	case OMk, OSeqUnit, OSeqCat:
		for _, a := range t.Args {
			if !a.isValue() {
				return false
			}
		}
		return true
	}
	return false
}

var freshCount = map[string]int{}

func resetFresh() { freshCount = map[string]int{} }

func mkVar(name string, s *Sort) *Term { return intern(OVar, s, name, 0) }
func freshVar(base string, s *Sort) *Term {
	base = sanitize(base)
	freshCount[base]++
	return mkVar(fmt.Sprintf("%s!%d", base, freshCount[base]), s)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '-' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	if name == "sortedKeys" && len(args) == 1 {
		if t := sortedKeysOf(args[0], s); t != nil {
			return t
		}
	}
	return intern(OApp, s, name, 0, args...)
}

// sortedKeysOf simplifies the sorted keys of a set: alternatives apart, sets
// of literals listed, the set of one key.
func sortedKeysOf(d *Term, s *Sort) *Term { return sortedKeysWith(d, nil, s, new(int)) }

func sortedKeysWith(d *Term, ks []*Term, s *Sort, n *int) *Term {
	if *n++; *n > 200 {
		return nil
	}
	switch {
	case d.Op == OIte:
		a := sortedKeysWith(d.Args[1], ks, s, n)
		if a == nil {
			return nil
		}
		b := sortedKeysWith(d.Args[2], ks, s, n)
		if b == nil {
			return nil
		}
		return mkIte(d.Args[0], a, b)
	case d.Op == OStore:
		if d.Args[2] != TTrue {
			return nil
		}
		for _, o := range ks {
			if o == d.Args[1] {
				return sortedKeysWith(d.Args[0], ks, s, n)
			}
		}
		return sortedKeysWith(d.Args[0], append(ks[:len(ks):len(ks)], d.Args[1]), s, n)
	}
	if d.Op != OConstArr || d.Args[0] != TFalse {
		return nil
	}
	for _, k := range ks {
		if len(ks) > 1 && k.Op != OConst {
			return nil
		}
	}
	ks = append([]*Term{}, ks...)
	sort.Slice(ks, func(i, j int) bool { return ks[i].S < ks[j].S })
	us := make([]*Term, len(ks))
	for i, k := range ks {
		us[i] = mkSeqUnit(k)
	}
	if len(us) == 0 {
		return mkSeqEmpty(s)
	}
	return mkSeqCat(s, us...)
}

func mkNot(a *Term) *Term {
	if a == TTrue {
		return TFalse
	}
	if a == TFalse {
		return TTrue
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	return intern(ONot, BoolS, "", 0, a)
}

func flatten(op Op, as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		if a.Op == op {
			out = append(out, a.Args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func mkAnd(as ...*Term) *Term {
	as = flatten(OAnd, as)
	seen := map[int]bool{}
	var out []*Term
	for _, a := range as {
		if a == TTrue || seen[a.ID] {
			continue
		}
		if a == TFalse || seen[mkNot(a).ID] {
			return TFalse
		}
		seen[a.ID] = true
		out = append(out, a)
	}
	// unit resolution: or-args containing negation of a sibling
	changed := false
	for i, a := range out {
		if a.Op == OOr {
			var keep []*Term
			sat := false
			for _, d := range a.Args {
				if seen[d.ID] {
					sat = true
					break
				}
				if !seen[mkNot(d).ID] {
					keep = append(keep, d)
				}
			}
			if sat {
				out[i] = TTrue
				changed = true
			} else if len(keep) < len(a.Args) {
				out[i] = mkOr(keep...)
				changed = true
			}
		}
	}
	if changed {
		return mkAnd(out...)
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return intern(OAnd, BoolS, "", 0, out...)
}

func mkOr(as ...*Term) *Term {
	as = flatten(OOr, as)
	seen := map[int]bool{}
	var out []*Term
	for _, a := range as {
		if a == TFalse || seen[a.ID] {
			continue
		}
		if a == TTrue || seen[mkNot(a).ID] {
			return TTrue
		}
		seen[a.ID] = true
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	// factor common conjuncts: (g&c)|(g&!c) -> g
	conj := func(t *Term) []*Term {
		if t.Op == OAnd {
			return t.Args
		}
		return []*Term{t}
	}
	common := map[int]*Term{}
	for _, c := range conj(out[0]) {
		common[c.ID] = c
	}
	for _, o := range out[1:] {
		m := map[int]bool{}
		for _, c := range conj(o) {
			m[c.ID] = true
		}
		for id := range common {
			if !m[id] {
				delete(common, id)
			}
		}
	}
	if len(common) > 0 {
		var cs []*Term
		for _, c := range conj(out[0]) {
			if common[c.ID] != nil {
				cs = append(cs, c)
			}
		}
		var rest []*Term
		for _, o := range out {
			var r []*Term
			for _, c := range conj(o) {
				if common[c.ID] == nil {
					r = append(r, c)
				}
			}
			rest = append(rest, mkAnd(r...))
		}
		return mkAnd(append(cs, mkOr(rest...))...)
	}
	// absorption: a | (not a & b) -> a | b
	for i, o := range out {
		if o.Op == OAnd {
			var keep []*Term
			drop := false
			for _, c := range o.Args {
				if seen[c.ID] {
					drop = true
				}
				if !seen[mkNot(c).ID] {
					keep = append(keep, c)
				}
			}
			if drop {
				n := append(append([]*Term{}, out[:i]...), out[i+1:]...)
				return mkOr(n...)
			}
			if len(keep) < len(o.Args) {
				n := append([]*Term{}, out...)
				n[i] = mkAnd(keep...)
				return mkOr(n...)
			}
		}
	}
	// !(a & b) | (a & b & c) -> !(a & b) | c; !(a & b) | a -> true
	for _, p := range out {
		if p.Op != ONot || p.Args[0].Op != OAnd {
			continue
		}
		in := map[int]bool{}
		for _, a := range p.Args[0].Args {
			if seen[a.ID] {
				return TTrue
			}
			in[a.ID] = true
		}
		for i, o := range out {
			if o.Op != OAnd {
				continue
			}
			var keep []*Term
			for _, c := range o.Args {
				if !in[c.ID] {
					keep = append(keep, c)
				}
			}
			if len(o.Args)-len(keep) == len(in) {
				n := append([]*Term{}, out...)
				n[i] = mkAnd(keep...)
				return mkOr(n...)
			}
		}
	}
	return intern(OOr, BoolS, "", 0, out...)
}

func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if c.Op == ONot {
		return mkIte(c.Args[0], b, a)
	}
	if a.Sort == BoolS {
		if a == TTrue {
			return mkOr(c, b)
		}
		if a == TFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == TTrue {
			return mkOr(mkNot(c), a)
		}
		if b == TFalse {
			return mkAnd(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(c, a, ite(d, a, b)) -> ite(c|d, a, b)
	if b.Op == OIte && b.Args[1] == a {
		return mkIte(mkOr(c, b.Args[0]), a, b.Args[2])
	}
	// same-constructor structs: push inside
	if a.Op == OMk && b.Op == OMk && a.S == b.S && len(a.Args) > 0 {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = mkIte(c, a.Args[i], b.Args[i])
		}
		return mkMk(a.Sort, a.S, args...)
	}
	// factor common leading / trailing parts of concatenations
	if (a.Sort == StrS && (a.Op == OStrCat || b.Op == OStrCat)) || (a.Sort.Kind == SSeq && (a.Op == OSeqCat || b.Op == OSeqCat)) {
		pa, pb := catParts(a), catParts(b)
		i := 0
		for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
			i++
		}
		j := 0
		for j < len(pa)-i && j < len(pb)-i && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
			j++
		}
		if i+j > 0 {
			var parts []*Term
			parts = append(parts, pa[:i]...)
			parts = append(parts, mkIte(c, mkCat(a.Sort, pa[i:len(pa)-j]), mkCat(a.Sort, pb[i:len(pb)-j])))
			parts = append(parts, pa[len(pa)-j:]...)
			return mkCat(a.Sort, parts)
		}
	}
	return intern(OIte, a.Sort, "", 0, c, a, b)
}

func mkForall(lo, hi, bound, body *Term) *Term {
	if body == TTrue || mkLe(hi, lo) == TTrue {
		return TTrue
	}
	return intern(OForall, BoolS, "", 0, lo, hi, bound, body)
}

// ---- ints

func linear(t *Term, coef int64, m map[int]int64, ts map[int]*Term, c *int64) {
	switch {
	case t.isInt():
		*c += coef * t.I
	case t.Op == OAdd:
		for _, a := range t.Args {
			linear(a, coef, m, ts, c)
		}
	case t.Op == OMul && t.Args[0].isInt():
		linear(t.Args[1], coef*t.Args[0].I, m, ts, c)
	default:
		m[t.ID] += coef
		ts[t.ID] = t
	}
}

func fromLinear(m map[int]int64, ts map[int]*Term, c int64) *Term {
	var ids []int
	for id, k := range m {
		if k != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	if c != 0 {
		args = append(args, mkInt(c))
	}
	for _, id := range ids {
		if m[id] == 1 {
			args = append(args, ts[id])
		} else {
			args = append(args, intern(OMul, IntS, "", 0, mkInt(m[id]), ts[id]))
		}
	}
	switch len(args) {
	case 0:
		return mkInt(0)
	case 1:
		return args[0]
	}
	return intern(OAdd, IntS, "", 0, args...)
}

func mkAdd(as ...*Term) *Term {
	m, ts := map[int]int64{}, map[int]*Term{}
	var c int64
	for _, a := range as {
		linear(a, 1, m, ts, &c)
	}
	return fromLinear(m, ts, c)
}
func mkSub(a, b *Term) *Term {
	m, ts := map[int]int64{}, map[int]*Term{}
	var c int64
	linear(a, 1, m, ts, &c)
	linear(b, -1, m, ts, &c)
	return fromLinear(m, ts, c)
}
func mkMul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		m, ts := map[int]int64{}, map[int]*Term{}
		var c int64
		linear(b, a.I, m, ts, &c)
		return fromLinear(m, ts, c)
	}
	return intern(OMul, IntS, "", 0, a, b)
}
func mkDiv(a, b *Term) *Term { // SMT div (euclid), only for nonneg use
	if a.isInt() && b.isInt() && b.I > 0 && a.I >= 0 {
		return mkInt(a.I / b.I)
	}
	return intern(ODiv, IntS, "", 0, a, b)
}
func mkMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.I > 0 {
		r := a.I % b.I
		if r < 0 {
			r += b.I
		}
		return mkInt(r)
	}
	return intern(OMod, IntS, "", 0, a, b)
}

// nonneg: syntactic non-negativity
func nonneg(t *Term) bool {
	switch t.Op {
	case OConst:
		return t.I >= 0
	case OSeqLen, OStrLen, OMod:
		return true
	case OAdd:
		for _, a := range t.Args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	case OMul:
		return nonneg(t.Args[0]) && nonneg(t.Args[1])
	case OIte:
		return nonneg(t.Args[1]) && nonneg(t.Args[2])
	}
	return knownNonneg[t.ID]
}

var knownNonneg = map[int]bool{}

func mkLe(a, b *Term) *Term {
	d := mkSub(b, a)
	if d.isInt() {
		return mkBool(d.I >= 0)
	}
	if nonneg(d) {
		return TTrue
	}
	// -1*x (+ negative const)>=0 with x nonneg
	if neg := mkMul(mkInt(-1), d); nonneg(neg) {
		if neg.Op == OAdd && neg.Args[0].isInt() && neg.Args[0].I > 0 {
			return TFalse
		}
		if neg.Op == OSel { // unsigned field
			return mkEq(mkInt(0), neg)
		}
	}
	return intern(OLe, BoolS, "", 0, a, b)
}
func mkLt(a, b *Term) *Term { return mkNot(mkLe(b, a)) }

// ---- equality

func catParts(t *Term) []*Term {
	if t.Op == OStrCat || t.Op == OSeqCat {
		return t.Args
	}
	if t.Op == OSeqEmpty {
		return nil
	}
	if t.isStr() && t.S == "" {
		return nil
	}
	return []*Term{t}
}

func mkCat(s *Sort, parts []*Term) *Term {
	if s == StrS {
		return mkStrCat(parts...)
	}
	return mkSeqCat(s, parts...)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkEq sort mismatch: %s vs %s\n%s\n%s", a.Sort.Name, b.Sort.Name, a, b))
	}
	if a.isConst() && b.isConst() {
		return TFalse // hash-consed, distinct
	}
	if a.Sort == BoolS {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return mkNot(b)
		}
		if b == TFalse {
			return mkNot(a)
		}
		if mkNot(a) == b {
			return TFalse
		}
	}
	if a.Op == OStrFromInt && b.Op == OStrFromInt {
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.Sort == IntS {
		d := mkSub(a, b)
		if d.isInt() {
			return mkBool(d.I == 0)
		}
		if (d.Op == OAdd && d.Args[0].isInt() && d.Args[0].I > 0 && nonneg(d)) || (func() bool {
			n := mkMul(mkInt(-1), d)
			return n.Op == OAdd && n.Args[0].isInt() && n.Args[0].I > 0 && nonneg(n)
		}()) {
			return TFalse
		}
	}
	if a.Op == OMk && b.Op == OMk {
		if a.S != b.S {
			return TFalse
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(cs...)
	}
	if a.Op == OMk && len(a.Args) == 0 {
		return mkIs(a.S, b)
	}
	if b.Op == OMk && len(b.Args) == 0 {
		return mkIs(b.S, a)
	}
	// lower-cased text never equals a constant with upper-case letters
	for k := 0; k < 2; k++ {
		if a.Op == OApp && b.isStr() && (a.S == "strings.ToLower" && strings.ToLower(b.S) != b.S || a.S == "strings.ToUpper" && strings.ToUpper(b.S) != b.S) {
			return TFalse
		}
		a, b = b, a
	}
	// ite with constant value branches vs constant value
	if b.isValue() && !a.isValue() {
		a, b = b, a
	}
	if a.isValue() && b.Op == OIte {
		x, y := b.Args[1], b.Args[2]
		if x.isValue() || y.isValue() || x.Op == OIte || y.Op == OIte {
			if iteDepthValues(b, 40) {
				return mkIte(b.Args[0], mkEq(a, x), mkEq(a, y))
			}
		}
	}
	if a.Sort == StrS || a.Sort.Kind == SSeq {
		pa, pb := catParts(a), catParts(b)
		sz := len(pa) + len(pb)
		// strip common prefix / suffix
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if x.isStr() && y.isStr() {
				if strings.HasPrefix(x.S, y.S) {
					pa = append([]*Term{mkStr(x.S[len(y.S):])}, pa[1:]...)
					pb = pb[1:]
					sz = 1 << 20
					continue
				}
				if strings.HasPrefix(y.S, x.S) {
					pb = append([]*Term{mkStr(y.S[len(x.S):])}, pb[1:]...)
					pa = pa[1:]
					sz = 1 << 20
					continue
				}
				return TFalse
			}
			if x.Op == OSeqUnit && y.Op == OSeqUnit {
				e := mkEq(x.Args[0], y.Args[0])
				rest := mkEq(mkCat(a.Sort, pa[1:]), mkCat(a.Sort, pb[1:]))
				return mkAnd(e, rest)
			}
			break
		}
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[len(pa)-1], pb[len(pb)-1]
			if x == y {
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				continue
			}
			if x.isStr() && y.isStr() {
				if strings.HasSuffix(x.S, y.S) {
					pa = append(append([]*Term{}, pa[:len(pa)-1]...), mkStr(x.S[:len(x.S)-len(y.S)]))
					pb = pb[:len(pb)-1]
					sz = 1 << 20
					continue
				}
				if strings.HasSuffix(y.S, x.S) {
					pb = append(append([]*Term{}, pb[:len(pb)-1]...), mkStr(y.S[:len(y.S)-len(x.S)]))
					pa = pa[:len(pa)-1]
					sz = 1 << 20
					continue
				}
				return TFalse
			}
			if x.Op == OSeqUnit && y.Op == OSeqUnit {
				e := mkEq(x.Args[0], y.Args[0])
				rest := mkEq(mkCat(a.Sort, pa[:len(pa)-1]), mkCat(a.Sort, pb[:len(pb)-1]))
				return mkAnd(e, rest)
			}
			break
		}
		if len(pa)+len(pb) < sz {
			return mkEq(mkCat(a.Sort, pa), mkCat(a.Sort, pb))
		}
		// empty vs something with definite content
		if len(pa) == 0 || len(pb) == 0 {
			o := pa
			if len(pa) == 0 {
				o = pb
			}
			for _, p := range o {
				if p.Op == OSeqUnit || p.isStr() {
					return TFalse
				}
				if p.Op == OStrFromInt {
					return TFalse // a rendered number is not empty
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(OEq, BoolS, "", 0, a, b)
}

func iteDepthValues(t *Term, fuel int) bool {
	for t.Op == OIte {
		if fuel == 0 {
			return false
		}
		fuel--
		if t.Args[1].isValue() {
			t = t.Args[2]
		} else if t.Args[2].isValue() {
			t = t.Args[1]
		} else {
			return false
		}
	}
	return true
}

// ---- strings

func mkStrCat(as ...*Term) *Term {
	as = flatten(OStrCat, as)
	var out []*Term
	for _, a := range as {
		if a.isStr() {
			if a.S == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].isStr() {
				out[len(out)-1] = mkStr(out[len(out)-1].S + a.S)
				continue
			}
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return intern(OStrCat, StrS, "", 0, out...)
}

func mkStrLen(a *Term) *Term {
	if a.isStr() {
		return mkInt(int64(len(a.S)))
	}
	if a.Op == OStrCat {
		var s []*Term
		for _, x := range a.Args {
			s = append(s, mkStrLen(x))
		}
		return mkAdd(s...)
	}
	return intern(OStrLen, IntS, "", 0, a)
}

func mkPrefixOf(p, s *Term) *Term {
	if p.isStr() && p.S == "" {
		return TTrue
	}
	if p == s {
		return TTrue
	}
	if p.isStr() {
		ps := catParts(s)
		if len(ps) == 0 {
			return TFalse
		}
		if ps[0].isStr() {
			if strings.HasPrefix(ps[0].S, p.S) {
				return TTrue
			}
			if !strings.HasPrefix(p.S, ps[0].S) {
				return TFalse
			}
			if len(ps) == 1 {
				return TFalse
			}
		}
		if s.Op == OIte && iteDepthValues(s, 40) {
			return mkIte(s.Args[0], mkPrefixOf(p, s.Args[1]), mkPrefixOf(p, s.Args[2]))
		}
	}
	return intern(OStrPrefix, BoolS, "", 0, p, s)
}
func mkSuffixOf(p, s *Term) *Term {
	if p.isStr() && p.S == "" || p == s {
		return TTrue
	}
	if p.isStr() {
		ps := catParts(s)
		if len(ps) == 0 {
			return TFalse
		}
		l := ps[len(ps)-1]
		if l.isStr() {
			if strings.HasSuffix(l.S, p.S) {
				return TTrue
			}
			if !strings.HasSuffix(p.S, l.S) || len(ps) == 1 {
				return TFalse
			}
		}
	}
	return intern(OStrSuffix, BoolS, "", 0, p, s)
}
func mkContains(s, sub *Term) *Term {
	if sub.isStr() && sub.S == "" || s == sub {
		return TTrue
	}
	if s.isStr() && sub.isStr() {
		return mkBool(strings.Contains(s.S, sub.S))
	}
	if s.Op == OIte && sub.isStr() && iteDepthValues(s, 60) {
		return mkIte(s.Args[0], mkContains(s.Args[1], sub), mkContains(s.Args[2], sub))
	}
	return intern(OStrContains, BoolS, "", 0, s, sub)
}
func mkSubstr(s, off, n *Term) *Term {
	if s.isStr() && off.isInt() && n.isInt() {
		o, l := off.I, n.I
		if o < 0 || o >= int64(len(s.S)) || l <= 0 {
			return mkStr("")
		}
		e := o + l
		if e > int64(len(s.S)) {
			e = int64(len(s.S))
		}
		return mkStr(s.S[o:e])
	}
	if off.isInt() && off.I == 0 && n == mkStrLen(s) {
		return s
	}
	// drop constant prefix
	if off.isInt() && off.I > 0 {
		ps := catParts(s)
		if len(ps) > 1 && ps[0].isStr() && int64(len(ps[0].S)) <= off.I {
			return mkSubstr(mkStrCat(ps[1:]...), mkInt(off.I-int64(len(ps[0].S))), n)
		}
		if len(ps) >= 1 && ps[0].isStr() && mkSub(mkStrLen(s), off) == n {
			return mkStrCat(append([]*Term{mkStr(ps[0].S[off.I:])}, ps[1:]...)...)
		}
	}
	return intern(OStrSub, StrS, "", 0, s, off, n)
}
func mkStrLt(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return mkBool(a.S < b.S)
	}
	if a == b {
		return TFalse
	}
	return intern(OStrLt, BoolS, "", 0, a, b)
}
func mkStrFromInt(a *Term) *Term { // decimal rendering of any integer
	if a.isInt() {
		return mkStr(strconv.FormatInt(a.I, 10))
	}
	return intern(OStrFromInt, StrS, "", 0, a)
}

// ---- sequences

func mkSeqEmpty(s *Sort) *Term { return intern(OSeqEmpty, s, "", 0) }
func mkSeqUnit(e *Term) *Term  { return intern(OSeqUnit, seqSort(e.Sort), "", 0, e) }
func mkSeqCat(s *Sort, as ...*Term) *Term {
	as = flatten(OSeqCat, as)
	var out []*Term
	for _, a := range as {
		if a.Op == OSeqEmpty {
			continue
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return mkSeqEmpty(s)
	case 1:
		return out[0]
	}
	return intern(OSeqCat, s, "", 0, out...)
}
func mkSeqLen(a *Term) *Term {
	switch a.Op {
	case OSeqEmpty:
		return mkInt(0)
	case OSeqUnit:
		return mkInt(1)
	case OSeqCat:
		var s []*Term
		for _, x := range a.Args {
			s = append(s, mkSeqLen(x))
		}
		return mkAdd(s...)
	case OSeqUpdate:
		return mkSeqLen(a.Args[0])
	case OApp:
		if frameOf(a) != nil {
			return mkSeqLen(a.Args[0])
		}
	case OIte:
		x, y := mkSeqLen(a.Args[1]), mkSeqLen(a.Args[2])
		if x == y {
			return x
		}
		if x.isInt() || y.isInt() {
			return mkIte(a.Args[0], x, y)
		}
	}
	return intern(OSeqLen, IntS, "", 0, a)
}

// overlay: a sequence given as another one with replaced elements.
func overlay(s *Term) bool {
	return s.Op == OSeqUpdate || frameOf(s) != nil || s.Op == OIte && (overlay(s.Args[1]) || overlay(s.Args[2]))
}

func mkSeqNth(s, i *Term) *Term {
	if f := frameOf(s); f != nil {
		return f.nth(s, i)
	}
	if s.Op == OSeqUnit && i.isInt() && i.I == 0 {
		return s.Args[0]
	}
	if s.Op == OSeqCat {
		// known-length leading parts
		off := i
		parts := s.Args
		for len(parts) > 0 {
			l := mkSeqLen(parts[0])
			d := mkSub(off, l)
			if mkLe(mkInt(0), d) == TTrue { // off >= l
				off = d
				parts = parts[1:]
				continue
			}
			if mkLt(off, l) == TTrue && mkLe(mkInt(0), off) == TTrue {
				return mkSeqNth(parts[0], off)
			}
			break
		}
		if len(parts) < len(s.Args) && len(parts) > 0 {
			return mkSeqNth(mkSeqCat(s.Sort, parts...), off)
		}
	}
	if s.Op == OSeqUpdate {
		if s.Args[1] == i {
			// caller guarantees in-bounds; out-of-bounds update is identity
			return mkIte(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkSeqLen(s.Args[0]))), s.Args[2], mkSeqNth(s.Args[0], i))
		}
		if d := mkSub(s.Args[1], i); d.isInt() && d.I != 0 {
			return mkSeqNth(s.Args[0], i)
		}
		return mkIte(mkAnd(mkEq(s.Args[1], i), mkLe(mkInt(0), i), mkLt(i, mkSeqLen(s.Args[0]))), s.Args[2], mkSeqNth(s.Args[0], i))
	}
	if s.Op == OIte && (overlay(s.Args[1]) || overlay(s.Args[2])) {
		return mkIte(s.Args[0], mkSeqNth(s.Args[1], i), mkSeqNth(s.Args[2], i))
	}
	if s.Op == OIte && i.isInt() && (s.Args[1].Op == OSeqUnit || s.Args[2].Op == OSeqUnit || s.Args[1].Op == OSeqCat || s.Args[2].Op == OSeqCat) {
		return mkIte(s.Args[0], mkSeqNth(s.Args[1], i), mkSeqNth(s.Args[2], i))
	}
	return intern(OSeqNth, s.Sort.A, "", 0, s, i)
}
func mkSeqExtract(s, off, n *Term) *Term {
	if off.isInt() && off.I == 0 && n == mkSeqLen(s) {
		return s
	}
	if n.isInt() && n.I <= 0 {
		return mkSeqEmpty(s.Sort)
	}
	if off.isInt() {
		ps := catParts(s)
		all := true
		for _, p := range ps {
			if p.Op != OSeqUnit {
				all = false
			}
		}
		if all && n.isInt() && off.I >= 0 {
			if off.I >= int64(len(ps)) {
				return mkSeqEmpty(s.Sort)
			}
			e := off.I + n.I
			if e > int64(len(ps)) {
				e = int64(len(ps))
			}
			return mkSeqCat(s.Sort, ps[off.I:e]...)
		}
		if len(ps) > 0 && ps[0].Op == OSeqUnit && off.I >= 1 {
			return mkSeqExtract(mkSeqCat(s.Sort, ps[1:]...), mkInt(off.I-1), n)
		}
	}
	return intern(OSeqExtract, s.Sort, "", 0, s, off, n)
}
func mkSeqUpdate(s, i, v *Term) *Term {
	if s.Op == OSeqUpdate && s.Args[1] == i {
		return mkSeqUpdate(s.Args[0], i, v)
	}
	if i.isInt() {
		ps := catParts(s)
		if int(i.I) < len(ps) {
			ok := true
			for _, p := range ps[:i.I+1] {
				if p.Op != OSeqUnit {
					ok = false
				}
			}
			if ok {
				n := append([]*Term{}, ps...)
				n[i.I] = mkSeqUnit(v)
				return mkSeqCat(s.Sort, n...)
			}
		}
	}
	return intern(OSeqUpdate, s.Sort, "", 0, s, i, v)
}

// ---- arrays

func mkConstArr(s *Sort, v *Term) *Term { return intern(OConstArr, s, "", 0, v) }
func distinctTerms(a, b *Term) bool     { return mkEq(a, b) == TFalse }
func mkSelect(a, k *Term) *Term {
	for {
		if a.Op == OStore {
			if a.Args[1] == k {
				return a.Args[2]
			}
			e := mkEq(a.Args[1], k)
			if e == TFalse {
				a = a.Args[0]
				continue
			}
			if e == TTrue {
				return a.Args[2]
			}
			return mkIte(e, a.Args[2], mkSelect(a.Args[0], k))
		}
		if a.Op == OConstArr {
			return a.Args[0]
		}
		if a.Op == OIte {
			return mkIte(a.Args[0], mkSelect(a.Args[1], k), mkSelect(a.Args[2], k))
		}
		break
	}
	return intern(OSelect, a.Sort.B, "", 0, a, k)
}
func mkStore(a, k, v *Term) *Term {
	if a.Op == OStore && a.Args[1] == k {
		return mkStore(a.Args[0], k, v)
	}
	return intern(OStore, a.Sort, "", 0, a, k, v)
}

// ---- datatypes

func mkMk(s *Sort, ctor string, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) -> x   (single-ctor types only)
	if len(args) > 0 && len(s.DT.Ctors) == 1 && args[0].Op == OSel && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != OSel || a.Args[0] != x || a.I != int64(i) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return intern(OMk, s, ctor, 0, args...)
}
func mkIs(ctor string, t *Term) *Term {
	if t.Op == OMk {
		return mkBool(t.S == ctor)
	}
	if len(t.Sort.DT.Ctors) == 1 && t.Sort.DT.Ctors[0].Name == ctor && !openSorts[t.Sort.Name] {
		return TTrue
	}
	if t.Op == OIte {
		return mkIte(t.Args[0], mkIs(ctor, t.Args[1]), mkIs(ctor, t.Args[2]))
	}
	// two-ctor types: normalise on first ctor
	if len(t.Sort.DT.Ctors) == 2 && !openSorts[t.Sort.Name] && t.Sort.DT.Ctors[1].Name == ctor {
		return mkNot(mkIs(t.Sort.DT.Ctors[0].Name, t))
	}
	return intern(OIs, BoolS, ctor, 0, t)
}

var openSorts = map[string]bool{"Any": true}

func mkSel(ctor string, i int, t *Term) *Term {
	c := t.Sort.DT.ctor(ctor)
	if t.Op == OMk && t.S == ctor {
		return t.Args[i]
	}
	if t.Op == OIte {
		a, b := t.Args[1], t.Args[2]
		// only push when at least one side resolves
		if a.Op == OMk || b.Op == OMk || a.Op == OIte || b.Op == OIte {
			if a.Op == OMk && a.S != ctor {
				return mkSel(ctor, i, b) // selector on wrong ctor: unspecified
			}
			if b.Op == OMk && b.S != ctor {
				return mkSel(ctor, i, a)
			}
			return mkIte(t.Args[0], mkSel(ctor, i, a), mkSel(ctor, i, b))
		}
	}
	r := intern(OSel, c.Sorts[i], ctor, int64(i), t)
	if r.Sort == IntS && !knownNonneg[r.ID] {
		if _, ok := selRange[fmt.Sprintf("%s.%d", ctor, i)]; ok {
			knownNonneg[r.ID] = true
		}
	}
	return r
}

func (t *Term) String() string { return smtTree(t, 0) }

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return strconv.FormatInt(i, 10)
}

// q turns a name into a plain SMT-LIB symbol (injective).
func q(s string) string {
	if r, ok := qCache[s]; ok {
		return r
	}
	var b strings.Builder
	b.WriteString("v.")
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.':
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, "_%02x", c)
		}
	}
	r := b.String()
	qCache[s] = r
	return r
}

var qCache = map[string]string{}

func (t *Term) head() string {
	switch t.Op {
	case ONot:
		return "not"
	case OAnd:
		return "and"
	case OOr:
		return "or"
	case OIte:
		return "ite"
	case OEq:
		return "="
	case OAdd:
		return "+"
	case OMul:
		return "*"
	case ODiv:
		return "div"
	case OMod:
		return "mod"
	case OLt:
		return "<"
	case OLe:
		return "<="
	case OStrCat:
		return "str.++"
	case OStrLen:
		return "str.len"
	case OStrPrefix:
		return "str.prefixof"
	case OStrSuffix:
		return "str.suffixof"
	case OStrContains:
		return "str.contains"
	case OStrSub:
		return "str.substr"
	case OStrIndexOf:
		return "str.indexof"
	case OStrFromInt:
		return "go.itoa"
	case OStrToInt:
		return "str.to_int"
	case OStrLt:
		return "str.<"
	case OStrReplAll:
		return "str.replace_all"
	case OSeqCat:
		return "seq.++"
	case OSeqUnit:
		return "seq.unit"
	case OSeqLen:
		return "seq.len"
	case OSeqNth:
		return "seq.nth"
	case OSeqExtract:
		return "seq.extract"
	case OSeqUpdate:
		return "seq.update"
	case OSelect:
		return "select"
	case OStore:
		return "store"
	case OApp:
		return q(t.S)
	case OMk:
		return q(t.S)
	case OSel:
		return q(selName(t))
	case OIs:
		return "(_ is " + q(t.S) + ")"
	case OConstArr:
		return "(as const " + sortSMT(t.Sort) + ")"
	}
	return "?"
}

func selName(t *Term) string {
	c := t.Args[0].Sort.DT.ctor(t.S)
	return c.Name + "." + c.Fields[t.I]
}

func sortSMT(s *Sort) string {
	switch s.Kind {
	case SSeq:
		return "(Seq " + sortSMT(s.A) + ")"
	case SArray:
		return "(Array " + sortSMT(s.A) + " " + sortSMT(s.B) + ")"
	case SData, SUnint:
		return q(s.Name)
	}
	return s.Name
}

func smtAtom(t *Term) (string, bool) {
	switch t.Op {
	case OConst:
		switch t.Sort {
		case BoolS:
			if t.I == 1 {
				return "true", true
			}
			return "false", true
		case IntS:
			return smtInt(t.I), true
		default:
			return smtStr(t.S), true
		}
	case OVar:
		return q(t.S), true
	case OForall:
		return q(fmt.Sprintf("forall!%d", t.ID)), true
	case OSeqEmpty:
		return "(as seq.empty " + sortSMT(t.Sort) + ")", true
	case OMk, OApp:
		if len(t.Args) == 0 {
			return q(t.S), true
		}
	}
	return "", false
}

var treeDepth = 12

func init() {
	if n, err := strconv.Atoi(os.Getenv("GOVC_DEPTH")); err == nil {
		treeDepth = n
	}
}

func smtTree(t *Term, depth int) string {
	if depth > treeDepth {
		return "…"
	}
	if a, ok := smtAtom(t); ok {
		return a
	}
	var b strings.Builder
	b.WriteString("(" + t.head())
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(smtTree(a, depth+1))
	}
	if t.Op == OStrInRe {
		return "(str.in_re " + smtTree(t.Args[0], depth+1) + " " + t.S + ")"
	}
	b.WriteByte(')')
	return b.String()
}

// collect visits all subterms once (post-order).
func collect(roots []*Term, visit func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			rec(a)
		}
		visit(t)
	}
	for _, r := range roots {
		rec(r)
	}
}

// substitute rebuilds t with map m applied (by ID), re-simplifying.
func substitute(t *Term, m map[int]*Term, cache map[int]*Term) *Term {
	if r, ok := m[t.ID]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := cache[t.ID]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = substitute(a, m, cache)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		r = rebuild(t, args)
	}
	cache[t.ID] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OApp:
		return mkApp(t.S, t.Sort, a...)
	case ONot:
		return mkNot(a[0])
	case OAnd:
		return mkAnd(a...)
	case OOr:
		return mkOr(a...)
	case OIte:
		return mkIte(a[0], a[1], a[2])
	case OEq:
		return mkEq(a[0], a[1])
	case OAdd:
		return mkAdd(a...)
	case OMul:
		return mkMul(a[0], a[1])
	case ODiv:
		return mkDiv(a[0], a[1])
	case OMod:
		return mkMod(a[0], a[1])
	case OLe:
		return mkLe(a[0], a[1])
	case OLt:
		return mkLt(a[0], a[1])
	case OStrCat:
		return mkStrCat(a...)
	case OStrLen:
		return mkStrLen(a[0])
	case OStrPrefix:
		return mkPrefixOf(a[0], a[1])
	case OStrSuffix:
		return mkSuffixOf(a[0], a[1])
	case OStrContains:
		return mkContains(a[0], a[1])
	case OStrSub:
		return mkSubstr(a[0], a[1], a[2])
	case OStrFromInt:
		return mkStrFromInt(a[0])
	case OStrLt:
		return mkStrLt(a[0], a[1])
	case OSeqCat:
		return mkSeqCat(t.Sort, a...)
	case OSeqUnit:
		return mkSeqUnit(a[0])
	case OSeqLen:
		return mkSeqLen(a[0])
	case OSeqNth:
		return mkSeqNth(a[0], a[1])
	case OSeqExtract:
		return mkSeqExtract(a[0], a[1], a[2])
	case OSeqUpdate:
		return mkSeqUpdate(a[0], a[1], a[2])
	case OSelect:
		return mkSelect(a[0], a[1])
	case OStore:
		return mkStore(a[0], a[1], a[2])
	case OMk:
		return mkMk(t.Sort, t.S, a...)
	case OSel:
		return mkSel(t.S, int(t.I), a[0])
	case OIs:
		return mkIs(t.S, a[0])
	case OForall:
		return mkForall(a[0], a[1], a[2], a[3])
	}
	return intern(t.Op, t.Sort, t.S, t.I, a...)
}
