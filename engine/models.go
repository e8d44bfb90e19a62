package main

// Contracts assumed for functions outside the module (listed as trusted in
// the evidence) and the primitives of package verifspec.

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) strArg(v Value, st *State) *Term {
	v = x.plain(v, st)
	switch a := v.(type) {
	case *Term:
		if a.Sort != StrS {
			unsup("string expected")
		}
		return a
	case *IteV:
		return mkIte(a.C, x.strArg(a.A, st), x.strArg(a.B, st))
	case *SeqV:
		if len(a.E) == 0 {
			return mkStr("")
		}
	case *NilV:
		return mkStr("")
	}
	unsup("string expected, got %T", v)
	return nil
}

// mapIte applies f below if-then-else nodes (depth limited by value leaves).
func mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return mkIte(t.Args[0], mapIte(t.Args[1], f), mapIte(t.Args[2], f))
	}
	return f(t)
}

func mkLower(t *Term) *Term {
	return mapIte(t, func(t *Term) *Term {
		if t.isStr() {
			return mkStr(strings.ToLower(t.S))
		}
		if t.Op == OApp && t.S == "strings.ToLower" {
			return t
		}
		if t.Op == OStrFromInt {
			return t
		}
		return mkApp("strings.ToLower", StrS, t)
	})
}
func mkUpper(t *Term) *Term {
	return mapIte(t, func(t *Term) *Term {
		if t.isStr() {
			return mkStr(strings.ToUpper(t.S))
		}
		if t.Op == OApp && t.S == "strings.ToUpper" {
			return t
		}
		return mkApp("strings.ToUpper", StrS, t)
	})
}

func ufStr(name string, f func(string) string) func(t *Term) *Term {
	return func(t *Term) *Term {
		return mapIte(t, func(t *Term) *Term {
			if t.isStr() && f != nil {
				return mkStr(f(t.S))
			}
			return mkApp(name, StrS, t)
		})
	}
}

var stringFns = map[string]func(t *Term) *Term{
	"strings.ToLower":                                mkLower,
	"strings.ToUpper":                                mkUpper,
	"strings.TrimSpace":                              ufStr("strings.TrimSpace", strings.TrimSpace),
	"strings.Title":                                  ufStr("strings.Title", nil),
	"github.com/iancoleman/strcase.ToCamel":          ufStr("strcase.ToCamel", nil),
	"github.com/iancoleman/strcase.ToLowerCamel":     ufStr("strcase.ToLowerCamel", nil),
	"github.com/iancoleman/strcase.ToSnake":          ufStr("strcase.ToSnake", nil),
	"github.com/iancoleman/strcase.ToKebab":          ufStr("strcase.ToKebab", nil),
	"github.com/iancoleman/strcase.ToScreamingSnake": ufStr("strcase.ToScreamingSnake", nil),
	"path/filepath.Ext":                              ufStr("filepath.Ext", filepath.Ext),
	"path/filepath.Dir":                              ufStr("filepath.Dir", filepath.Dir),
	"path/filepath.Base":                             ufStr("filepath.Base", filepath.Base),
	"path.Base":                                      ufStr("path.Base", path.Base),
	"strconv.Quote":                                  ufStr("strconv.Quote", strconv.Quote),
}

var strSeq = seqSort(StrS)

func (x *Exec) newError(text *Term) Value {
	return &IfaceV{T: x.P.errStringType(), V: mkMk(sortOf(x.P.errStringType()), sortOf(x.P.errStringType()).DT.Ctors[1].Name, mkMk(sortOf(x.P.errStringType().(*types.Pointer).Elem()), "errors.errorString", text))}
}

func (p *Program) errStringType() types.Type {
	pk := p.Prog.ImportedPackage("errors")
	return types.NewPointer(pk.Pkg.Scope().Lookup("errorString").Type())
}

func (x *Exec) maybeError(cond *Term, tag string) Value {
	// nil when cond, an unspecified error otherwise
	return x.mergeV(cond, &NilV{T: types.Universe.Lookup("error").Type()}, x.newError(mkStr(tag)), nil, nil)
}

func (x *Exec) modelCall(fr *Frame, fn *ssa.Function, name string, args []Value, st *State, pos token.Pos) (Value, bool) {
	pp := fnPkgPath(fn)
	if pp == specPkg {
		return x.specCall(fr, fn, args, st, pos)
	}
	if pp == modPath || strings.HasPrefix(pp, modPath+"/") {
		if v, ok := x.moduleModel(fr, fn, name, args, st, pos); ok {
			return v, true
		}
		return nil, false
	}
	if f, ok := stringFns[name]; ok {
		x.trusted[name] = true
		return f(x.strArg(args[0], st)), true
	}
	v, ok := x.extModel(fr, fn, name, args, st, pos)
	if ok {
		x.trusted[name] = true
	}
	return v, ok
}

// moduleModel: functions of the module that only wrap an external effect.
func (x *Exec) moduleModel(fr *Frame, fn *ssa.Function, name string, args []Value, st *State, pos token.Pos) (Value, bool) {
	return nil, false
}

func (x *Exec) extModel(fr *Frame, fn *ssa.Function, name string, args []Value, st *State, pos token.Pos) (Value, bool) {
	S := func(i int) *Term { return x.strArg(args[i], st) }
	switch name {
	case "strings.Contains":
		return mkContains(S(0), S(1)), true
	case "strings.HasPrefix":
		return mkPrefixOf(S(1), S(0)), true
	case "strings.HasSuffix":
		return mkSuffixOf(S(1), S(0)), true
	case "strings.EqualFold":
		return mkEq(mkLower(S(0)), mkLower(S(1))), true
	case "strings.TrimPrefix":
		s, p := S(0), S(1)
		return mapIte(s, func(s *Term) *Term {
			return mkIte(mkPrefixOf(p, s), mkSubstr(s, mkStrLen(p), mkSub(mkStrLen(s), mkStrLen(p))), s)
		}), true
	case "strings.TrimSuffix":
		s, p := S(0), S(1)
		return mapIte(s, func(s *Term) *Term {
			return mkIte(mkSuffixOf(p, s), mkSubstr(s, mkInt(0), mkSub(mkStrLen(s), mkStrLen(p))), s)
		}), true
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		s, p := S(0), S(1)
		if s.isStr() && p.isStr() {
			switch name {
			case "strings.Trim":
				return mkStr(strings.Trim(s.S, p.S)), true
			case "strings.TrimLeft":
				return mkStr(strings.TrimLeft(s.S, p.S)), true
			default:
				return mkStr(strings.TrimRight(s.S, p.S)), true
			}
		}
		return mkApp(name, StrS, s, p), true
	case "strings.Replace", "strings.ReplaceAll":
		s, a, b := S(0), S(1), S(2)
		if name == "strings.Replace" {
			n := x.intTerm(args[3], st)
			if !n.isInt() || n.I >= 0 {
				return mkApp("strings.Replace", StrS, s, a, b, n), true
			}
		}
		if s.isStr() && a.isStr() && b.isStr() {
			return mkStr(strings.ReplaceAll(s.S, a.S, b.S)), true
		}
		return mkApp("strings.ReplaceAll", StrS, s, a, b), true
	case "strings.Compare":
		a, b := S(0), S(1)
		return mkIte(mkStrLt(a, b), mkInt(-1), mkIte(mkEq(a, b), mkInt(0), mkInt(1))), true
	case "strings.Index":
		s, sub := S(0), S(1)
		if s.isStr() && sub.isStr() {
			return mkInt(int64(strings.Index(s.S, sub.S))), true
		}
		return x.strIndex(s, sub), true
	case "strings.Split":
		return x.split(S(0), S(1)), true
	case "strings.SplitN":
		n := x.intTerm(args[2], st)
		if !n.isInt() || n.I != 2 {
			unsup("strings.SplitN with n != 2")
		}
		return x.splitN2(S(0), S(1), st), true
	case "strings.Fields":
		r := mkApp("strings.Fields", strSeq, S(0))
		return r, true
	case "strings.Join":
		return x.join(args[0], S(1), st), true
	case "strings.Repeat":
		n := x.intTerm(args[1], st)
		x.safety("strings.Repeat count", fr, st, mkLe(mkInt(0), n), pos)
		return x.repeat(S(0), n), true
	case "reflect.TypeOf": // only printed in messages
		return mkApp("reflect.TypeOf", anySort, x.toTermQ(args[0], fn.Signature.Params().At(0).Type(), st)), true
	case "strconv.Itoa":
		return mkStrFromInt(x.intTerm(args[0], st)), true
	case "strconv.FormatInt":
		return mkStrFromInt(x.intTerm(args[0], st)), true
	case "strconv.Atoi":
		s := S(0)
		ok := mapIteB(s, func(t *Term) *Term {
			if t.isStr() {
				_, err := strconv.Atoi(t.S)
				return mkBool(err == nil)
			}
			if t.Op == OStrFromInt {
				return TTrue
			}
			return mkApp("atoi.ok", BoolS, t)
		})
		val := mapIte(s, func(t *Term) *Term {
			if t.isStr() {
				i, _ := strconv.Atoi(t.S)
				return mkInt(int64(i))
			}
			if t.Op == OStrFromInt {
				return t.Args[0]
			}
			return mkIte(mkApp("atoi.ok", BoolS, t), mkApp("atoi.val", IntS, t), mkInt(0))
		})
		return TupleV{val, x.maybeError(ok, "strconv.Atoi")}, true
	case "strconv.ParseFloat":
		s := S(0)
		return TupleV{mkApp("parseFloat.val", unintSort("Float"), s), x.maybeError(mkApp("parseFloat.ok", BoolS, s), "strconv.ParseFloat")}, true
	case "strconv.ParseBool":
		s := S(0)
		return TupleV{mkApp("parseBool.val", BoolS, s), x.maybeError(mkApp("parseBool.ok", BoolS, s), "strconv.ParseBool")}, true
	case "fmt.Sprintf":
		return x.sprintf(fr, args[0], x.ifaceArgs(args[1], st), st, pos), true
	case "fmt.Sprint":
		as := x.ifaceArgs(args[0], st)
		if len(as) == 1 {
			return x.fmtVerb(fr, 'v', as[0], st), true
		}
	case "fmt.Errorf":
		return x.newError(x.sprintf(fr, args[0], x.ifaceArgs(args[1], st), st, pos)), true
	case "errors.New":
		return x.newError(S(0)), true
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		return TupleV{mkInt(0), &NilV{T: types.Universe.Lookup("error").Type()}}, true
	case "log.Printf", "log.Println", "log.Print":
		return TupleV{}, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "os.Exit":
		x.oblige("safety", "process abort ("+name+") in "+shortFn(fr.Fn), st, TFalse, pos)
		st.G = TFalse
		return TupleV{}, true
	case "regexp.MustCompile":
		p := S(0)
		if !p.isStr() {
			unsup("regexp with a symbolic pattern")
		}
		return mkApp("regexp:"+p.S, unintSort("*regexp.Regexp")), true
	case "regexp.MatchString":
		p := S(0)
		if !p.isStr() {
			unsup("regexp with a symbolic pattern")
		}
		return TupleV{x.reMatch(p.S, S(1)), &NilV{T: types.Universe.Lookup("error").Type()}}, true
	case "(*regexp.Regexp).MatchString":
		return x.reMatch(x.rePattern(args[0], st), S(1)), true
	case "(*regexp.Regexp).FindStringSubmatch":
		pat := x.rePattern(args[0], st)
		s := S(1)
		n := regexp.MustCompile(pat).NumSubexp()
		var mk func(s *Term) Value
		mk = func(s *Term) Value {
			if s.Op == OIte {
				return x.mergeV(s.Args[0], mk(s.Args[1]), mk(s.Args[2]), nil, st)
			}
			if s.isStr() {
				m := regexp.MustCompile(pat).FindStringSubmatch(s.S)
				if m == nil {
					return zeroValue(types.NewSlice(types.Typ[types.String]))
				}
				q := &SeqV{Elem: types.Typ[types.String]}
				for _, e := range m {
					q.E = append(q.E, mkStr(e))
				}
				return q
			}
			q := &SeqV{Elem: types.Typ[types.String]}
			for i := 0; i <= n; i++ {
				q.E = append(q.E, mkApp(fmt.Sprintf("regroup%d:%s", i, pat), StrS, s))
			}
			return &IteV{C: x.reMatch(pat, s), A: q, B: zeroValue(types.NewSlice(types.Typ[types.String]))}
		}
		return mk(s), true
	case "(*regexp.Regexp).ReplaceAllString":
		pat := x.rePattern(args[0], st)
		s, r := S(1), S(2)
		if t := reSuffix(pat, s, r); t != nil {
			return t, true
		}
		if r.isStr() {
			return mapIte(s, func(s *Term) *Term {
				if s.isStr() {
					return mkStr(regexp.MustCompile(pat).ReplaceAllString(s.S, r.S))
				}
				return mkApp("rereplace:"+pat, StrS, s, r)
			}), true
		}
		return mkApp("rereplace:"+pat, StrS, s, r), true
	case "(*regexp.Regexp).ReplaceAll":
		pat := x.rePattern(args[0], st)
		if t := reSuffix(pat, S(1), S(2)); t != nil {
			return t, true
		}
		return mkApp("rereplace:"+pat, StrS, S(1), S(2)), true
	case "sort.Strings":
		x.sortInPlace(fr, args[0], st, func(t *Term) *Term { return mkSortStrings(t) })
		return TupleV{}, true
	case "sort.Sort", "sort.Stable":
		return x.sortSort(fr, args[0], st), true
	case "github.com/google/go-cmp/cmp.Equal":
		a, ok1 := x.plain(args[0], st).(*IfaceV)
		b, ok2 := x.plain(args[1], st).(*IfaceV)
		if ok1 && ok2 {
			return x.specEq(a, b, st), true
		}
	case "github.com/google/go-cmp/cmp.Diff":
		a, ok1 := x.plain(args[0], st).(*IfaceV)
		b, ok2 := x.plain(args[1], st).(*IfaceV)
		if ok1 && ok2 {
			// empty exactly for equal values
			return mkIte(x.specEq(a, b, st), mkStr(""), mkStrCat(freshVar("cmp.diff", StrS), mkStr("\n"))), true
		}
	case "(*github.com/gertd/go-pluralize.Client).Plural":
		return mkApp("plural", StrS, S(1)), true
	case "(*github.com/gertd/go-pluralize.Client).Singular":
		return mkApp("singular", StrS, S(1)), true
	case "github.com/gertd/go-pluralize.NewClient":
		return mkApp("pluralize.client", sortOf(fn.Signature.Results().At(0).Type())), true
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		return x.bufText(args[0], st), true
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write":
		x.bufAppend(args[0], S(1), st)
		return TupleV{mkStrLen(S(1)), &NilV{T: types.Universe.Lookup("error").Type()}}, true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return mkStrLen(x.bufText(args[0], st)), true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		x.bufSet(args[0], mkStr(""), st)
		return TupleV{}, true
	case "bytes.NewBufferString":
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		c := x.newCell(fmt.Sprintf("%s%s/newbuf%d", fr.Path, fr.Unroll, len(st.Cells)), t, &StructV{T: t, F: []Value{S(0)}}, st)
		return &Ref{Cell: c}, true
	case "path.Join", "path/filepath.Join":
		parts := x.plain(args[0], st)
		if sv, ok := parts.(*SeqV); ok {
			var ts []*Term
			for _, e := range sv.E {
				ts = append(ts, x.strArg(e, st))
			}
			return mkApp(fmt.Sprintf("path.Join%d", len(ts)), StrS, ts...), true
		}
		return mkApp("path.JoinSeq", StrS, x.toTerm(parts, types.NewSlice(types.Typ[types.String]), st)), true
	case "os.MkdirAll", "os.Mkdir":
		return x.maybeError(mkApp("mkdir.ok", BoolS, S(0), x.filesLen(st)), "mkdir"), true
	case "io/ioutil.ReadFile", "os.ReadFile":
		return x.fileRead(S(0), st), true
	case "io/ioutil.ReadAll", "io.ReadAll":
		return TupleV{x.bufTextAny(args[0], st), &NilV{T: types.Universe.Lookup("error").Type()}}, true
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		iv, ok := x.plain(args[0], st).(*IfaceV)
		if !ok {
			unsup("json.Marshal of a value of unknown type")
		}
		t, ty := x.jsonValue(iv, st)
		ts := []*Term{t}
		for _, a := range args[1:] {
			ts = append(ts, x.strArg(a, st))
		}
		return TupleV{mkApp("json:"+typeName(ty), StrS, ts...), &NilV{T: types.Universe.Lookup("error").Type()}}, true
	case "encoding/json.Unmarshal":
		d := x.strArg(args[0], st)
		iv, ok := x.plain(args[1], st).(*IfaceV)
		if !ok {
			unsup("json.Unmarshal into a value of unknown type")
		}
		pt, ok := iv.T.Underlying().(*types.Pointer)
		r, ok2 := x.plain(iv.V, st).(*Ref)
		if !ok || !ok2 {
			unsup("json.Unmarshal into %T", iv.V)
		}
		if d.Op != OApp || d.S != "json:"+typeName(pt.Elem()) {
			unsup("json.Unmarshal of data that is not the encoding of a %s", typeName(pt.Elem()))
		}
		if z := x.toTermQ(zeroValue(pt.Elem()), pt.Elem(), st); x.toTermQ(x.load(r, pt.Elem(), st), pt.Elem(), st) != z {
			unsup("json.Unmarshal into a value that is not empty")
		}
		x.store(r, x.explode(d.Args[0], pt.Elem(), st), pt.Elem(), st)
		return &NilV{T: types.Universe.Lookup("error").Type()}, true
	case "io/ioutil.WriteFile", "os.WriteFile":
		n := x.filesLen(st)
		x.fileWrite(S(0), x.strArg(args[1], st), st)
		return x.maybeError(mkApp("write.ok", BoolS, S(0), x.strArg(args[1], st), n), "write"), true
	case "(*github.com/urfave/cli/v2.Context).String":
		return x.cliGet(args[0], "*cli.StringFlag", S(1), st), true
	case "(*github.com/urfave/cli/v2.Context).Bool":
		return x.cliGet(args[0], "*cli.BoolFlag", S(1), st), true
	case "text/template.New":
		return &OpaqueV{Kind: "tpl", Data: &tplV{}}, true
	case "(*text/template.Template).Funcs":
		t := *(args[0].(*OpaqueV).Data.(*tplV))
		t.funcs = append(append([]Value{}, t.funcs...), args[1])
		return &OpaqueV{Kind: "tpl", Data: &t}, true
	case "(*text/template.Template).Parse":
		return x.tplParse(args[0], S(1), st), true
	case "(*text/template.Template).Execute":
		return x.tplExecute(fr, args[0], args[1], args[2], st, pos), true
	}
	return nil, false
}

func mapIteB(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return mkIte(t.Args[0], mapIteB(t.Args[1], f), mapIteB(t.Args[2], f))
	}
	return f(t)
}

func mkSortStrings(t *Term) *Term {
	if t.Op == OApp && (t.S == "sort.Strings" || t.S == "sortedKeys") {
		return t
	}
	return mkApp("sort.Strings", t.Sort, t)
}

func (x *Exec) rePattern(v Value, st *State) string {
	t, ok := x.plain(v, st).(*Term)
	if !ok || t.Op != OApp || !strings.HasPrefix(t.S, "regexp:") {
		unsup("unknown regexp")
	}
	return t.S[len("regexp:"):]
}

// reSuffix: replacing a literal at the end of the text (nil for other patterns).
func reSuffix(pat string, s, r *Term) *Term {
	if !r.isStr() || strings.Contains(r.S, "$") {
		return nil
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) != 2 {
		return nil
	}
	l, e := re.Sub[0], re.Sub[1]
	if l.Op != syntax.OpLiteral || l.Flags&syntax.FoldCase != 0 || e.Op != syntax.OpEndText {
		return nil
	}
	suf := mkStr(string(l.Rune))
	return mapIte(s, func(s *Term) *Term {
		return mkIte(mkSuffixOf(suf, s), mkStrCat(mkSubstr(s, mkInt(0), mkSub(mkStrLen(s), mkStrLen(suf))), r), s)
	})
}

func (x *Exec) reMatch(pat string, s *Term) *Term {
	return mapIteB(s, func(s *Term) *Term {
		if s.isStr() {
			return mkBool(regexp.MustCompile(pat).MatchString(s.S))
		}
		return mkApp("rematch:"+pat, BoolS, s)
	})
}

func (x *Exec) split(s, sep *Term) Value {
	if s.isStr() && sep.isStr() {
		q := &SeqV{Elem: types.Typ[types.String]}
		for _, p := range strings.Split(s.S, sep.S) {
			q.E = append(q.E, mkStr(p))
		}
		return q
	}
	t := mkApp("strings.Split", strSeq, s, sep)
	x.fact(mkLe(mkInt(1), mkSeqLen(t)))
	return t
}

// strIndex: the first occurrence of sub in s.
func (x *Exec) strIndex(s, sub *Term) *Term {
	r := mkApp("strings.Index", IntS, s, sub)
	end := mkAdd(r, mkStrLen(sub))
	b, a := mkSubstr(s, mkInt(0), r), mkSubstr(s, end, mkSub(mkStrLen(s), end))
	x.fact(mkAnd(mkLe(mkInt(-1), r), mkLe(r, mkStrLen(s))))
	x.fact(mkEq(mkLe(mkInt(0), r), mkContains(s, sub)))
	x.fact(mkImplies(mkContains(s, sub), mkAnd(mkLe(end, mkStrLen(s)), mkEq(s, mkStrCat(b, sub, a)), mkNot(mkContains(b, sub)))))
	return r
}

func (x *Exec) splitN2(s, sep *Term, st *State) Value {
	if s.isStr() && sep.isStr() {
		q := &SeqV{Elem: types.Typ[types.String]}
		for _, p := range strings.SplitN(s.S, sep.S, 2) {
			q.E = append(q.E, mkStr(p))
		}
		return q
	}
	i := x.strIndex(s, sep)
	end := mkAdd(i, mkStrLen(sep))
	b, a := mkSubstr(s, mkInt(0), i), mkSubstr(s, end, mkSub(mkStrLen(s), end))
	c := mkContains(s, sep)
	return &IteV{C: c, A: &SeqV{Elem: types.Typ[types.String], E: []Value{b, a}}, B: &SeqV{Elem: types.Typ[types.String], E: []Value{s}}}
}

func (x *Exec) join(v Value, sep *Term, st *State) *Term {
	v = x.plain(v, st)
	switch a := v.(type) {
	case *IteV:
		return mkIte(a.C, x.join(a.A, sep, st), x.join(a.B, sep, st))
	case *NilV:
		return mkStr("")
	case *SeqV:
		var parts []*Term
		for i, e := range a.E {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, x.strArg(e, st))
		}
		return mkStrCat(parts...)
	case *Term:
		jf := x.P.spec["JoinTo"]
		return x.logicTerm(jf, []*Term{a, sep, mkSeqLen(a)}).(*Term)
	}
	unsup("join of %T", v)
	return nil
}

func (x *Exec) repeat(s, n *Term) *Term {
	if n.isInt() && n.I <= 64 {
		var ps []*Term
		for i := int64(0); i < n.I; i++ {
			ps = append(ps, s)
		}
		return mkStrCat(ps...)
	}
	return x.logicTerm(x.P.spec["RepeatTo"], []*Term{s, n}).(*Term)
}

// ---------------------------------------------------------------- buffers

func (x *Exec) bufRef(v Value, st *State) *Ref {
	switch a := x.plain(v, st).(type) {
	case *Ref:
		return a
	case *IfaceV:
		return x.bufRef(a.V, st)
	}
	unsup("buffer %T", v)
	return nil
}
func (x *Exec) bufText(v Value, st *State) *Term {
	r := x.bufRef(v, st)
	s := x.load(r, nil, st)
	return x.field(s, 0, st).(*Term)
}
func (x *Exec) bufSet(v Value, t *Term, st *State) {
	r := x.bufRef(v, st)
	x.store(&Ref{Cell: r.Cell, P: append(append([]Step{}, r.P...), Step{Kind: 0, F: 0}), Prov: r.Prov}, t, types.Typ[types.String], st)
}
func (x *Exec) bufAppend(v Value, t *Term, st *State) {
	x.bufSet(v, mkStrCat(x.bufText(v, st), t), st)
}

func (x *Exec) modelInvoke(fr *Frame, r *IfaceV, m string, args []Value, st *State) (Value, bool) {
	tn := typeName(r.T)
	if tn == "*bytes.Buffer" || tn == "*strings.Builder" {
		switch m {
		case "Write", "WriteString":
			t := x.strArg(args[0], st)
			x.bufAppend(r.V, t, st)
			return TupleV{mkStrLen(t), &NilV{T: types.Universe.Lookup("error").Type()}}, true
		}
		unsup("method %s of %s", m, tn)
	}
	if m == "Error" && tn == "*errors.errorString" {
		return x.errString(fr, r, st), true
	}
	return nil, false
}

// jsonValue: the value encoded (through a pointer, the value it points to).
func (x *Exec) jsonValue(iv *IfaceV, st *State) (*Term, types.Type) {
	if pt, ok := iv.T.Underlying().(*types.Pointer); ok {
		if r, ok := x.plain(iv.V, st).(*Ref); ok {
			return x.toTermQ(x.load(r, pt.Elem(), st), pt.Elem(), st), pt.Elem()
		}
		t := x.toTermQ(iv.V, iv.T, st)
		return mkSel("box*"+typeName(pt.Elem()), 0, t), pt.Elem()
	}
	return x.toTermQ(iv.V, iv.T, st), iv.T
}

func (x *Exec) bufTextAny(v Value, st *State) *Term {
	if iv, ok := x.plain(v, st).(*IfaceV); ok {
		if tn := typeName(iv.T); tn == "*bytes.Buffer" || tn == "*strings.Builder" {
			return x.bufText(iv.V, st)
		}
	}
	unsup("reading from %T", v)
	return nil
}

// fileRead: the last content written under the name, or what was there before.
func (x *Exec) fileRead(name *Term, st *State) Value {
	errT := types.Universe.Lookup("error").Type()
	old := mkApp("fs.content", StrS, name)
	ok := mkApp("fs.exists", BoolS, name)
	for _, c := range sortedCells(st.Cells) {
		if c.Name == "ghost:files" || c.Name == "ghost:inputs" {
			sv, isSeq := x.plain(st.Cells[c].V, st).(*SeqV)
			if !isSeq {
				unsup("reading a file after writing an unknown number of files")
			}
			for _, e := range sv.E {
				f := e.(*StructV)
				eq := mkEq(f.F[0].(*Term), name)
				old = mkIte(eq, f.F[1].(*Term), old)
				ok = mkOr(eq, ok)
			}
		}
	}
	var err Value = &NilV{T: errT}
	if ok != TTrue {
		err = x.maybeError(ok, "read")
	}
	return TupleV{old, err}
}

// fileWrite records written files in a ghost list.
func (x *Exec) fileWrite(name, content *Term, st *State) {
	x.fileRecord("ghost:files", name, content, st)
}

func (x *Exec) fileRecord(ghost string, name, content *Term, st *State) {
	c := ghostCell(ghost, st)
	if c == nil {
		return
	}
	el := c.T.Underlying().(*types.Slice).Elem()
	x.filesAppend(c, &SeqV{Elem: el, E: []Value{&StructV{T: el, F: []Value{name, content}}}}, st)
}

func (x *Exec) filesAppend(c *Cell, fs Value, st *State) {
	n := *st.Cells[c]
	n.V = x.appendV(n.V, fs, c.T, st)
	st.Cells[c] = &n
}

func ghostCell(name string, st *State) *Cell {
	for c := range st.Cells {
		if c.Name == name {
			return c
		}
	}
	return nil
}

// filesLen: how many files were written so far (file operations may fail at any time).
func (x *Exec) filesLen(st *State) *Term {
	if c := ghostCell("ghost:files", st); c != nil {
		return x.length(x.plain(st.Cells[c].V, st), st)
	}
	return mkInt(0)
}

// ---------------------------------------------------------------- sorting

func (x *Exec) sortInPlace(fr *Frame, v Value, st *State, f func(t *Term) *Term) {
	if x.curCall == nil {
		unsup("sort without call site")
	}
	arg := x.curCall.Common().Args[0]
	x.sortValue(fr, v, arg, st, f)
}

// sortValue replaces the content of slice v (SSA value src) in place.
func (x *Exec) sortValue(fr *Frame, v Value, src ssa.Value, st *State, f func(t *Term) *Term) {
	switch a := v.(type) {
	case *IteV:
		unsup("in-place sort of a conditional slice")
	case *NilV:
		return
	case *ProvV:
		cs := st.Cells[a.R.Cell]
		if cs == nil || cs.SV != a.SV {
			unsup("in-place sort of a stale slice")
		}
		cur := x.resolve(a, st)
		nv := f(x.toTerm(cur, a.T, st))
		x.store(&Ref{Cell: a.R.Cell, P: a.R.P, Prov: a}, nv, types.Typ[types.String], st) // element-level rewrite
		return
	case *SeqV:
		if len(a.E) <= 1 {
			return
		}
	}
	// the slice lives only in registers
	set := map[ssa.Value]bool{}
	var walk func(s ssa.Value)
	walk = func(s ssa.Value) {
		if set[s] {
			return
		}
		set[s] = true
		switch i := s.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(i.X)
		case *ssa.MakeInterface:
			walk(i.X)
		case *ssa.Parameter, *ssa.FreeVar:
			unsup("in-place sort of a slice owned by the caller")
		}
	}
	walk(src)
	for s := range set {
		cur, ok := st.Env[s]
		if !ok {
			continue
		}
		if _, isI := s.(*ssa.MakeInterface); isI {
			continue
		}
		if sortOf(s.Type()).Kind != SSeq {
			continue
		}
		st.Env[s] = f(x.toTerm(cur, s.Type(), st))
	}
}

func (x *Exec) sortSort(fr *Frame, v Value, st *State) Value {
	iv, ok := x.plain(v, st).(*IfaceV)
	if !ok {
		unsup("sort.Sort of %T", v)
	}
	less := x.P.Prog.LookupMethod(iv.T, fr.Fn.Pkg.Pkg, "Less")
	if less == nil {
		unsup("no Less")
	}
	name := "sort.Sort:" + typeName(iv.T)
	f := func(t *Term) *Term {
		s := mkApp(name, t.Sort, t)
		x.fact(mkEq(mkSeqLen(s), mkSeqLen(t)))
		// ordered by Less: no later element is Less than an earlier one
		d := x.qDepth
		i, j := mkVar(fmt.Sprintf("bv%d!Int", d), IntS), mkVar(fmt.Sprintf("bv%d!Int", d+1), IntS)
		y := x.specExec()
		y.qDepth = d + 2
		ls := &State{G: TTrue, Env: map[ssa.Value]Value{}, Cells: map[*Cell]*CellState{}}
		_, lv := y.callFn(less, []Value{s, j, i}, nil, ls, "less")
		// a permutation of the original
		pi := mkApp("perm:"+name, IntS, t, i)
		x.fact(mkForall(mkInt(0), mkSeqLen(s), i, mkAnd(mkLe(mkInt(0), pi), mkLt(pi, mkSeqLen(t)), mkEq(mkSeqNth(s, i), mkSeqNth(t, pi)))))
		x.fact(mkForall(mkInt(0), mkSeqLen(s), i, mkForall(mkAdd(i, mkInt(1)), mkSeqLen(s), j, mkNot(lv.(*Term)))))
		return s
	}
	if x.curCall == nil {
		unsup("sort without call site")
	}
	x.sortValue(fr, iv.V, x.curCall.Common().Args[0], st, f)
	return TupleV{}
}

// ---------------------------------------------------------------- verifspec primitives

func (x *Exec) specCall(fr *Frame, fn *ssa.Function, args []Value, st *State, pos token.Pos) (Value, bool) {
	switch fn.Name() {
	case "Requires":
		c := x.boolTerm(args[0], st)
		if x.P.isContract(fr.Fn) { // a used contract: its caller establishes the precondition
			x.oblige("safety", "precondition of "+fr.Fn.Name(), st, c, pos)
			return TupleV{}, true
		}
		x.reqTerms = append(x.reqTerms, mkImplies(st.G, c))
		st.G = mkAnd(st.G, c)
		return TupleV{}, true
	case "Ensures":
		nm := x.strArg(args[0], st)
		if !nm.isStr() {
			unsup("Ensures with a symbolic name")
		}
		c := x.boolTerm(args[1], st)
		x.ensSeen[nm.S] = true
		x.oblige("ensures", nm.S, st, c, pos)
		return TupleV{}, true
	case "Provides":
		nm := x.strArg(args[0], st)
		c := x.boolTerm(args[1], st)
		if x.spec {
			return TupleV{}, true
		}
		if x.H != nil && x.P.provedIn(fr.Fn, x.H) {
			x.oblige("ensures", nm.S, st, c, pos)
		} else {
			x.fact(mkImplies(st.G, c))
		}
		return TupleV{}, true
	case "Assert":
		// a lemma step inside a harness: proved, then available
		nm := x.strArg(args[0], st)
		x.oblige("ensures", nm.S, st, x.boolTerm(args[1], st), pos)
		return TupleV{}, true
	case "Eq":
		return x.specEq(args[0], args[1], st), true
	case "Forall":
		return x.specForall(fr, args, st, pos), true
	case "Exists":
		return mkNot(x.specForallNeg(fr, args, st, pos)), true
	case "Implies":
		return mkImplies(x.boolTerm(args[0], st), x.boolTerm(args[1], st)), true
	case "ErrText":
		return x.errTextOf(fr, args[0], st), true
	case "SortedKeys":
		iv, ok := x.plain(args[0], st).(*IfaceV)
		if !ok {
			unsup("SortedKeys of an unknown map")
		}
		m := x.mapContent(iv.V, st)
		mt := x.mapTerm(m, iv.T, st)
		return mkApp("sortedKeys", strSeq, mkSel(mt.Sort.DT.Ctors[0].Name, 0, mt)), true
	case "Sorted":
		t := x.toTermQ(args[0], fn.Signature.Params().At(0).Type(), st)
		return mkSortStrings(t), true
	case "Files":
		for c := range st.Cells {
			if c.Name == "ghost:files" {
				return st.Cells[c].V, true
			}
		}
		unsup("no ghost files")
	case "Impl":
		return TupleV{}, true
	case "NilEmpty": // nil and empty slices are one value here
		return TupleV{}, true
	case "Clone":
		return x.cloneValue(args[0], st), true
	case "Input":
		x.fileRecord("ghost:inputs", x.strArg(args[0], st), x.strArg(args[1], st), st)
		return TupleV{}, true
	case "InFile", "OutFile":
		return x.plain(args[0], st), true
	case "Run":
		c := ghostCell("ghost:files", st)
		if c == nil {
			unsup("no ghost files")
		}
		old := st.Cells[c].V
		set := func(v Value) {
			n := *st.Cells[c]
			n.V = v
			st.Cells[c] = &n
		}
		set(zeroValue(c.T))
		f := fn.Signature.Params().At(0).Type().Underlying().(*types.Signature)
		err := x.callValue(fr, x.plain(args[0], st), f, nil, st, x.siteName(fr, "run"), pos)
		if st.G == TFalse {
			return TupleV{zeroValue(c.T), err}, true
		}
		files := st.Cells[c].V
		set(old)
		return TupleV{files, err}, true
	case "CLI":
		return x.cliRun(fr, fn, args, st, pos), true
	case "JSONKeys":
		iv, ok := x.plain(args[0], st).(*IfaceV)
		if !ok {
			unsup("JSONKeys of a value of unknown type")
		}
		return mkStr(jsonKeys(iv.T)), true
	}
	return nil, false
}

// cliV: the options of a command as given or defaulted, under every name they go by.
type cliV struct {
	kind map[string]string
	val  map[string]Value
}

// cliRun runs a command line action: every option given must be declared
// among the flags, required ones must be given, others have their default.
func (x *Exec) cliRun(fr *Frame, fn *ssa.Function, args []Value, st *State, pos token.Pos) Value {
	flags, ok := x.plain(args[0], st).(*SeqV)
	if !ok {
		unsup("flags %T", x.plain(args[0], st))
	}
	given := map[string]Value{}
	as := x.ifaceArgs(args[2], st)
	for i := 0; i+1 < len(as); i += 2 {
		n := x.strArg(x.plain(as[i], st).(*IfaceV).V, st)
		if !n.isStr() {
			unsup("option name is not constant")
		}
		given[n.S] = x.plain(as[i+1], st)
	}
	cv := &cliV{map[string]string{}, map[string]Value{}}
	fail := func(why string) Value { return x.newError(mkStr(why)) }
	for _, f := range flags.E {
		iv, ok := x.plain(f, st).(*IfaceV)
		if !ok {
			unsup("flag %T", f)
		}
		kind := typeName(iv.T)
		pt, isP := iv.T.Underlying().(*types.Pointer)
		r, isR := x.plain(iv.V, st).(*Ref)
		if !isP || !isR || kind != "*cli.StringFlag" && kind != "*cli.BoolFlag" {
			unsup("flag of type %s", kind)
		}
		u, _ := isStruct(pt.Elem())
		sv, ok := x.load(r, pt.Elem(), st).(*StructV)
		if !ok {
			unsup("flag value")
		}
		get := func(n string) Value {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == n {
					return x.plain(sv.F[i], st)
				}
			}
			unsup("flag field %s", n)
			return nil
		}
		var names []string
		n := x.strArg(get("Name"), st)
		names = append(names, n.S)
		switch al := get("Aliases").(type) {
		case *SeqV:
			for _, a := range al.E {
				names = append(names, x.strArg(a, st).S)
			}
		case *Term:
			if al.Op != OSeqEmpty {
				unsup("flag aliases")
			}
		}
		v, set := get("Value"), false
		for _, n := range names {
			if g, ok := given[n]; ok {
				iv := g.(*IfaceV)
				if (kind == "*cli.BoolFlag") != (typeName(iv.T) == "bool") {
					unsup("option %s given as %s", n, typeName(iv.T))
				}
				v, set = iv.V, true
				delete(given, n)
			}
		}
		if get("Required").(*Term) == TTrue && !set {
			return fail("required option")
		}
		for _, n := range names {
			if cv.kind[n] != "" {
				unsup("option name %s is used twice", n)
			}
			cv.kind[n], cv.val[n] = kind, v
		}
	}
	if len(given) > 0 {
		return fail("unknown option")
	}
	return x.callValue(fr, x.plain(args[1], st), fn.Signature.Params().At(1).Type().Underlying().(*types.Signature),
		[]Value{&OpaqueV{Kind: "cli", Data: cv}}, st, x.siteName(fr, "cli"), pos)
}

func (x *Exec) siteName(fr *Frame, n string) string {
	if x.curCall != nil {
		return n + "." + x.curCall.Name()
	}
	return n
}

func (x *Exec) cliGet(c Value, kind string, name *Term, st *State) Value {
	o, ok := x.plain(c, st).(*OpaqueV)
	if !ok || o.Kind != "cli" || !name.isStr() {
		unsup("command line context %T", c)
	}
	cv := o.Data.(*cliV)
	switch k := cv.kind[name.S]; {
	case k == kind:
		return cv.val[name.S]
	case k == "" && kind == "*cli.StringFlag":
		return mkStr("")
	case k == "":
		return TFalse
	}
	unsup("option %s is read as another type", name.S)
	return nil
}

// cloneValue: a frozen copy of a value.
func (x *Exec) cloneValue(v Value, st *State) Value {
	v = x.plain(v, st)
	switch a := v.(type) {
	case *IfaceV:
		if pt, ok := a.T.Underlying().(*types.Pointer); ok {
			if r, ok := a.V.(*Ref); ok {
				t := x.toTermQ(x.load(r, pt.Elem(), st), pt.Elem(), st)
				c := x.newCell(fmt.Sprintf("clone!%d", x.cellCtr), pt.Elem(), x.explode(t, pt.Elem(), st), st)
				return &IfaceV{T: a.T, V: &Ref{Cell: c}}
			}
		}
		t := x.toTermQ(a.V, a.T, st)
		if _, ok := a.T.Underlying().(*types.Map); ok && !x.isNilMap(a.V, st) {
			return &IfaceV{T: a.T, V: &MapRef{Cell: x.newCell(fmt.Sprintf("clone!%d", x.cellCtr), a.T, t, st)}}
		}
		return &IfaceV{T: a.T, V: t}
	case *IteV:
		return &IteV{C: a.C, A: x.cloneValue(a.A, st), B: x.cloneValue(a.B, st)}
	}
	return v
}

// explode turns a struct term into a struct value.
func (x *Exec) explode(t *Term, ty types.Type, st *State) Value {
	u, ok := isStruct(ty)
	if !ok || opaqueTypes[typeName(ty)] {
		return t
	}
	sv := &StructV{T: ty}
	for i := 0; i < u.NumFields(); i++ {
		sv.F = append(sv.F, x.explode(x.field(t, i, st).(*Term), u.Field(i).Type(), st))
	}
	return sv
}

func (x *Exec) isNilMap(v Value, st *State) bool { _, ok := x.plain(v, st).(*NilV); return ok }

func (x *Exec) errTextOf(fr *Frame, v Value, st *State) Value {
	v = x.plain(v, st)
	switch a := v.(type) {
	case *IteV:
		return x.mergeV(a.C, x.errTextOf(fr, a.A, st), x.errTextOf(fr, a.B, st), nil, st)
	case *NilV:
		return mkStr("")
	case *IfaceV:
		return x.errString(fr, a, st)
	case *Term:
		return mkIte(mkIs("any.nil", a), mkStr(""), mkApp("errText", StrS, a))
	}
	unsup("ErrText of %T", v)
	return nil
}

func (x *Exec) specForall(fr *Frame, args []Value, st *State, pos token.Pos) *Term {
	lo, hi := x.intTerm(args[0], st), x.intTerm(args[1], st)
	body, bv := x.quantBody(fr, args[2], st, pos)
	return mkForall(lo, hi, bv, body)
}
func (x *Exec) specForallNeg(fr *Frame, args []Value, st *State, pos token.Pos) *Term {
	lo, hi := x.intTerm(args[0], st), x.intTerm(args[1], st)
	body, bv := x.quantBody(fr, args[2], st, pos)
	return mkForall(lo, hi, bv, mkNot(body))
}

func (x *Exec) quantBody(fr *Frame, f Value, st *State, pos token.Pos) (*Term, *Term) {
	bv := mkVar(fmt.Sprintf("bv%d!Int", x.qDepth), IntS)
	x.qDepth++
	sp := x.spec
	x.spec = true
	nf := len(x.facts)
	s2 := st.clone()
	s2.G = TTrue
	cl, ok := f.(*ClosureV)
	if !ok {
		unsup("quantifier over %T", f)
	}
	v := x.callStatic(fr, cl.Fn, []Value{bv}, cl.B, s2, "quant", pos)
	x.spec = sp
	x.qDepth--
	// facts produced under the binder mention the bound variable: drop those
	keep := x.facts[:nf:nf]
	for _, t := range x.facts[nf:] {
		if !mentions(t, bv) {
			keep = append(keep, t)
		}
	}
	x.facts = keep
	if v == nil {
		return TFalse, bv // undefined at every index: holds only of empty ranges
	}
	return x.boolTerm(v, s2), bv
}

func mentions(t, v *Term) bool {
	found := false
	collect([]*Term{t}, func(s *Term) {
		if s == v {
			found = true
		}
	})
	return found
}

// specEq: structural equality of two interface-wrapped values.
func (x *Exec) specEq(a, b Value, st *State) *Term {
	a, b = x.plain(a, st), x.plain(b, st)
	if ia, ok := a.(*IteV); ok {
		return mkIte(ia.C, x.specEq(ia.A, b, st), x.specEq(ia.B, b, st))
	}
	if ib, ok := b.(*IteV); ok {
		return mkIte(ib.C, x.specEq(a, ib.A, st), x.specEq(a, ib.B, st))
	}
	ia, ok1 := a.(*IfaceV)
	ib, ok2 := b.(*IfaceV)
	if ok1 && ok2 {
		if !types.Identical(ia.T, ib.T) {
			if sortOf(ia.T) != sortOf(ib.T) {
				return TFalse
			}
		}
		return x.structEq(ia.V, ib.V, ia.T, st)
	}
	return mkEq(x.toTermQ(a, types.NewInterfaceType(nil, nil), st), x.toTermQ(b, types.NewInterfaceType(nil, nil), st))
}

func (x *Exec) structEq(a, b Value, t types.Type, st *State) *Term {
	a, b = x.plain(a, st), x.plain(b, st)
	if ia, ok := a.(*IteV); ok {
		return mkIte(ia.C, x.structEq(ia.A, b, t, st), x.structEq(ia.B, b, t, st))
	}
	if ib, ok := b.(*IteV); ok {
		return mkIte(ib.C, x.structEq(a, ib.A, t, st), x.structEq(a, ib.B, t, st))
	}
	if u, ok := t.Underlying().(*types.Slice); ok {
		sa, k1 := a.(*SeqV)
		sb, k2 := b.(*SeqV)
		if k1 && k2 {
			if len(sa.E) != len(sb.E) {
				return TFalse
			}
			var cs []*Term
			for i := range sa.E {
				cs = append(cs, x.structEq(sa.E[i], sb.E[i], u.Elem(), st))
			}
			return mkAnd(cs...)
		}
	}
	if u, ok := isStruct(t); ok && !opaqueTypes[typeName(t)] {
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.structEq(x.field(a, i, st), x.field(b, i, st), u.Field(i).Type(), st))
		}
		return mkAnd(cs...)
	}
	if isIface(t) {
		return x.specEq(a, b, st)
	}
	return mkEq(x.toTermQ(a, t, st), x.toTermQ(b, t, st))
}

func jsonKeys(t types.Type) string {
	u, ok := isStruct(t)
	if !ok {
		unsup("JSONKeys of %s", t)
	}
	var out []string
	for i := 0; i < u.NumFields(); i++ {
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		out = append(out, u.Field(i).Name()+"="+tag)
	}
	return strings.Join(out, " ")
}
