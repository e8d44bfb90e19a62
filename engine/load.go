package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lechuckroh/octopus-db-tools"
const specPkg = modPath + "/verifspec"

type Program struct {
	Prog        *ssa.Program
	Pkgs        []*packages.Package
	Repo        string
	overlay     map[string]string // repo path -> contract file
	contractPos map[string]bool   // repo paths of overlaid contract files
	written     map[*ssa.Global]bool
	changing    map[*ssa.Global]map[string]bool
	loopCache   map[*ssa.Function]*LoopForest
	logic       map[*ssa.Function]bool
	harnesses   []*Harness
	invs        map[string][]*ssa.Function // property id -> invariant templates
	uses        []*useDecl
	impl        map[string][]types.Type
	logicApps   map[int]*logicApp
	specFnCache map[*Harness][]*ssa.Function
	mutCache    map[*ssa.Function]*mutAnalysis
	constUnfold map[int]*Term
	spec        map[string]*ssa.Function // functions of package verifspec
	byName      map[string]*ssa.Function
	broken      map[string]string // package path -> load error (contract code does not compile)
	init        *initState
	upCache     map[*ssa.Function]bool
}

type initState struct {
	done bool
}

type useDecl struct {
	memo     map[string]bool
	modifies map[string]bool
	target   string
	repl     *ssa.Function
	by       string
}

type Harness struct {
	Fn        *ssa.Function
	Prop      string
	Name      string
	Pkg       string // import path
	Bounded   int
	Opaque    map[string]bool
	Effect    map[string]bool
	Assumed   map[string]string // effect taken to be deterministic
	Invs      []*ssa.Function
	NoUse     map[string]bool
	Doc       string
	Native    bool // only native (replay) use
	NoNat     bool // not usable natively
	ByContent bool // pointer identity is equality of contents
}

// overlayFiles maps /repo paths to contract files.
func overlayFiles(repo, contracts string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, p)
		dir, base := filepath.Split(rel)
		if dir == "verifspec/" {
			m[filepath.Join(repo, dir, base)] = p
		} else {
			if dir == "main/" {
				dir = ""
			}
			m[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		}
		return nil
	})
	return m, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GO111MODULE", "GOWORK", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off")
}

func loadProgram(repo, contracts string) (*Program, error) {
	ov, err := overlayFiles(repo, contracts)
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, overlay: ov, contractPos: map[string]bool{}, loopCache: map[*ssa.Function]*LoopForest{}, logic: map[*ssa.Function]bool{},
		invs: map[string][]*ssa.Function{}, impl: map[string][]types.Type{}, logicApps: map[int]*logicApp{}, specFnCache: map[*Harness][]*ssa.Function{}, mutCache: map[*ssa.Function]*mutAnalysis{}, constUnfold: map[int]*Term{}, spec: map[string]*ssa.Function{},
		byName: map[string]*ssa.Function{}, broken: map[string]string{}, upCache: map[*ssa.Function]bool{}}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
		p.contractPos[dst] = true
	}
	load := func() ([]*packages.Package, error) {
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
			Dir:  repo, Overlay: overlay, Env: goEnv(),
		}
		return packages.Load(cfg, "./...")
	}
	pkgs, err := load()
	if err != nil {
		return nil, err
	}
	// contract files that do not fit the current code are set aside: what
	// they decide is reported as undischarged.
	for round := 0; round < 6; round++ {
		bad := map[string]string{}
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				file := strings.Split(e.Pos, ":")[0]
				if overlay[file] != nil {
					bad[file] = e.Error()
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		for f, msg := range bad {
			p.broken[ov[f]] = msg
			delete(overlay, f)
		}
		if pkgs, err = load(); err != nil {
			return nil, err
		}
	}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not load: %v", pk.PkgPath, e)
		}
	}
	p.Pkgs = pkgs
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		if sp.Pkg.Path() == specPkg {
			for n, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok {
					p.spec[n] = f
				}
			}
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				p.byName[shortFn(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for k := 0; k < ms.Len(); k++ {
						if f := prog.MethodValue(ms.At(k)); f != nil {
							p.byName[shortFn(f)] = f
						}
					}
				}
			}
		}
		p.scan(pkgs[i], sp)
	}
	p.findLogic()
	sort.Slice(p.harnesses, func(i, j int) bool { return p.harnesses[i].Name < p.harnesses[j].Name })
	for _, h := range p.harnesses {
		h.Invs = p.invs[h.Prop]
	}
	return p, nil
}

// scan finds harnesses, invariant templates and contract uses in contract files.
func (p *Program) scan(pk *packages.Package, sp *ssa.Package) {
	for _, f := range pk.Syntax {
		fname := pk.Fset.Position(f.Pos()).Filename
		if !p.contractPos[fname] {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			name := fd.Name.Name
			fn := sp.Func(name)
			if fn == nil {
				continue
			}
			var dirs []string
			doc := ""
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:") {
						dirs = append(dirs, strings.TrimPrefix(c.Text, "//verif:"))
					} else {
						doc += strings.TrimSpace(strings.TrimPrefix(c.Text, "//")) + " "
					}
				}
			}
			parts := strings.Split(name, "_")
			switch {
			case parts[0] == "Verif" && len(parts) >= 3:
				h := &Harness{Fn: fn, Prop: parts[1], Name: pkgDir(pk.PkgPath) + "." + name, Pkg: pk.PkgPath, Opaque: map[string]bool{}, Effect: map[string]bool{}, Assumed: map[string]string{}, NoUse: map[string]bool{}, Doc: strings.TrimSpace(doc)}
				for _, d := range dirs {
					w := strings.Fields(d)
					switch w[0] {
					case "bounded":
						h.Bounded, _ = strconv.Atoi(w[1])
					case "opaque":
						for _, o := range w[1:] {
							h.Opaque[o] = true
						}
					case "assume-effect":
						h.Effect[w[1]] = true
						h.Assumed[w[1]] = "assumed"
					case "effect":
						for _, o := range w[1:] {
							h.Effect[o] = true
						}
					case "nouse":
						for _, o := range w[1:] {
							h.NoUse[o] = true
						}
					case "native-only":
						h.Native = true
					case "no-native":
						h.NoNat = true
					case "identity": // identity content
						h.ByContent = true
					}
				}
				p.harnesses = append(p.harnesses, h)
			case parts[0] == "VInv" && len(parts) >= 3:
				p.invs[parts[1]] = append(p.invs[parts[1]], fn)
			}
			for _, d := range dirs {
				w := strings.Fields(d)
				if w[0] == "use" { // use <target> by <harness>
					u := &useDecl{target: w[1], repl: fn}
					if len(w) >= 4 {
						u.by = w[3]
					}
					u.modifies, u.memo = map[string]bool{}, map[string]bool{}
					for _, d2 := range dirs {
						if w2 := strings.Fields(d2); w2[0] == "memo" {
							for _, m := range w2[1:] {
								u.memo[m] = true
							}
						} else if w2[0] == "modifies" {
							for _, m := range w2[1:] {
								u.modifies[m] = true
							}
						}
					}
					p.uses = append(p.uses, u)
				}
			}
		}
	}
}

func (p *Program) findLogic() {
	// functions of contract files that can reach themselves through static calls
	calls := map[*ssa.Function][]*ssa.Function{}
	var cf []*ssa.Function
	for _, f := range p.byName {
		if p.isContractFn(f) {
			cf = append(cf, f)
		}
	}
	for _, f := range cf {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if s := c.Common().StaticCallee(); s != nil && p.isContractFn(s) {
						calls[f] = append(calls[f], s)
					}
				}
			}
		}
	}
	for _, f := range cf {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, calls[f]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == f {
				p.logic[f] = true
				break
			}
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, calls[g]...)
		}
	}
}

// upwardFn: a logical function whose recursive calls pass index+1.
func (p *Program) upwardFn(fn *ssa.Function) bool {
	if r, ok := p.upCache[fn]; ok {
		return r
	}
	up := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Common().StaticCallee() != fn {
				continue
			}
			for _, a := range c.Common().Args {
				if bo, ok := a.(*ssa.BinOp); ok && bo.Op == token.ADD && sortIsInt(bo.Type()) {
					if _, ok := bo.X.(*ssa.Parameter); ok {
						if _, ok := bo.Y.(*ssa.Const); ok {
							up = true
						}
					}
				}
			}
		}
	}
	p.upCache[fn] = up
	return up
}

func (p *Program) loops(fn *ssa.Function) *LoopForest {
	if f, ok := p.loopCache[fn]; ok {
		return f
	}
	f := buildLoops(fn)
	p.loopCache[fn] = f
	return f
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.Prog.Fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.Repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) isContractFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if !f.Pos().IsValid() {
		return false
	}
	return p.contractPos[p.Prog.Fset.Position(f.Pos()).Filename]
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Origin() != nil {
		return fnPkgPath(f.Origin())
	}
	return ""
}

func (p *Program) inModule(f *ssa.Function) bool {
	pp := fnPkgPath(f)
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

// inlineExternal: dependency functions whose own source is executed.
func (p *Program) inlineExternal(name string) bool { return inlineExternals[name] }

var inlineExternals = map[string]bool{}

func (p *Program) contractFor(fn *ssa.Function, h *Harness) (*ssa.Function, string) {
	if len(p.uses) == 0 {
		return nil, ""
	}
	sf := shortFn(fn)
	for _, u := range p.uses {
		if u.target == sf {
			if h != nil && (h.NoUse[sf] || h.NoUse["*"] || strings.HasSuffix(h.Name, "."+u.by)) {
				return nil, ""
			}
			return u.repl, u.by
		}
	}
	return nil, ""
}

// provedHere: h is the harness that proves the contract of fn.
func (p *Program) provedHere(fn *ssa.Function, h *Harness) *useDecl {
	if len(p.uses) == 0 || h == nil {
		return nil
	}
	sf := shortFn(fn)
	for _, u := range p.uses {
		if u.target == sf && u.by != "" && strings.HasSuffix(h.Name, "."+u.by) {
			return u
		}
	}
	return nil
}

func (p *Program) isContract(fn *ssa.Function) bool {
	for _, u := range p.uses {
		if u.repl == fn {
			return true
		}
	}
	return false
}

// provedIn: h is the harness that proves contract fn (or fn is no used contract).
func (p *Program) provedIn(fn *ssa.Function, h *Harness) bool {
	for _, u := range p.uses {
		if u.repl == fn {
			return strings.HasSuffix(h.Name, "."+u.by) && u.by != ""
		}
	}
	return true
}

func (p *Program) isLogic(fn *ssa.Function) bool { return p.logic[fn] }

func (p *Program) implementers(it *types.Interface) []types.Type {
	key := it.String()
	if ts, ok := p.impl[key]; ok {
		return ts
	}
	var ts []types.Type
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, it) {
				ts = append(ts, t)
			} else if pt := types.NewPointer(t); types.Implements(pt, it) {
				ts = append(ts, pt)
			}
		}
	}
	p.impl[key] = ts
	return ts
}

// keySeqFacts: a map range visits every key exactly once, in any order.
func (p *Program) keySeqFacts(x *Exec, keys, dom *Term, st *State) {
	bv := mkVar(fmt.Sprintf("bv%d!%s", x.qDepth, "Int"), IntS)
	x.fact(mkImplies(st.G, mkForall(mkInt(0), mkSeqLen(keys), bv, mkSelect(dom, mkSeqNth(keys, bv)))))
	if keys.Sort == seqSort(StrS) {
		// sorting the visited keys gives the canonical sorted key list
		x.fact(mkImplies(st.G, mkEq(mkApp("sort.Strings", keys.Sort, keys), mkApp("sortedKeys", keys.Sort, dom))))
		sorted := mkApp("sortedKeys", keys.Sort, dom)
		x.fact(mkImplies(st.G, mkEq(mkSeqLen(sorted), mkSeqLen(keys))))
		// the same keys, in another order
		at := func(name string, a, b *Term) {
			i := mkApp(name, IntS, keys, bv)
			x.fact(mkImplies(st.G, mkForall(mkInt(0), mkSeqLen(keys), bv,
				mkAnd(mkLe(mkInt(0), i), mkLt(i, mkSeqLen(keys)), mkEq(mkSeqNth(a, bv), mkSeqNth(b, i))))))
		}
		at("keypos", keys, sorted)
		at("keyvisit", sorted, keys)
	}
}

// ---------------------------------------------------------------- globals

// initGlobals runs the initialisers of every package of the module on st.
func (x *Exec) initGlobals(st *State) {
	x.inInit = true
	defer func() { x.inInit = false }()
	order := p_initOrder(x.P)
	for _, sp := range order {
		// allocate all globals first
		var gs []*ssa.Global
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			x.globalCell(g, st)
		}
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, ok := e.(unsupported); ok {
						for _, g := range gs {
							st.Cells[x.globals[g]] = &CellState{V: &OpaqueV{Kind: "poison: " + u.msg}}
						}
						return
					}
					panic(e)
				}
			}()
			x.stack = nil
			nf := len(x.facts)
			s2, _ := x.callFn(fn, nil, nil, st, "init:"+sp.Pkg.Path())
			_ = nf
			st.Cells = s2.Cells
			st.G = TTrue
		}()
	}
	x.stack = nil
	x.obls = nil
}

func p_initOrder(p *Program) []*ssa.Package {
	var out []*ssa.Package
	seen := map[string]bool{}
	var visit func(pk *packages.Package)
	visit = func(pk *packages.Package) {
		if seen[pk.PkgPath] {
			return
		}
		seen[pk.PkgPath] = true
		var imps []string
		for k := range pk.Imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		for _, k := range imps {
			visit(pk.Imports[k])
		}
		if pk.PkgPath == modPath || strings.HasPrefix(pk.PkgPath, modPath+"/") {
			if sp := p.Prog.ImportedPackage(pk.PkgPath); sp != nil {
				out = append(out, sp)
			}
		}
	}
	for _, pk := range p.Pkgs {
		visit(pk)
	}
	return out
}

func (p *Program) globInit(x *Exec, g *ssa.Global) *CellState {
	if g.Pkg != nil && (g.Pkg.Pkg.Path() == modPath || strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/")) {
		return &CellState{V: zeroValue(g.Type().Underlying().(*types.Pointer).Elem())}
	}
	return &CellState{V: &OpaqueV{Kind: "external variable " + g.String()}}
}

// pkgDir is the directory of a package of the module ("main": the root).
func pkgDir(path string) string {
	if path == modPath {
		return "main"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// changingGlobals are the variables of the module that are set outside
// initialisation, with the functions that mention them.
func (p *Program) changingGlobals() map[*ssa.Global]map[string]bool {
	if p.changing != nil {
		return p.changing
	}
	stored := map[*ssa.Global]bool{}
	users := map[*ssa.Global]map[string]bool{}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if !p.inModule(fn) || fn.Name() == "init" || p.isContractFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if users[g] == nil {
						users[g] = map[string]bool{}
					}
					users[g][shortFn(fn)] = true
					if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							stored[g] = true
						}
					}
				}
			}
		}
	}
	p.changing = map[*ssa.Global]map[string]bool{}
	for g := range stored {
		p.changing[g] = users[g]
	}
	return p.changing
}

// memoOf: the global is a memo of the function of u (only it mentions it, so
// what it leaves there is what its contract says).
func (p *Program) memoOf(u *useDecl, g *ssa.Global) bool {
	if !u.memo[g.Pkg.Pkg.Name()+"."+g.Name()] {
		return false
	}
	for f := range p.changingGlobals()[g] {
		if f != u.target {
			unsup("%s is mentioned in %s, not only in %s", g, f, u.target)
		}
	}
	return true
}

// nativeOnly: the contract is executed, not proved.
func (p *Program) nativeOnly(by string) bool {
	for _, h := range p.harnesses {
		if by != "" && strings.HasSuffix(h.Name, "."+by) {
			return h.Native
		}
	}
	return false
}
