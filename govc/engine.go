package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	fset      *token.FileSet
	spec      *Spec
	contracts map[string]*Contract
	pkgPath   map[string]*types.Package
	pkgName   map[string]*types.Package
	fns       map[string]*ssa.Function
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loop
	guards    map[string]*Guard
	chanInv   map[string]*Contract
	closes    map[string]bool // element types of the channels the repository closes somewhere
	onlyTag   string
	fz        *feas
	pool      *pool
	inlined   map[string]map[string]bool
	callees   map[string]map[string]bool
	sent      map[*ssa.Global]*Term
	sentKnown map[*ssa.Global]bool
	gh        map[string][]ghostDecl
	stored    map[*ssa.Global]bool
}

var theEngine *Engine

func isErrorT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func newConst(c *types.Const) *ssa.Const {
	return ssa.NewConst(c.Val(), c.Type())
}

var _ = constant.MakeBool

func loadEngine(repo, specDir string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly"),
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	for _, p := range spkgs {
		if p != nil {
			p.Build()
		}
	}
	e := &Engine{prog: prog, fset: prog.Fset, pkgPath: map[string]*types.Package{}, pkgName: map[string]*types.Package{}, fns: map[string]*ssa.Function{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, guards: map[string]*Guard{}, chanInv: map[string]*Contract{}, closes: map[string]bool{}, inlined: map[string]map[string]bool{},
		callees: map[string]map[string]bool{}, sent: map[*ssa.Global]*Term{}, sentKnown: map[*ssa.Global]bool{}, stored: map[*ssa.Global]bool{}}
	theEngine = e
	for _, p := range spkgs {
		if p != nil {
			e.pkgs = append(e.pkgs, p)
		}
	}
	// packages by path and name
	seen := map[*types.Package]bool{}
	var all []*types.Package
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		all = append(all, p)
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	for _, p := range pk {
		if p.Types != nil {
			walk(p.Types)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Path() < all[j].Path() })
	for _, p := range all {
		if _, ok := e.pkgPath[p.Path()]; !ok {
			e.pkgPath[p.Path()] = p
		}
	}
	for _, p := range all {
		if !strings.HasPrefix(p.Path(), repoModule) || p.Name() == "main" {
			continue
		}
		e.pkgName[p.Name()] = p
	}
	for pass := 0; pass < 2; pass++ {
		for _, p := range all {
			std := !strings.Contains(strings.SplitN(p.Path(), "/", 2)[0], ".")
			if pass == 0 && (!std || strings.Contains(p.Path(), "internal") || strings.HasPrefix(p.Path(), "vendor/")) {
				continue
			}
			if _, ok := e.pkgName[p.Name()]; !ok {
				e.pkgName[p.Name()] = p
			}
		}
	}
	for _, p := range e.pkgs {
		if p.Pkg.Name() == "main" {
			e.pkgName[lastPath(p.Pkg.Path())] = p.Pkg
		}
	}
	// functions
	for fn := range ssautil.AllFunctions(prog) {
		if e.inRepo(fn) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			e.fns[fnName(fn)] = fn
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							if ct, ok := c.Common().Args[0].Type().Underlying().(*types.Chan); ok {
								e.closes[typePath(ct.Elem())] = true
							}
						}
					}
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							e.stored[g] = true
						}
					}
				}
			}
		}
	}
	// an error variable is a sentinel only when it is made by errors.New
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Name() != "init" || fn.Synthetic == "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && isErrorT(derefT(g.Type())) {
						if c, ok := s.Val.(*ssa.Call); !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "errors.New" {
							e.stored[g] = true
						}
					}
				}
			}
		}
	}
	e.spec = loadSpecs(specDir)
	e.contracts = e.spec.contracts
	e.gh = map[string][]ghostDecl{}
	var gn []string
	for n := range e.spec.ghosts {
		gn = append(gn, n)
	}
	sort.Strings(gn)
	for _, n := range gn {
		g := e.spec.ghosts[n]
		e.gh[g.on] = append(e.gh[g.on], g)
	}
	e.fz = newFeas()
	return e, nil
}

func lastPath(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

func (e *Engine) ghostsOf(tp string) []ghostDecl { return e.gh[tp] }

func (e *Engine) setup() (err error) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				err = fmt.Errorf("contracts: %s", u.msg)
				return
			}
			panic(x)
		}
	}()
	ex := &Exec{eng: e, ct: &Contract{Name: "setup"}, used: map[string]bool{}}
	for _, g := range e.spec.guards {
		e.addGuard(g)
	}
	for i, t := range e.spec.chanTy {
		e.chanInv[typePath(e.typeOf(t))] = e.spec.chanInv[i]
	}
	for _, ct := range e.contracts {
		for _, a := range ct.OnSend {
			a.tpath = typePath(e.typeOf(a.ty))
		}
		for _, a := range ct.LoopInv {
			if a.ty != nil {
				a.tpath = typePath(e.typeOf(a.ty))
			}
		}
	}
	st := newState()
	env := &specEnv{ex: ex, st: st, old: st, vars: map[string]Val{}, ct: ex.ct}
	for _, a := range e.spec.axioms {
		t := env.boolE(a.E)
		// attach to the spec functions it mentions
		syms := map[string]bool{}
		scan(t, map[*Term]bool{}, func(x *Term) {
			if x.kind == 'f' && (strings.HasPrefix(x.Op, "spec.") || strings.HasPrefix(x.Op, "pure.")) {
				syms[x.Op] = true
			}
		})
		for s := range syms {
			extraAxioms[s] = append(extraAxioms[s], t)
		}
	}
	return nil
}

func (e *Engine) addGuard(g guardDecl) {
	split := func(s string) (types.Type, int) {
		i := strings.LastIndexByte(s, '.')
		ty := e.typeOf(&TypeX{kind: "named", name: s[:i]})
		st := ty.Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == s[i+1:] {
				return ty, j
			}
		}
		panic(unsupported{"guard: no field " + s})
	}
	ft, fi := split(g.field)
	if g.lock == "nothing" { // set once, before the object is shared
		gd := &Guard{Field: kField(ft, fi), Tags: g.tags, fty: ft.Underlying().(*types.Struct).Field(fi).Type(), none: true}
		e.guards[gd.Field] = gd
		return
	}
	lt, li := split(g.lock)
	gd := &Guard{Field: kField(ft, fi), Tags: g.tags, fty: ft.Underlying().(*types.Struct).Field(fi).Type(), sty: lt, lidx: li}
	lty := lt.Underlying().(*types.Struct).Field(li).Type()
	if isOpaqueStruct(lty) {
		gd.nested = true
	} else {
		gd.Lock = kField(lt, li)
	}
	e.guards[gd.Field] = gd
}

func (e *Engine) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		if fn.Origin() != nil {
			return e.inRepo(fn.Origin())
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), repoModule)
		}
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule)
}

func (e *Engine) noEffect(path string) bool {
	for _, p := range e.spec.noEffect {
		if p == path || strings.HasSuffix(p, "/...") && strings.HasPrefix(path, strings.TrimSuffix(p, "...")) {
			return true
		}
	}
	return false
}
func (e *Engine) valuePtr(t types.Type) bool {
	tp := typePath(t)
	for _, p := range e.spec.valuePtr {
		if p == tp {
			return true
		}
	}
	return false
}
func (e *Engine) global(p *types.Package, n string) *ssa.Global {
	sp := e.prog.Package(p)
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[n].(*ssa.Global)
	return g
}

// sentinel: an error variable that is set once, by its package's initialiser
func (e *Engine) sentinel(g *ssa.Global) *Term {
	if e.sentKnown[g] {
		return e.sent[g]
	}
	e.sentKnown[g] = true
	if !isErrorT(derefT(g.Type())) || e.stored[g] {
		return nil
	}
	t := Const("err!"+sanitize(typePkgName(g)), SIface)
	e.sent[g] = t
	return t
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	l, ok := e.loops[fn]
	if !ok {
		l = findLoops(fn)
		e.loops[fn] = l
	}
	return l
}
func (e *Engine) feasible(st *State) bool { return e.fz.check(st) }
func (e *Engine) submit(o *Obl)           { e.pool.submit(o) }
func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
func (e *Engine) noteInlined(ex *Exec, fn *ssa.Function) {
	m := e.inlined[ex.ct.Name]
	if m == nil {
		m = map[string]bool{}
		e.inlined[ex.ct.Name] = m
	}
	m[fnName(fn)] = true
}
func (e *Engine) noteCallee(ex *Exec, ct *Contract) {
	m := e.callees[ex.ct.Name]
	if m == nil {
		m = map[string]bool{}
		e.callees[ex.ct.Name] = m
	}
	m[ct.Name] = true
}

// ---------- verifying one function ----------
type FnResult struct {
	Name    string
	Obls    []*Obl
	Smoke   []*Obl
	Err     string
	Returns int
	Steps   int
	Paths   int
	Used    map[string]bool
	Pos     string
	Support bool
}

func (e *Engine) verify(ct *Contract, all bool) (r *FnResult) {
	r = &FnResult{Name: ct.Name, Used: map[string]bool{}, Support: all}
	fn := e.fns[ct.Name]
	if fn == nil {
		r.Err = "function not found in the source: " + ct.Name
		return
	}
	r.Pos = e.pos(fn.Pos())
	ex := &Exec{eng: e, root: fn, ct: ct, used: r.Used, all: all}
	defer func() {
		r.Obls = ex.obls
		r.Returns = ex.reach
		r.Steps = ex.steps
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				r.Err = "outside the verifier's reach: " + u.msg
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(x)
			}
			r.Err = fmt.Sprintf("internal error: %v", x)
		}
	}()
	if len(ct.Params) != len(fn.Params) {
		r.Err = fmt.Sprintf("contract has %d parameters, function has %d", len(ct.Params), len(fn.Params))
		return
	}
	if fn.Signature.Results().Len() != len(ct.Results) && len(ct.Results) > 0 {
		r.Err = fmt.Sprintf("contract has %d results, function has %d", len(ct.Results), fn.Signature.Results().Len())
		return
	}
	st := newState()
	st.mem[lockKey] = ConstArr(keySorts[lockKey], Int(0))
	st.mem[spawnKey] = ConstArr(keySorts[spawnKey], False)
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}}
	env := &specEnv{ex: ex, vars: map[string]Val{}, ct: ct}
	for i, p := range fn.Params {
		v := ex.paramVal(st, p.Type(), ct.Params[i])
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(Gt(v.t, Int(0)))
			}
		}
		fr.regs[p] = v
		env.vars[ct.Params[i]] = v
		ex.params = append(ex.params, v)
	}
	env.st, env.old = st, st
	// locks held at entry
	for _, rq := range ct.Requires {
		for _, c := range conjuncts(rq.E) {
			if c.op == "call" && (c.s == "held" || c.s == "wheld" || c.s == "rheld") {
				a, _ := env.addr(c.args[1])
				v := Int(1)
				if c.s == "rheld" {
					v = Int(2)
				}
				if c.s == "held" {
					f := Fresh("lockmode", SInt)
					st.assume(Or(Eq(f, Int(1)), Eq(f, Int(2))))
					v = f
				}
				st.mem[lockKey] = Store(st.mem[lockKey], a, v)
				st.held[a] = true
			}
		}
	}
	for _, rq := range ct.Requires {
		g := env.boolE(rq.E)
		st.assume(g)
		ex.heapFacts(st, g, true)
	}
	if st.dead || !e.feasible(st) {
		r.Err = "the preconditions are contradictory"
		return
	}
	old := st.clone()
	ex.oldSt = old
	entryLocks := st.get(lockKey)
	fr.ret = func(st *State, res []Val) {
		if st.dead {
			return
		}
		ex.reach++
		renv := *env
		renv.vars = map[string]Val{}
		for k, v := range env.vars {
			renv.vars[k] = v
		}
		renv.st = st
		renv.old = old
		var rs []Val
		for i, v := range res {
			v = Val{t: ex.termOf(st, v), ty: fn.Signature.Results().At(i).Type()}
			rs = append(rs, v)
			if i < len(ct.Results) {
				renv.vars[ct.Results[i]] = v
			}
		}
		renv.result = rs
		// keys touched late must exist in the entry state too
		for k := range st.mem {
			old.get(k)
		}
		for _, in := range ct.Inits {
			ex.ghostInit(st, old, &renv, in, fn.Pos())
		}
		for _, en := range ct.Ensures {
			tags := en.Tags
			if len(tags) == 0 {
				tags = ct.Tags
			}
			if !ex.wanted(tags) {
				continue
			}
			g := renv.boolE(en.E)
			ex.mergeOld(st, old)
			ex.obligeNoAssume(st, g, "ensures", tags, "postcondition: "+en.Text, fn.Pos())
		}
		if len(ex.smoke) < 4 {
			ex.smoke = append(ex.smoke, st.factList())
		}
		if ex.all || ex.wanted(ct.Tags) {
			ex.frame(st, old, env, fn.Pos())
		}
		if len(ct.LockTags) > 0 && ex.wantedTag(ct.LockTags) {
			ex.obligeNoAssume(st, Eq(st.get(lockKey), entryLocks), "lock", ct.LockTags, "every lock taken is released on return", fn.Pos())
		}
	}
	ex.enterFn(st, fr)
	for _, fs := range ex.smoke {
		o := &Obl{Fn: ct.Name, Kind: "smoke", Label: "the end of a path is not contradictory", goal: False, facts: fs}
		r.Smoke = append(r.Smoke, o)
		e.submit(o)
	}
	for n, l := range ct.AtCall {
		for _, a := range l {
			tags := a.Tags
			if len(tags) == 0 {
				tags = ct.Tags
			}
			if ex.wanted(tags) && !ex.fired[a] {
				r.Err = "no path of the function reaches a call of " + n + ", of which its contract speaks"
			}
		}
	}
	for _, a := range ct.OnSend {
		tags := a.Tags
		if len(tags) == 0 {
			tags = ct.Tags
		}
		if ex.wanted(tags) && !ex.fired[a] {
			r.Err = "no path of the function sends a " + a.tpath + ", of which its contract speaks"
		}
	}
	if ex.reach == 0 {
		r.Err = "no path of the function returns (vacuous verification)"
	}
	return
}

// mergeOld: side facts assumed while evaluating in the entry state
func (ex *Exec) mergeOld(st, old *State) {
	for f := old.facts; f != nil; f = f.parent {
		if st.seen[f.t] {
			continue
		}
		st.assume(f.t)
	}
}

func conjuncts(e *Expr) []*Expr {
	if e.op == "bin" && e.s == "&&" {
		return append(conjuncts(e.args[0]), conjuncts(e.args[1])...)
	}
	return []*Expr{e}
}

func (ex *Exec) paramVal(st *State, ty types.Type, name string) Val {
	s := sortOf(ty)
	if s == SSlice {
		t := MkSlice(Const("p."+sanitize(name)+".arr", SInt), Int(0), Const("p."+sanitize(name)+".len", SInt))
		st.fix(t, ty)
		if isByteSlice(ty) {
			row := st.sel(st.get(kElem(ty.Underlying().(*types.Slice).Elem())), SArr(t))
			st.assume(Eq(StrLen(row), SLen(t)))
			if row.kind == 'f' && row.Op == "select" {
				normLen[row] = SLen(t)
			}
		}
		return V(t, ty)
	}
	nm := "p." + sanitize(name)
	if s != SInt { // the same name can have another type in another function
		nm += "." + sanitize(string(s))
	}
	t := Const(nm, s)
	if _, ok := isStruct(ty); ok {
		envConst[t] = true
		envAlloc[t] = st.alloc
	}
	return V(st.fix(t, ty), ty)
}

// frame: everything outside the modifies clauses is unchanged
func (ex *Exec) frame(st, old *State, env *specEnv, pos token.Pos) {
	ct := ex.ct
	var locs []loc
	oenv := *env
	oenv.st = old
	for _, m := range ct.Modifies {
		locs = append(locs, oenv.targets(m.E)...)
	}
	for _, l := range locs {
		if l.key == "*" {
			return
		}
	}
	entry := Const("alloc!0", SInt)
	var ks []string
	for k := range st.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == lockKey || k == spawnKey || k == kGhost("chan.recvd", SInt) || strings.HasPrefix(k, "H|chan.lastrecv.") {
			continue
		}
		cur, o := st.mem[k], old.get(k)
		if cur == o {
			continue
		}
		var refs []*Term
		whole := false
		for _, l := range locs {
			if l.key == k {
				if l.ref == nil {
					whole = true
				} else {
					refs = append(refs, l.ref)
				}
			}
		}
		if whole {
			continue
		}
		if strings.HasPrefix(k, "G|") {
			ex.obligeNoAssume(st, Eq(cur, o), "frame", ct.Tags, "frame: global "+k[2:]+" unchanged", pos)
			continue
		}
		x := cur
		seen := map[*Term]bool{}
		for x != o {
			if x.kind == 'f' && x.Op == "store" {
				ref, val := x.Args[1], x.Args[2]
				x = x.Args[0]
				if seen[ref] {
					continue
				}
				seen[ref] = true
				root := rootRef(ref)
				if isAllocTerm(root) && !isOldRef(root, entry) {
					continue
				}
				alts := []*Term{Ge(root, entry), Eq(val, old.sel(o, ref))}
				done := false
				for _, r := range refs {
					if r == ref {
						done = true
					}
					alts = append(alts, Eq(ref, r))
				}
				if done {
					continue
				}
				ex.mergeOld(st, old)
				ex.obligeNoAssume(st, Or(alts...), "frame", ct.Tags, "frame: "+k+" changed outside the modifies clause", pos)
				continue
			}
			if fi, ok := frameOf[x]; ok {
				x = fi.prev
				continue
			}
			ex.obligeNoAssume(st, False, "frame", ct.Tags, "frame: "+k+" may be changed as a whole", pos)
			break
		}
	}
}

// ghostInit: the contract chooses the ghost field of an object the function made
func (ex *Exec) ghostInit(st, old *State, env *specEnv, in Clause, pos token.Pos) {
	e, cond := in.E, True
	if e.op == "bin" && e.s == "==>" {
		cond = env.boolE(e.args[0])
		e = e.args[1]
	}
	if !(e.op == "bin" && e.s == "==" && e.args[0].op == "call" && e.args[0].s == "ghost" && len(e.args[0].args) == 3) {
		unsup("init clause %s", in.Text)
	}
	l := e.args[0]
	g, ok := ex.eng.spec.ghosts[l.args[1].s]
	if !ok {
		unsup("unknown ghost %s", l.args[1].s)
	}
	ty := ex.eng.typeOf(g.ty)
	r, _ := env.addr(l.args[2])
	v := env.coerce(env.eval(e.args[1]), ty).t
	ex.mergeOld(st, old)
	tags := ex.ct.Tags
	ex.oblige(st, Implies(cond, And(Ge(r, old.alloc), Lt(r, st.alloc))), "ensures", tags, "only new objects get their ghost fields: "+in.Text, pos)
	k := kGhost(g.name, sortOf(ty))
	m := st.get(k)
	st.set(k, Store(m, r, Ite(cond, v, Select(m, r))))
}
