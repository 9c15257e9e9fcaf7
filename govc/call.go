package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cont func(st *State, fr *Frame, res []Val)

func fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if r := fn.Signature.Recv(); r != nil {
		return typePath(derefT(r.Type())) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return shortPkg(fn.Pkg.Pkg.Path()) + "." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return shortPkg(o.Pkg().Path()) + "." + o.Name()
	}
	if fn.Origin() != nil {
		return fnName(fn.Origin())
	}
	return fn.String()
}

func (ex *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos, k cont) {
	var fv Val
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = ex.val(st, fr, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	ex.callWith(st, fr, c, fv, args, pos, k)
}

func (ex *Exec) callWith(st *State, fr *Frame, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, k cont) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(st, fr, b, c, args, pos, k)
		return
	}
	if c.IsInvoke() {
		ex.invoke(st, fr, c, fv, args, pos, k)
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		var clo *Closure
		if fv.clo != nil {
			clo = fv.clo
		} else {
			clo = &Closure{fn: fn}
		}
		ex.callFn(st, fr, clo, args, pos, k)
		return
	}
	if fv.clo == nil && fv.t != nil {
		if cl, ok := closByTerm[fv.t]; ok {
			fv.clo = cl
		}
	}
	if fv.clo != nil {
		ex.callFn(st, fr, fv.clo, args, pos, k)
		return
	}
	ex.nonNil(st, fv, "call of nil function", pos)
	ex.used["a call of an unknown function value is assumed to have no effect ("+ex.eng.pos(pos)+")"] = true
	k(st, fr, ex.freshResults(st, c.Signature().Results(), "dyn"))
}

func (ex *Exec) freshVal(st *State, ty types.Type, hint string) Val {
	if tup, ok := ty.(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < tup.Len(); i++ {
			vs = append(vs, ex.freshVal(st, tup.At(i).Type(), hint))
		}
		return Val{tup: vs, ty: ty}
	}
	s := sortOf(ty)
	if s == SSlice {
		t := MkSlice(Fresh(hint+".arr", SInt), Int(0), Fresh(hint+".len", SInt))
		st.fix(t, ty)
		if isByteSlice(ty) {
			row := st.sel(st.get(kElem(ty.Underlying().(*types.Slice).Elem())), SArr(t))
			st.assume(Eq(StrLen(row), SLen(t)))
			if row.kind == 'f' && row.Op == "select" {
				normLen[row] = SLen(t)
			}
		}
		return V(t, ty)
	}
	t := Fresh(hint, s)
	if _, ok := isStruct(ty); ok {
		envConst[t] = true
		envAlloc[t] = st.alloc
	}
	return V(st.fix(t, ty), ty)
}
func (ex *Exec) freshResults(st *State, tup *types.Tuple, hint string) []Val {
	var out []Val
	for i := 0; i < tup.Len(); i++ {
		out = append(out, ex.freshVal(st, tup.At(i).Type(), hint))
	}
	return out
}

func (ex *Exec) invoke(st *State, fr *Frame, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos, k cont) {
	ex.safe(st, Ne(recv.t, NilI), "method call on nil interface: "+c.Method.Name(), pos)
	if recv.t.kind == 'f' && strings.HasPrefix(recv.t.Op, "box.") {
		if bt, ok := boxType[recv.t.Op[4:]]; ok {
			if fn := ex.eng.prog.LookupMethod(bt, c.Method.Pkg(), c.Method.Name()); fn != nil {
				a := append([]Val{V(recv.t.Args[0], bt)}, args...)
				ex.callFn(st, fr, &Closure{fn: fn}, a, pos, k)
				return
			}
		}
	}
	names := []string{typePath(c.Value.Type()) + "." + c.Method.Name()}
	if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
		names = append(names, typePath(r.Type())+"."+c.Method.Name())
	}
	ex.atCall(st, names, append([]Val{recv}, args...), pos)
	for _, n := range names {
		if be, ok := builtinExterns[n]; ok {
			ex.used["modelled by the verifier: "+n] = true
			be(ex, st, fr, append([]Val{recv}, args...), c.Signature().Results(), pos, k)
			return
		}
		if ct := ex.eng.contracts[n]; ct != nil {
			ex.contractCall(st, fr, ct, c.Method.Type().(*types.Signature), append([]Val{recv}, args...), pos, k)
			return
		}
	}
	if p := c.Method.Pkg(); p != nil && ex.eng.noEffect(p.Path()) {
		k(st, fr, ex.freshResults(st, c.Signature().Results(), c.Method.Name()))
		return
	}
	if c.Method.Name() == "Error" {
		k(st, fr, ex.freshResults(st, c.Signature().Results(), "errstr"))
		return
	}
	unsup("interface method without contract: %s (at %s)", names[0], ex.eng.pos(pos))
}

func (ex *Exec) callFn(st *State, fr *Frame, clo *Closure, args []Val, pos token.Pos, k cont) {
	fn := clo.fn
	name := fnName(fn)
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && strings.Contains(fn.Synthetic, "thunk") {
		ex.inline(st, fr, clo, args, pos, k)
		return
	}
	ex.atCall(st, []string{name}, args, pos)
	if be, ok := builtinExterns[name]; ok {
		ex.used["modelled by the verifier: "+name] = true
		be(ex, st, fr, args, fn.Signature.Results(), pos, k)
		return
	}
	ct := ex.eng.contracts[name]
	inRepo := ex.eng.inRepo(fn)
	if ct != nil && !(ct.Inline && inRepo) {
		if !(inRepo && len(fn.Blocks) > 0 && ct == nil) {
			ex.contractCall(st, fr, ct, fn.Signature, args, pos, k)
			return
		}
	}
	if inRepo && len(fn.Blocks) > 0 {
		ex.inline(st, fr, clo, args, pos, k)
		return
	}
	if len(fn.Blocks) > 0 && fn.Synthetic != "" {
		ex.inline(st, fr, clo, args, pos, k)
		return
	}
	if fn.Pkg != nil && ex.eng.noEffect(fn.Pkg.Pkg.Path()) || fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && ex.eng.noEffect(fn.Object().Pkg().Path()) {
		k(st, fr, ex.freshResults(st, fn.Signature.Results(), fn.Name()))
		return
	}
	unsup("external function without contract: %s (called at %s)", name, ex.eng.pos(pos))
}

func (ex *Exec) inline(st *State, fr *Frame, clo *Closure, args []Val, pos token.Pos, k cont) {
	fn := clo.fn
	if fr.depth > 14 {
		unsup("inlining depth exceeded at %s", fnName(fn))
	}
	ex.eng.noteInlined(ex, fn)
	nf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, depth: fr.depth + 1, inLoop: fr.inLoop || len(fr.loops) > 0}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.regs[p] = args[i]
		}
	}
	for i, fvv := range fn.FreeVars {
		nf.regs[fvv] = clo.bind[i]
	}
	nf.ret = func(st *State, res []Val) { k(st, fr.clone(), res) }
	ex.enterFn(st, nf)
}

func (ex *Exec) enterFn(st *State, nf *Frame) {
	b := nf.fn.Blocks[0]
	if l := ex.eng.loopsOf(nf.fn)[b]; l != nil {
		unsup("entry block is a loop header")
	}
	ex.run(st, nf, b, 0)
}

// escape: the address is visible to code we do not execute
func (st *State) escape(t *Term) { delete(st.locals, t) }

// ---------- contract calls ----------
func (ex *Exec) contractCall(st *State, fr *Frame, ct *Contract, sig *types.Signature, args []Val, pos token.Pos, k cont) {
	if ct.Extern || ct.Trusted {
		ex.used["assumed contract: "+ct.Name] = true
	} else {
		ex.eng.noteCallee(ex, ct)
		if len(ct.NoPanic) == 0 && len(ex.ct.NoPanic) > 0 {
			ex.obligeNoAssume(st, False, "panic", ex.panicTags(), "callee "+ct.Name+" is not specified panic free", pos)
		}
	}
	// interior pointers are passed by copy-in/copy-out
	type wb struct {
		pl  *Place
		ref *Term
		ty  types.Type
	}
	var wbs []wb
	for i, a := range args {
		if a.pl != nil && a.t == nil {
			pt := derefT(a.ty)
			if !(strings.HasPrefix(a.pl.key, "C|") && a.pl.idx == nil && len(a.pl.path) == 0) {
				r := st.newRef()
				v := st.loadPlace(a.pl)
				st.storePtr(r, pt, v)
				wbs = append(wbs, wb{a.pl, r, pt})
				args[i] = V(r, a.ty)
			} else {
				args[i] = V(a.pl.ref, a.ty)
			}
		}
		if args[i].t != nil {
			st.escape(args[i].t)
		}
		// a guarded map handed to the callee is read there
		if args[i].t != nil && args[i].ty != nil && len(ex.ct.LockTags) > 0 {
			if _, ok := args[i].ty.Underlying().(*types.Map); ok {
				ex.derivedGuard(st, args[i].t, false, pos)
			}
		}
	}
	env := &specEnv{ex: ex, st: st, old: st, vars: map[string]Val{}, ct: ct}
	names := ct.Params
	if len(names) != len(args) && !ct.AnyParams {
		unsup("contract %s has %d parameters, call has %d", ct.Name, len(names), len(args))
	}
	for i, n := range names {
		if i < len(args) {
			env.vars[n] = args[i]
		}
	}
	for _, r := range ct.Requires {
		tags := r.Tags
		if len(tags) == 0 {
			tags = ex.ct.Tags
		} else if ex.all && !ex.ct.concernsAny(tags) {
			continue
		}
		ex.oblige(st, env.boolE(r.E), "requires", tags, "precondition of "+ct.Name+": "+r.Text, pos)
	}
	oldSt := st.clone()
	env.old = oldSt
	freshCnt++
	start := freshCnt
	// effects; what is changed may refer to objects created on the way
	if len(ct.Modifies) > 0 || !ct.Pure {
		st.bumpAlloc()
	}
	for _, m := range ct.Modifies {
		ex.havocTarget(st, env, m)
	}
	var res []Val
	if ct.Pure {
		res = ex.pureResults(st, ct, sig, args)
	} else {
		res = ex.freshResults(st, sig.Results(), lastName(ct.Name))
	}
	env.st = st
	for i, n := range ct.Results {
		if i < len(res) {
			env.vars[n] = res[i]
		}
	}
	env.result = res
	ex.define(st, oldSt, env, ct, res, start)
	for _, e := range ct.Ensures {
		st.assume(env.boolE(e.E))
	}
	for _, w := range wbs {
		st.storePlace(w.pl, st.loadPtr(w.ref, w.ty))
	}
	if st.dead {
		return
	}
	if len(ct.Modifies) > 0 {
		for _, a := range ex.ct.CrashInv {
			ex.atObl(st, a, nil, "crashinv", "wherever the process may stop: ", pos)
		}
	}
	k(st, fr, res)
}

// define: a postcondition "x == e", with x a location or result changed by this call and
// e over the state before it, is used as an assignment
func (ex *Exec) define(st, old *State, env *specEnv, ct *Contract, res []Val, start int) {
	for _, en := range ct.Ensures {
		for _, c := range conjuncts(en.E) {
			if c.op != "bin" || c.s != "==" {
				continue
			}
			switch c.args[0].op {
			case "sel", "call", "ident", "un":
			default:
				continue
			}
			l, r := env.eval(c.args[0]), env.eval(c.args[1])
			if l.t == nil || l.t.kind != 'c' || l.t.mark <= start || (r.t == nil && l.ty != nil && r.ty != types.Typ[types.UntypedNil]) {
				continue
			}
			if r.t == nil {
				r = env.coerce(r, l.ty)
			}
			if r.t.S != l.t.S {
				continue
			}
			bad := false
			scan(r.t, map[*Term]bool{}, func(x *Term) {
				if x.kind == 'c' && x.mark > start {
					bad = true
				}
			})
			if bad {
				continue
			}
			st.assume(Eq(l.t, r.t))
			sub := map[*Term]*Term{l.t: r.t}
			for k, m := range st.mem {
				if om, ok := old.mem[k]; ok && om == m {
					continue
				}
				st.mem[k] = Subst(m, sub)
			}
			for i := range res {
				if res[i].t == l.t {
					res[i].t = r.t
					if i < len(ct.Results) {
						env.vars[ct.Results[i]] = res[i]
					}
				}
			}
		}
	}
}
func lastName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// pureResults: an uninterpreted function of the argument values
func (ex *Exec) pureResults(st *State, ct *Contract, sig *types.Signature, args []Val) []Val {
	var as []*Term
	for _, a := range args {
		as = append(as, ex.pureArg(st, a)...)
	}
	base := "pure." + sanitize(ct.Name)
	if ct.PureName != "" {
		base = ct.PureName
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		ty := sig.Results().At(i).Type()
		nm := base
		if sig.Results().Len() > 1 {
			nm = fmt.Sprintf("%s.%d", base, i)
		}
		out = append(out, ex.pureRes(st, nm, as, ty))
	}
	return out
}
func (ex *Exec) pureRes(st *State, nm string, as []*Term, ty types.Type) Val {
	if isByteSlice(ty) {
		return V(st.newBytes(App(nm, SStr, as...)), ty)
	}
	t := App(nm, sortOf(ty), as...)
	if isRefT(ty) {
		st.assume(Lt(t, st.alloc))
	}
	return V(st.fix(t, ty), ty)
}

// pureArg: the value of an argument, looking through byte slices, slices and
// one level of pointers to structs.
func (ex *Exec) pureArg(st *State, a Val) []*Term {
	if a.t != nil && a.t.S == Sort("Deep") {
		return []*Term{a.t}
	}
	if isByteSlice(a.ty) {
		return []*Term{st.bytesOf(a.t)}
	}
	if s, ok := a.ty.Underlying().(*types.Slice); ok {
		return []*Term{mkseq(st.row(s.Elem(), a.t), SOff(a.t), SLen(a.t))}
	}
	if _, ok := a.ty.Underlying().(*types.Interface); ok {
		return []*Term{ex.pureIface(st, a.t)}
	}
	if p, ok := a.ty.Underlying().(*types.Pointer); ok {
		if _, ok := isStruct(p.Elem()); ok && ex.eng.valuePtr(p.Elem()) {
			return []*Term{st.deepVal(ex.termOf(st, a), p.Elem())}
		}
	}
	return []*Term{ex.termOf(st, a)}
}

// pureIface: interface holding a pointer to a struct / a slice is compared by content
func (ex *Exec) pureIface(st *State, t *Term) *Term {
	if t.kind == 'f' && strings.HasPrefix(t.Op, "box.") {
		bt := boxType[t.Op[4:]]
		if bt == nil {
			return t
		}
		if p, ok := bt.Underlying().(*types.Pointer); ok {
			if _, ok := isStruct(p.Elem()); ok {
				return Box("val."+tagOfType(p.Elem()), st.deepVal(t.Args[0], p.Elem()))
			}
		}
		if _, ok := isStruct(bt); ok {
			return Box("val."+tagOfType(bt), st.deepStruct(t.Args[0], bt))
		}
		if s, ok := bt.Underlying().(*types.Slice); ok {
			if isByteT(s.Elem()) {
				return Box("bytes", st.bytesOf(t.Args[0]))
			}
			return Box("seq."+tagOfType(s.Elem()), mkseq(st.row(s.Elem(), t.Args[0]), SOff(t.Args[0]), SLen(t.Args[0])))
		}
	}
	return t
}
func (st *State) deepVal(ref *Term, ty types.Type) *Term {
	return st.deepStruct(st.loadPtr(ref, ty), ty)
}

// deepStruct: the value with byte-slice fields replaced by their contents
func (st *State) deepStruct(v *Term, ty types.Type) *Term {
	s := ty.Underlying().(*types.Struct)
	args := []*Term{}
	for i := 0; i < s.NumFields(); i++ {
		f := SelF(v, i)
		ft := s.Field(i).Type()
		f = st.fix(f, ft)
		if isByteSlice(ft) {
			f = st.bytesOf(f)
		} else if sl, ok := ft.Underlying().(*types.Slice); ok {
			f = mkseq(st.row(sl.Elem(), f), SOff(f), SLen(f))
		}
		args = append(args, f)
	}
	return App("deep."+tagOfType(ty), Sort("Deep"), args...)
}

func mkseq(row, off, l *Term) *Term {
	_, es := splitArr(row.S)
	n := Sort("Seq." + sanitize(string(es)))
	opaqueSorts[n] = true
	return App("mkseq."+sanitize(string(es)), n, row, off, l)
}

func init() { opaqueSorts[Sort("Deep")] = true }

// havocTarget evaluates a modifies target and forgets it
func (ex *Exec) havocTarget(st *State, env *specEnv, m Clause) {
	for _, l := range env.targets(m.E) {
		ex.havocLoc(st, l)
	}
}

// loc: a set of memory cells
type loc struct {
	key string
	ref *Term // nil: the whole key / the scalar global
	ty  types.Type
}

func (ex *Exec) havocLoc(st *State, l loc) {
	if l.key == "*" {
		var ks []string
		for k := range keySorts {
			if k != "H|lock" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			ex.havocLoc(st, loc{key: k})
		}
		return
	}
	s := keySorts[l.key]
	if l.ref == nil {
		old := st.get(l.key)
		n := Fresh("hv."+l.key, s)
		if strings.HasPrefix(string(s), "(Array") {
			envConst[n] = true
			envAlloc[n] = st.alloc
			if strings.HasPrefix(l.key, "MD|") {
				_, rs := splitArr(s)
				st.assume(Eq(App("select", rs, n, Int(0)), ConstArr(rs, False)))
			}
			// objects nobody else can reach keep their contents
			var ls []*Term
			for r := range st.locals {
				ls = append(ls, r)
			}
			sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
			for _, r := range ls {
				n = Store(n, r, st.sel(old, r))
			}
		}
		st.mem[l.key] = n
		return
	}
	_, es := splitArr(s)
	var nv *Term
	if es == SSlice {
		nv = MkSlice(Fresh("hv.arr", SInt), Int(0), Fresh("hv.len", SInt))
	} else {
		nv = Fresh("hv."+l.key, es)
	}
	if l.ty != nil {
		if _, ok := isStruct(l.ty); ok {
			envConst[nv] = true
			envAlloc[nv] = st.alloc
		}
	}
	if strings.HasPrefix(string(es), "(Array") {
		envConst[nv] = true
		// contents may refer to objects created by the callee
		envAlloc[nv] = nil
		delete(envAlloc, nv)
	}
	st.set(l.key, Store(st.get(l.key), l.ref, nv))
	if l.ty != nil {
		st.fix(nv, l.ty)
	}
}

// ---------- builtins ----------
func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, k cont) {
	one := func(t *Term, ty types.Type) { k(st, fr, []Val{V(t, ty)}) }
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		ex.lenOf(st, args[0], c.Args[0].Type(), one, pos)
	case "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			t := Fresh("cap", SInt)
			st.assume(Ge(t, SLen(args[0].t)))
			one(t, intT)
		case *types.Array:
			one(Int(u.Len()), intT)
		case *types.Chan:
			one(st.sel(st.get(kGhost("chan.cap", SInt)), args[0].t), intT)
		default:
			unsup("cap")
		}
	case "append":
		ex.appendB(st, fr, c, args, k)
	case "copy":
		dst, src := args[0], args[1]
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var sl *Term
		if src.t.S == SStr {
			sl = StrLen(src.t)
		} else {
			sl = SLen(src.t)
		}
		n := Ite(Le(sl, SLen(dst.t)), sl, SLen(dst.t))
		if isByteT(et) {
			var content *Term
			if src.t.S == SStr {
				content = src.t
			} else {
				content = st.bytesOf(src.t)
			}
			kk := kElem(et)
			row := st.row(et, dst.t)
			nrow := App("bcopy", SStr, row, SOff(dst.t), content, n)
			st.assume(Eq(StrLen(nrow), StrLen(row)))
			st.assume(Implies(And(Eq(SOff(dst.t), Int(0)), Eq(StrLen(row), n), Eq(StrLen(content), n)), Eq(nrow, content)))
			st.set(kk, Store(st.get(kk), SArr(dst.t), nrow))
		} else {
			kk := kElem(et)
			row := st.row(et, dst.t)
			srow := st.row(et, src.t)
			nrow := Fresh("copyrow", row.S)
			i := BVar("i", SInt)
			in := And(Le(SOff(dst.t), i), Lt(i, Add(SOff(dst.t), n)))
			st.assume(Forall([]*Term{i}, [][]*Term{{App("select", sortOf(et), nrow, i)}},
				Eq(Select(nrow, i), Ite(in, Select(srow, Add(Sub(i, SOff(dst.t)), SOff(src.t))), Select(row, i)))))
			// from the source side
			j := BVar("j", SInt)
			st.assume(Forall([]*Term{j}, [][]*Term{{App("select", sortOf(et), srow, j)}},
				Implies(And(Le(SOff(src.t), j), Lt(j, Add(SOff(src.t), n))), Eq(Select(nrow, Add(Sub(j, SOff(src.t)), SOff(dst.t))), Select(srow, j)))))
			st.set(kk, Store(st.get(kk), SArr(dst.t), nrow))
		}
		one(n, intT)
	case "delete":
		ex.mapAccess(st, args[0].t, c.Args[0].Type(), true, pos)
		ex.mapDelete(st, args[0].t, c.Args[0].Type(), args[1].t)
		k(st, fr, nil)
	case "close":
		ck := kGhost("chan.closed", SBool)
		ex.atCall(st, []string{"close"}, args, pos)
		ex.safe(st, Ne(args[0].t, Int(0)), "close of nil channel", pos)
		ex.safe(st, Not(Select(st.get(ck), args[0].t)), "close of closed channel", pos)
		st.set(ck, Store(st.get(ck), args[0].t, True))
		k(st, fr, nil)
	case "print", "println":
		k(st, fr, nil)
	case "recover":
		one(NilI, types.NewInterfaceType(nil, nil))
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			c := Le(r, a.t)
			if b.Name() == "max" {
				c = Ge(r, a.t)
			}
			r = Ite(c, r, a.t)
		}
		one(r, args[0].ty)
	case "clear":
		mt := c.Args[0].Type()
		if m, ok := mt.Underlying().(*types.Map); ok {
			ex.mapAccess(st, args[0].t, mt, true, pos)
			kd := kMD(mt)
			st.set(kd, Store(st.get(kd), args[0].t, ConstArr(ArrS(sortOf(m.Key()), SBool), False)))
			k(st, fr, nil)
			return
		}
		unsup("clear")
	case "ssa:wrapnilchk":
		k(st, fr, []Val{args[0]})
	default:
		unsup("builtin %s", b.Name())
	}
}

func (ex *Exec) lenOf(st *State, v Val, ty types.Type, one func(*Term, types.Type), pos token.Pos) {
	one(ex.lenT(st, v, ty, pos), types.Typ[types.Int])
}
func (ex *Exec) lenT(st *State, v Val, ty types.Type, pos token.Pos) *Term {
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		return SLen(v.t)
	case *types.Basic:
		l := StrLen(v.t)
		if l.kind != 'i' {
			st.assume(Ge(l, Int(0)))
		}
		return l
	case *types.Map:
		ex.mapAccess(st, v.t, ty, false, pos)
		return st.card(st.mapDom(v.t, ty))
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		return Int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Chan:
		t := Fresh("chanlen", SInt)
		st.assume(Ge(t, Int(0)))
		return t
	}
	unsup("len of %s", ty)
	return nil
}

func (ex *Exec) appendB(st *State, fr *Frame, c *ssa.CallCommon, args []Val, k cont) {
	sty := c.Args[0].Type()
	et := sty.Underlying().(*types.Slice).Elem()
	s := args[0].t
	if isByteT(et) {
		var add *Term
		if len(args) == 1 {
			k(st, fr, []Val{V(s, sty)})
			return
		}
		if args[1].t.S == SStr {
			add = args[1].t
		} else {
			add = st.bytesOf(args[1].t)
		}
		if add == StrLit("") {
			k(st, fr, []Val{V(s, sty)})
			return
		}
		k(st, fr, []Val{V(st.newBytes(Cat(st.bytesOf(s), add)), sty)})
		return
	}
	x := args[1].t
	k(st, fr, []Val{V(st.appendSlice(et, s, x), sty)})
}

func (st *State) appendSlice(et types.Type, s, x *Term) *Term {
	l := SLen(x)
	kk := kElem(et)
	if l.kind == 'i' && l.big.IsInt64() && l.big.Int64() <= 8 {
		n := int(l.big.Int64())
		if n == 0 {
			return s
		}
		row := st.row(et, s)
		if s == NilSlice {
			row = ConstArr(elemRowSort(et), zeroOf(et))
		}
		xr := st.row(et, x)
		end := Add(SOff(s), SLen(s))
		for i := 0; i < n; i++ {
			row = Store(row, Add(end, Int(int64(i))), Select(xr, Add(SOff(x), Int(int64(i)))))
		}
		a := st.newRef()
		st.set(kk, Store(st.get(kk), a, row))
		return MkSlice(a, SOff(s), Add(SLen(s), l))
	}
	if s == NilSlice || (SLen(s).kind == 'i' && SLen(s).big.Sign() == 0) {
		// append to an empty slice: a copy of x
		a := st.newRef()
		st.set(kk, Store(st.get(kk), a, st.row(et, x)))
		empty := Eq(l, Int(0))
		return MkSlice(Ite(empty, SArr(s), a), SOff(x), l)
	}
	row, xr := st.row(et, s), st.row(et, x)
	nrow := Fresh("approw", row.S)
	end := Add(SOff(s), SLen(s))
	i := BVar("i", SInt)
	es := sortOf(et)
	in := And(Le(end, i), Lt(i, Add(end, l)))
	st.assume(Forall([]*Term{i}, [][]*Term{{App("select", es, nrow, i)}},
		Eq(Select(nrow, i), Ite(in, Select(xr, Add(Sub(i, end), SOff(x))), Select(row, i)))))
	j := BVar("j", SInt)
	st.assume(Forall([]*Term{j}, [][]*Term{{App("select", es, xr, j)}},
		Implies(And(Le(SOff(x), j), Lt(j, Add(SOff(x), l))), Eq(Select(nrow, Add(Sub(j, SOff(x)), end)), Select(xr, j)))))
	j2 := BVar("j", SInt)
	st.assume(Forall([]*Term{j2}, [][]*Term{{App("select", es, row, j2)}},
		Implies(And(Le(SOff(s), j2), Lt(j2, end)), Eq(Select(nrow, j2), Select(row, j2)))))
	a := st.newRef()
	st.set(kk, Store(st.get(kk), a, nrow))
	// appending nothing to a nil slice gives nil
	arr := Ite(And(Eq(l, Int(0)), Eq(SArr(s), Int(0))), Int(0), a)
	return MkSlice(arr, SOff(s), Add(SLen(s), l))
}

// ---------- goroutines, channels ----------
func (ex *Exec) goStmt(st *State, fr *Frame, in *ssa.Go, k func(*State, *Frame)) {
	c := in.Common()
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	fv := ex.val(st, fr, c.Value)
	if fv.clo == nil && c.StaticCallee() != nil {
		fv.clo = &Closure{fn: c.StaticCallee()}
	}
	if fv.clo != nil && !c.IsInvoke() {
		ct := ex.eng.contracts[fnName(fv.clo.fn)]
		if ct != nil && !ct.Inline {
			ex.used["a spawned goroutine is represented by its contract: requires at the spawn, modifies forgotten ("+ct.Name+")"] = true
			env := &specEnv{ex: ex, st: st, old: st, vars: map[string]Val{}, ct: ct}
			for i, n := range ct.Params {
				if args[i].pl != nil && args[i].t == nil {
					args[i] = V(ex.ptrTerm(st, args[i]), args[i].ty)
				}
				env.vars[n] = args[i]
			}
			for _, r := range ct.Requires {
				tags := r.Tags
				if len(tags) == 0 {
					tags = ex.ct.Tags
				}
				ex.oblige(st, env.boolE(r.E), "requires", tags, "precondition of goroutine "+ct.Name+": "+r.Text, in.Pos())
			}
			st.bumpAlloc()
			for _, m := range ct.Modifies {
				ex.havocTarget(st, env, m)
			}
			// what it does is seen with its loop invariants restored
			for _, iv := range ct.LoopInv {
				if iv.ty == nil {
					ex.used["what a goroutine under contract changes is seen by others with its loop invariants restored"] = true
					st.assume(env.boolE(iv.E))
				}
			}
			wg := Int(0)
			for _, a := range args {
				if typePath(derefT(a.ty)) == "sync.WaitGroup" {
					wg = ex.termOf(st, a)
				}
			}
			st.set(spawnKey, Store(st.get(spawnKey), wg, True))
			k(st, fr)
			return
		}
		ex.used["a goroutine body is executed at its spawn point (no interference inside it)"] = true
		ex.callFn(st, fr, fv.clo, args, in.Pos(), func(st *State, fr *Frame, _ []Val) { k(st, fr) })
		return
	}
	unsup("go statement %s", in)
}

func (ex *Exec) send(st *State, ch Val, v Val, ct types.Type, pos token.Pos) {
	ck, sk := kGhost("chan.closed", SBool), kGhost("chan.sent", SInt)
	ex.safe(st, Not(Select(st.get(ck), ch.t)), "send on closed channel", pos)
	st.set(sk, Store(st.get(sk), ch.t, Add(Select(st.get(sk), ch.t), Int(1))))
	et := ct.Underlying().(*types.Chan).Elem()
	t := ex.termOf(st, v)
	lk := regKey("H|chan.last."+tagOfType(et), ArrS(SInt, sortOf(et)))
	st.set(lk, Store(st.get(lk), ch.t, t))
	for _, a := range ex.ct.OnSend {
		if a.tpath == typePath(et) {
			ex.atObl(st, a, []Val{V(t, et)}, "onsend", "value sent on a channel: ", pos)
		}
	}
	if ci := ex.eng.chanInv[typePath(et)]; ci != nil {
		env := &specEnv{ex: ex, st: st, old: st, vars: map[string]Val{ci.Params[0]: V(ch.t, ct), ci.Params[1]: V(t, et)}, ct: ci}
		for _, e := range ci.Ensures {
			tags := e.Tags
			if len(tags) == 0 {
				tags = ex.ct.Tags
			}
			ex.oblige(st, env.boolE(e.E), "chaninv", tags, "value sent satisfies the channel invariant: "+e.Text, pos)
		}
	}
}

// await: the function waits; other goroutines may change what its contract's awaits clause names
func (ex *Exec) await(st *State) {
	if len(ex.ct.Awaits) == 0 {
		return
	}
	old := st.clone()
	env := &specEnv{ex: ex, st: st, old: old, vars: map[string]Val{}, ct: ex.ct}
	for i, n := range ex.ct.Params {
		env.vars[n] = ex.params[i]
	}
	st.bumpAlloc()
	for _, c := range ex.ct.Awaits {
		ex.havocTarget(st, env, c)
	}
	for _, c := range ex.ct.Rely {
		st.assume(env.boolE(c.E))
	}
	ex.mergeOld(st, old)
	ex.used["what other goroutines change while "+ex.ct.Name+" waits is limited to its awaits and rely clauses"] = true
}

func (ex *Exec) recv(st *State, ch Val, ct types.Type) (Val, *Term) {
	ex.await(st)
	et := ct.Underlying().(*types.Chan).Elem()
	st.bumpAlloc()
	v := ex.freshVal(st, et, "recv")
	ok := Fresh("recvok", SBool)
	rk := kGhost("chan.recvd", SInt)
	st.set(rk, Store(st.get(rk), ch.t, Add(Select(st.get(rk), ch.t), Int(1))))
	if v.t != nil {
		k := lastRecvKey(et)
		st.set(k, Store(st.get(k), Int(0), v.t))
	}
	if ci := ex.eng.chanInv[typePath(et)]; ci != nil {
		env := &specEnv{ex: ex, st: st, old: st, vars: map[string]Val{ci.Params[0]: V(ch.t, ct), ci.Params[1]: v}, ct: ci}
		for _, e := range ci.Ensures {
			st.assume(Implies(ok, env.boolE(e.E)))
		}
		if !ex.eng.closes[typePath(et)] {
			ex.used["channels of "+typePath(et)+" are never closed (no close of such a channel in the repository)"] = true
			st.assume(ok)
		}
	}
	return v, ok
}

func lastRecvKey(et types.Type) string {
	return regKey("H|chan.lastrecv."+tagOfType(et), ArrS(SInt, sortOf(et)))
}

func (ex *Exec) selectStmt(st *State, fr *Frame, in *ssa.Select, k func(*State, *Frame)) {
	type cs struct {
		st *State
		fr *Frame
	}
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		s, f := st.clone(), fr.clone()
		tup := []Val{V(Int(int64(i)), types.Typ[types.Int])}
		okv := Fresh("selok", SBool)
		tup = append(tup, V(okv, types.Typ[types.Bool]))
		for j, cst := range in.States {
			ch := ex.val(s, f, cst.Chan)
			if cst.Dir == types.RecvOnly {
				if j == i {
					v, ok := ex.recv(s, ch, cst.Chan.Type())
					s.assume(Eq(okv, ok))
					tup = append(tup, v)
				} else {
					et := cst.Chan.Type().Underlying().(*types.Chan).Elem()
					tup = append(tup, V(zeroOf(et), et))
				}
			} else if j == i {
				ex.send(s, ch, ex.val(s, f, cst.Send), cst.Chan.Type(), cst.Pos)
			}
		}
		f.regs[in] = Val{tup: tup, ty: in.Type()}
		if !s.dead {
			k(s, f)
		}
	}
}

// ---------- locks ----------
const lockKey = "H|lock"

// spawnKey: wait groups with goroutines which have not been waited for (0: without a wait group)
const spawnKey = "H|spawned"

func init() {
	keySorts[lockKey] = ArrS(SInt, SInt)
	keySorts[spawnKey] = ArrS(SInt, SBool)
}

func (ex *Exec) lockOp(st *State, m *Term, op string, pos token.Pos) {
	cur := Select(st.get(lockKey), m)
	tags := ex.ct.LockTags
	switch op {
	case "Lock", "RLock":
		ex.oblige(st, Eq(cur, Int(0)), "lock", tags, "lock acquired while already held (self deadlock)", pos)
		if st.held[m] {
			ex.interfere(st, m)
		}
		st.held[m] = true
		v := Int(1)
		if op == "RLock" {
			v = Int(2)
		}
		st.set(lockKey, Store(st.get(lockKey), m, v))
	case "Unlock":
		ex.oblige(st, Eq(cur, Int(1)), "lock", tags, "Unlock of a mutex held for writing", pos)
		st.set(lockKey, Store(st.get(lockKey), m, Int(0)))
	case "RUnlock":
		ex.oblige(st, Eq(cur, Int(2)), "lock", tags, "RUnlock of a mutex held for reading", pos)
		st.set(lockKey, Store(st.get(lockKey), m, Int(0)))
	}
}

// rootKey: the memory key an (environment) array term belongs to, following stores
func rootKey(arr *Term) string {
	for arr.kind == 'f' && arr.Op == "store" {
		arr = arr.Args[0]
	}
	if arr.kind == 'c' {
		if strings.HasPrefix(arr.Op, "M0|") {
			return arr.Op[3:]
		}
		if k, ok := arrKey[arr]; ok {
			return k
		}
	}
	return ""
}

var arrKey = map[*Term]string{}

type Guard struct {
	Field, Lock string // memory keys F|T|f
	Tags        []string
	fty         types.Type
	nested      bool // lock is a struct value (sub address)
	sty         types.Type
	lidx        int
	none        bool // no lock: never written once the object is shared
}

func (ex *Exec) lockRefOf(st *State, g *Guard, obj *Term) *Term {
	if g.nested {
		return subRef(g.sty, g.lidx, obj)
	}
	return st.sel(st.get(g.Lock), obj)
}

func (ex *Exec) guardCheck(st *State, g *Guard, obj *Term, write bool, pos token.Pos) {
	if isAllocTerm(obj) {
		return
	}
	what, how := "read", " under its lock"
	var goal *Term
	if g.none {
		if !write {
			return
		}
		goal, what, how = False, "write", " only before the object is shared"
	} else {
		cur := Select(st.get(lockKey), ex.lockRefOf(st, g, obj))
		goal = Ne(cur, Int(0))
		if write {
			goal = Eq(cur, Int(1))
			what = "write"
		}
	}
	var tags []string
	for _, t := range g.Tags {
		for _, u := range ex.ct.LockTags {
			if t == u {
				tags = append(tags, t)
			}
		}
	}
	if len(tags) == 0 {
		return
	}
	// reported, not assumed: an unlocked access is a finding of its own
	ex.obligeNoAssume(st, goal, "guard", tags, what+" of "+strings.TrimPrefix(g.Field, "F|")+how, pos)
}
func (ex *Exec) obligeNoAssume(st *State, goal *Term, kind string, tags []string, label string, pos token.Pos) {
	f, seen := st.facts, st.seen[goal]
	ex.oblige(st, goal, kind, tags, label, pos)
	st.facts = f
	if !seen {
		delete(st.seen, goal)
	}
	if goal == False {
		st.dead = false
	}
}

func (ex *Exec) guardAccess(st *State, a Val, write bool, pos token.Pos) {
	if a.pl == nil || a.pl.ref == nil || len(ex.ct.LockTags) == 0 {
		return
	}
	if g := ex.eng.guards[a.pl.key]; g != nil {
		ex.guardCheck(st, g, a.pl.ref, write, pos)
	}
	// element of a guarded slice
	if strings.HasPrefix(a.pl.key, "E|") {
		ex.derivedGuard(st, a.pl.ref, write, pos)
	}
}

// derivedGuard: t was read from a guarded field
func (ex *Exec) derivedGuard(st *State, t *Term, write bool, pos token.Pos) {
	if len(ex.ct.LockTags) == 0 {
		return
	}
	for t.kind == 'f' && strings.HasPrefix(t.Op, "sel-") {
		t = t.Args[0]
	}
	if t.kind == 'f' && t.Op == "select" {
		if g := ex.eng.guards[rootKey(t.Args[0])]; g != nil {
			ex.guardCheck(st, g, t.Args[1], write, pos)
		}
	}
}
func (ex *Exec) mapAccess(st *State, m *Term, mt types.Type, write bool, pos token.Pos) {
	ex.derivedGuard(st, m, write, pos)
}

// interfere: another thread may have changed the data guarded by this lock
func (ex *Exec) interfere(st *State, m *Term) {
	ks := make([]string, 0, len(ex.eng.guards))
	for k := range ex.eng.guards {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g := ex.eng.guards[k]
		if !g.none && m.kind == 'f' && m.Op == "select" && rootKey(m.Args[0]) == g.Lock {
			obj := m.Args[1]
			if mt, ok := g.fty.Underlying().(*types.Map); ok {
				_ = mt
				r := st.sel(st.get(g.Field), obj)
				ex.havocLoc(st, loc{key: kMD(g.fty), ref: r})
				ex.havocLoc(st, loc{key: kMV(g.fty), ref: r})
			} else {
				ex.havocLoc(st, loc{key: g.Field, ref: obj, ty: g.fty})
			}
		}
	}
}

// onAlloc: size of a buffer being allocated (hook for allocation bounds)
func (ex *Exec) onAlloc(st *State, l *Term, pos token.Pos) {
	if ex.ct.AllocBound != nil {
		env := &specEnv{ex: ex, st: st, old: ex.oldSt, vars: map[string]Val{}, ct: ex.ct}
		for i, n := range ex.ct.Params {
			env.vars[n] = ex.params[i]
		}
		b := env.eval(ex.ct.AllocBound.E)
		ex.mergeOld(st, ex.oldSt)
		tags := ex.ct.AllocBound.Tags
		if len(tags) == 0 {
			tags = ex.ct.Tags
		}
		ex.oblige(st, Le(l, b.t), "alloc", tags, "buffer size bounded: "+ex.ct.AllocBound.Text, pos)
	}
}

// atCall: obligations the contract under check states for calls of the named function
func (ex *Exec) atCall(st *State, names []string, args []Val, pos token.Pos) {
	if len(ex.ct.AtCall) == 0 {
		return
	}
	for _, n := range names {
		for _, a := range ex.ct.AtCall[n] {
			ex.atObl(st, a, args, "atcall", "at the call of "+n+": ", pos)
		}
	}
}

func (ex *Exec) atObl(st *State, a *AtCall, args []Val, kind, label string, pos token.Pos) {
	tags := a.Tags
	if len(tags) == 0 {
		tags = ex.ct.Tags
	}
	if !ex.wanted(tags) {
		return
	}
	if ex.fired == nil {
		ex.fired = map[*AtCall]bool{}
	}
	ex.fired[a] = true
	env := &specEnv{ex: ex, st: st, old: ex.oldSt, vars: map[string]Val{}, ct: ex.ct}
	for i, n := range ex.ct.Params {
		env.vars[n] = ex.params[i]
	}
	for i, n := range a.Params {
		if n == "_" {
			continue
		}
		if i >= len(args) {
			unsup("atcall %s: the call has %d arguments", a.Text, len(args))
		}
		v := args[i]
		if v.t == nil {
			v = V(ex.termOf(st, v), v.ty)
		}
		env.vars[n] = v
	}
	g := env.boolE(a.E)
	ex.mergeOld(st, ex.oldSt)
	ex.obligeNoAssume(st, g, kind, tags, label+a.Text, pos)
}

// loopInv: a stated invariant of the outermost loops; proved on entry and by each round, assumed at the head
//
// with a type it is about every variable of the type which the loop carries from round to round
func (ex *Exec) loopInv(st *State, a *AtCall, when string, l *loop, vars []Val) {
	if a.ty != nil {
		for _, v := range vars {
			if v.t != nil && typePath(v.ty) == a.tpath {
				ex.loopInvOf(st, a, when, l, &v)
			}
		}
		return
	}
	ex.loopInvOf(st, a, when, l, nil)
}

func (ex *Exec) loopInvOf(st *State, a *AtCall, when string, l *loop, v *Val) {
	tags := a.Tags
	if len(tags) == 0 {
		tags = ex.ct.Tags
	}
	env := &specEnv{ex: ex, st: st, old: ex.oldSt, vars: map[string]Val{}, ct: ex.ct}
	for i, n := range ex.ct.Params {
		env.vars[n] = ex.params[i]
	}
	if v != nil {
		env.vars[a.Params[0]] = *v
	}
	g := env.boolE(a.E)
	ex.mergeOld(st, ex.oldSt)
	switch when {
	case "":
		st.assume(g)
		ex.heapFacts(st, g, false)
	case "entry":
		ex.obligeNoAssume(st, g, "loopinv", tags, "holds when the loop is reached: "+a.Text, firstPos(l.header))
	default:
		ex.obligeNoAssume(st, g, "loopinv", tags, "is kept by each round of the loop: "+a.Text, firstPos(l.header))
	}
}

// heapFacts: in any state the objects which exist refer to objects which exist; stated for the fields g reads
// (boxes: only for slices kept in interface values)
func (ex *Exec) heapFacts(st *State, g *Term, boxes bool) {
	in := map[*Term]bool{}
	var boxed []string
	scan(g, map[*Term]bool{}, func(t *Term) {
		in[t] = true
		if t.kind == 'f' && t.S == SSlice && strings.HasPrefix(t.Op, "unbox.") {
			for _, b := range boxed {
				if b == t.Op[6:] {
					return
				}
			}
			boxed = append(boxed, t.Op[6:])
		}
	})
	sort.Strings(boxed)
	var keys []string
	for k := range keySorts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	below := func(r *Term) *Term { return And(Lt(r, st.alloc), Lt(App("rootref", SInt, r), st.alloc)) }
	say := func(k string, bs []*Term, v *Term, lo *Term) {
		switch {
		case boxes && v.S != SIface:
		case v.S == SIface:
			if lo != True {
				lo = Lt(bs[0], st.alloc)
			}
			for _, tag := range boxed {
				a := App("sel-Slice-arr", SInt, Unbox(tag, SSlice, v))
				st.assume(Forall(bs, [][]*Term{{a}}, Implies(And(lo, Eq(ITag(v), TagOf(tag))), below(a))))
			}
		case v.S == SSlice:
			a := App("sel-Slice-arr", SInt, v)
			st.assume(Forall(bs, [][]*Term{{a}}, Implies(lo, below(a))))
		case v.S == SInt && keyGoType[k] != nil:
			switch keyGoType[k].Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				st.assume(Forall(bs, [][]*Term{{v}}, Implies(lo, below(v))))
			}
		}
	}
	for _, k := range keys {
		m := st.get(k)
		if !strings.HasPrefix(string(m.S), "(Array Int") {
			continue
		}
		_, es := splitArr(m.S)
		for m.kind == 'f' && m.Op == "store" {
			if v := m.Args[2]; in[v] && strings.HasPrefix(string(es), "(Array") {
				ks, vs := splitArr(es)
				j := BVar("j", ks)
				say(k, []*Term{j}, App("select", vs, v, j), True)
			}
			m = m.Args[0]
		}
		if !in[m] {
			continue
		}
		i := BVar("i", SInt)
		bs := []*Term{i}
		v := App("select", es, m, i)
		if strings.HasPrefix(string(es), "(Array") {
			ks, vs := splitArr(es)
			j := BVar("j", ks)
			bs = append(bs, j)
			v = App("select", vs, v, j)
		}
		say(k, bs, v, Lt(App("rootref", SInt, i), st.alloc))
	}
}
