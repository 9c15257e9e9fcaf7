package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	ret    func(st *State, res []Val)
	loops  map[*ssa.BasicBlock]*loopCtx
	depth  int
	inLoop bool // called within a loop
	rets   *[]Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+8)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.loops = map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type Exec struct {
	eng    *Engine
	root   *ssa.Function
	ct     *Contract
	quiet  int
	obls   []*Obl
	paths  int
	oldSt  *State
	fired  map[*AtCall]bool
	params []Val
	used   map[string]bool // assumptions used (externs, trusted contracts...)
	steps  int
	reach  int // paths reaching a return
	stack  []*ssa.Function
	all    bool
	smoke  [][]*Term
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	if x, ok := fr.regs[v]; ok {
		return x
	}
	switch c := v.(type) {
	case *ssa.Const:
		return Val{t: constTerm(c), ty: c.Type()}
	case *ssa.Global:
		return ex.globalPtr(c)
	case *ssa.Function:
		t := Const("fn!"+sanitize(c.String()), SInt)
		st.assume(Gt(t, Int(0)))
		return Val{t: t, clo: &Closure{fn: c}, ty: c.Type()}
	case *ssa.Builtin:
		return Val{ty: c.Type()}
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
}

func (ex *Exec) globalPtr(g *ssa.Global) Val {
	ty := derefT(g.Type())
	if _, ok := isStruct(ty); ok || isOpaqueStruct(ty) {
		nm := "gaddr!" + sanitize(typePkgName(g))
		return Val{t: Const(nm, SInt), ty: g.Type()}
	}
	if at, ok := ty.Underlying().(*types.Array); ok {
		_ = at
		return Val{t: Const("gaddr!"+sanitize(typePkgName(g)), SInt), ty: g.Type()}
	}
	if s := ex.eng.sentinel(g); s != nil {
		// constant error value
		return Val{pl: &Place{key: "S|" + typePkgName(g), ty: ty}, ty: g.Type(), t: s}
	}
	key := "G|" + typePkgName(g)
	if _, ok := keySorts[key]; !ok {
		keySorts[key] = sortOf(ty)
		keyGoType[key] = ty
	}
	return Val{pl: &Place{key: key, ty: ty}, ty: g.Type()}
}
func typePkgName(g *ssa.Global) string {
	if g.Pkg != nil {
		return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	}
	return g.Name()
}

func constTerm(c *ssa.Const) *Term {
	ty := c.Type()
	if c.Value == nil {
		return zeroOf(ty)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(ty) == SReal {
			return App("real", SReal, BigInt(constBig(c.Value)))
		}
		return BigInt(constBig(c.Value))
	case constant.Float:
		if sortOf(ty) == SInt {
			return BigInt(constBig(constant.ToInt(c.Value)))
		}
		r, _ := new(big.Rat).SetString(c.Value.ExactString())
		return App("/", SReal, App("real", SReal, BigInt(r.Num())), App("real", SReal, BigInt(r.Denom())))
	}
	unsup("constant %s", c)
	return nil
}
func constBig(v constant.Value) *big.Int {
	b, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		unsup("int constant %s", v)
	}
	return b
}

// ptrTerm: a pointer value as a term (places of cells only)
func (ex *Exec) ptrTerm(st *State, v Val) *Term {
	if v.t != nil && v.pl == nil {
		return v.t
	}
	if v.pl != nil {
		p := v.pl
		if strings.HasPrefix(p.key, "C|") && p.idx == nil && len(p.path) == 0 {
			return p.ref
		}
		unsup("interior pointer escapes: %s", p.key)
	}
	if v.clo != nil {
		panic("closure without term")
	}
	panic("ptrTerm")
}

// ---------- running ----------
func (ex *Exec) enter(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if ctx := fr.loops[to]; ctx != nil && ctx.loop.body[from] {
		ctx.onBack(st, fr, from)
		return
	}
	for h, ctx := range fr.loops {
		if !ctx.loop.body[to] {
			if ctx.discovery {
				return
			}
			delete(fr.loops, h)
		}
	}
	if l := ex.eng.loopsOf(fr.fn)[to]; l != nil && !ex.unrolled(st, fr, from, l) {
		ex.summarise(st, fr, from, l)
		return
	}
	ex.phis(st, fr, from, to)
	ex.run(st, fr, to, ex.firstNonPhi(to))
}

// unrolled: the loop counts to a small number that is known where it is entered (the elements of a literal, most often):
// its iterations are executed one after the other
func (ex *Exec) unrolled(st *State, fr *Frame, from *ssa.BasicBlock, l *loop) bool {
	if l.body[from] {
		// no summary of the loop is under way, so it is being unrolled
		return true
	}
	if !fr.inLoop && len(ex.ct.LoopInv) > 0 {
		return false
	}
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !l.body[h.Succs[0]] || l.body[h.Succs[1]] {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h || (cmp.Op != token.LSS && cmp.Op != token.LEQ) {
		return false
	}
	next := func(v ssa.Value) *ssa.Phi { // v is phi+1
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == 1 {
				if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
					return p
				}
			}
		}
		return nil
	}
	phi, _ := cmp.X.(*ssa.Phi)
	extra := int64(0)
	if phi == nil {
		phi, extra = next(cmp.X), 1
	}
	if phi == nil || phi.Block() != h {
		return false
	}
	for i, e := range phi.Edges {
		if l.body[h.Preds[i]] && next(e) != phi {
			return false
		}
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && l.body[in.Block()] {
		return false
	}
	lo := ex.val(st, fr, phi.Edges[predIndex(from, h)]).t
	hi := ex.val(st, fr, cmp.Y).t
	if lo == nil || hi == nil || lo.S != SInt || hi.S != SInt {
		return false
	}
	d, ok := constDiff(hi, lo)
	if !ok || !d.IsInt64() {
		return false
	}
	n := d.Int64() - extra
	if cmp.Op == token.LEQ {
		n++
	}
	ifs := 0
	for b := range l.body {
		if b != h && len(b.Succs) > 1 {
			ifs++
		}
	}
	limit := int64(16)
	switch {
	case ifs > 2:
		limit = 1
	case ifs == 2:
		limit = 4
	case ifs == 1:
		limit = 6
	}
	return n <= limit
}
func (ex *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}
func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	panic("pred")
}
func (ex *Exec) phis(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	pi := predIndex(from, to)
	var nv []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		nv = append(nv, ex.val(st, fr, p.Edges[pi]))
	}
	for i, p := range ps {
		fr.regs[p] = nv[i]
	}
}

func (ex *Exec) tick() {
	ex.steps++
	if ex.steps > 400000 {
		unsup("step budget exceeded (too many paths)")
	}
}

func (ex *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ex.tick()
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := ex.val(st, fr, in.Cond).t
			ex.branch(st, fr, c, func(st *State, fr *Frame) { ex.enter(st, fr, b, b.Succs[0]) },
				func(st *State, fr *Frame) { ex.enter(st, fr, b, b.Succs[1]) })
			return
		case *ssa.Jump:
			ex.enter(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			for _, ctx := range fr.loops {
				if ctx.discovery {
					return
				}
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, ex.val(st, fr, r))
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			ex.oblige(st, False, "panic", ex.panicTags(), "explicit panic unreachable", in.Pos())
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			next := i + 1
			ex.runDefers(st, fr, ds, func(st *State, fr *Frame) { ex.run(st, fr, b, next) })
			return
		case *ssa.Call:
			next := i + 1
			ex.call(st, fr, in.Common(), in.Pos(), func(st *State, fr *Frame, res []Val) {
				if in.Type() != nil {
					if tup, ok := in.Type().(*types.Tuple); ok {
						if tup.Len() == 1 && len(res) == 1 {
							fr.regs[in] = res[0]
						} else {
							fr.regs[in] = Val{tup: res, ty: in.Type()}
						}
					} else if len(res) == 1 {
						fr.regs[in] = res[0]
					}
				}
				ex.run(st, fr, b, next)
			})
			return
		case *ssa.Defer:
			d := deferred{call: in.Common(), pos: in.Pos()}
			if !in.Call.IsInvoke() {
				d.fn = ex.val(st, fr, in.Call.Value)
			} else {
				d.fn = ex.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, ex.val(st, fr, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			next := i + 1
			ex.goStmt(st, fr, in, func(st *State, fr *Frame) { ex.run(st, fr, b, next) })
			return
		case *ssa.Select:
			next := i + 1
			ex.selectStmt(st, fr, in, func(st *State, fr *Frame) { ex.run(st, fr, b, next) })
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				next := i + 1
				ch := ex.val(st, fr, in.X)
				v, ok := ex.recv(st, ch, in.X.Type())
				if in.CommaOk {
					fr.regs[in] = Val{tup: []Val{v, V(ok, types.Typ[types.Bool])}, ty: in.Type()}
				} else {
					fr.regs[in] = v
				}
				ex.run(st, fr, b, next)
				return
			}
			fr.regs[in] = ex.unop(st, fr, in)
		case *ssa.Next:
			ex.next(st, fr, in)
		case *ssa.TypeAssert:
			if in.CommaOk {
				fr.regs[in] = ex.typeAssert(st, fr, in)
			} else {
				fr.regs[in] = ex.typeAssert(st, fr, in)
			}
		default:
			ex.instr(st, fr, in)
		}
	}
	unsup("fell off block")
}

func (ex *Exec) branch(st *State, fr *Frame, c *Term, t, e func(*State, *Frame)) {
	if c == True || st.seen[c] {
		t(st, fr)
		return
	}
	if c == False || st.seen[Not(c)] {
		e(st, fr)
		return
	}
	s1, f1 := st.clone(), fr.clone()
	s1.assume(c)
	f1.settle(c)
	s2, f2 := st, fr
	ok1 := !s1.dead && ex.eng.feasible(s1)
	if ok1 {
		t(s1, f1)
	}
	s2.assume(Not(c))
	f2.settle(Not(c))
	if !s2.dead && ex.eng.feasible(s2) {
		e(s2, f2)
	}
}

// settle: values which were waiting for the truth of c (the value of a comma-ok form)
func (f *Frame) settle(c *Term) {
	n := Not(c)
	var fix func(t *Term, d int) *Term
	fix = func(t *Term, d int) *Term {
		if t == nil || t.kind != 'f' || d > 2 {
			return t
		}
		if t.Op == "ite" {
			switch t.Args[0] {
			case c:
				return fix(t.Args[1], d)
			case n:
				return fix(t.Args[2], d)
			}
			return t
		}
		if strings.HasPrefix(t.Op, "mk-") {
			as := make([]*Term, len(t.Args))
			same := true
			for i, a := range t.Args {
				as[i] = fix(a, d+1)
				same = same && as[i] == a
			}
			if same {
				return t
			}
			return Mk(t.S, as...)
		}
		return t
	}
	for k, v := range f.regs {
		if v.t == nil || v.pl != nil || v.clo != nil || v.it != nil || v.tup != nil {
			continue
		}
		if t := fix(v.t, 0); t != v.t {
			v.t = t
			f.regs[k] = v
		}
	}
}

func (ex *Exec) runDefers(st *State, fr *Frame, ds []deferred, k func(*State, *Frame)) {
	if len(ds) == 0 {
		k(st, fr)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	ex.callWith(st, fr, d.call, d.fn, d.args, d.pos, func(st *State, fr *Frame, _ []Val) {
		ex.runDefers(st, fr, rest, k)
	})
}

// ---------- obligations ----------
type Obl struct {
	Fn      string   `json:"fn"`
	Kind    string   `json:"kind"`
	Label   string   `json:"label"`
	Tags    []string `json:"tags"`
	Pos     string   `json:"pos"`
	facts   []*Term
	goal    *Term
	script  string
	Status  string   `json:"status"` // proved, trivial, failed, unknown
	Backend string   `json:"backend"`
	TimeMs  int64    `json:"time_ms"`
	Refuted bool     `json:"refuted,omitempty"`
	Output  string   `json:"output,omitempty"`
	Model   string   `json:"model,omitempty"`
	Trace   []string `json:"trace,omitempty"`
}

func (ex *Exec) wanted(tags []string) bool {
	if ex.eng.onlyTag == "" || ex.all {
		return true
	}
	return ex.wantedTag(tags)
}

// wantedTag: the property being decided is one of the tags
func (ex *Exec) wantedTag(tags []string) bool {
	if ex.eng.onlyTag == "" {
		return true
	}
	for _, t := range tags {
		if t == ex.eng.onlyTag {
			return true
		}
	}
	return false
}

// panicTags: properties for which panic freedom is an obligation of the function under check
func (ex *Exec) panicTags() []string { return ex.ct.NoPanic }

func (ex *Exec) oblige(st *State, goal *Term, kind string, tags []string, label string, pos token.Pos) {
	if st.dead {
		return
	}
	want := ex.wanted(tags) && len(tags) > 0
	switch kind {
	case "panic", "lock", "guard":
		// not part of what a caller relies on: decided for their own properties only
		want = len(tags) > 0 && ex.wantedTag(tags)
	case "loopinv":
		want = true // it is assumed
	case "requires", "chaninv", "alloc":
		if ex.all {
			want = true
		}
	}
	if ex.quiet == 0 && want {
		o := &Obl{Fn: ex.ct.Name, Kind: kind, Label: label, Tags: tags, Pos: ex.eng.pos(pos), goal: goal, facts: st.factList(), Trace: append([]string(nil), st.trace...)}
		if goal == True || st.seen[goal] {
			o.Status = "trivial"
			o.facts = nil
			ex.obls = append(ex.obls, o)
		} else {
			ex.obls = append(ex.obls, o)
			ex.eng.submit(o)
		}
	}
	st.assume(goal)
}

func (ex *Exec) safe(st *State, cond *Term, label string, pos token.Pos) {
	if cond == True || st.seen[cond] {
		return
	}
	ex.oblige(st, cond, "panic", ex.panicTags(), label, pos)
}

func (ex *Exec) nonNil(st *State, v Val, what string, pos token.Pos) {
	if v.pl != nil {
		return
	}
	if isAllocTerm(v.t) || (v.t.kind == 'f' && strings.HasPrefix(v.t.Op, "sub.")) || (v.t.kind == 'c' && strings.HasPrefix(v.t.Op, "gaddr!")) {
		return
	}
	ex.safe(st, Ne(v.t, Int(0)), "nil dereference: "+what, pos)
}

// ---------- instructions ----------
func (ex *Exec) instr(st *State, fr *Frame, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.Alloc:
		fr.regs[in] = ex.alloc(st, in)
	case *ssa.BinOp:
		fr.regs[in] = V(ex.binop(st, in.Op, ex.val(st, fr, in.X), ex.val(st, fr, in.Y), in.X.Type(), in.Type(), in.Pos()), in.Type())
	case *ssa.ChangeInterface:
		fr.regs[in] = V(ex.val(st, fr, in.X).t, in.Type())
	case *ssa.ChangeType:
		v := ex.val(st, fr, in.X)
		v.ty = in.Type()
		if v.t != nil {
			v.t = st.retag(v.t, in.X.Type(), in.Type())
		}
		fr.regs[in] = v
	case *ssa.Convert:
		fr.regs[in] = ex.convert(st, ex.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t := ex.val(st, fr, in.Tuple)
		fr.regs[in] = t.tup[in.Index]
	case *ssa.Field:
		x := ex.val(st, fr, in.X)
		if isOpaqueStruct(in.X.Type()) {
			s := in.X.Type().Underlying().(*types.Struct)
			fr.regs[in] = V(st.fix(App("ofield."+sanitize(typePath(in.X.Type()))+"."+s.Field(in.Field).Name(), sortOf(in.Type()), x.t), in.Type()), in.Type())
			return
		}
		fr.regs[in] = V(st.fix(SelF(x.t, in.Field), in.Type()), in.Type())
	case *ssa.FieldAddr:
		fr.regs[in] = ex.fieldAddr(st, ex.val(st, fr, in.X), derefT(in.X.Type()), in.Field, in.Pos())
	case *ssa.Index:
		x := ex.val(st, fr, in.X)
		i := ex.val(st, fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			ex.safe(st, And(Ge(i.t, Int(0)), Lt(i.t, Int(u.Len()))), "index in range", in.Pos())
			if isByteT(u.Elem()) {
				fr.regs[in] = V(st.fix(ByteAt(x.t, i.t), in.Type()), in.Type())
			} else {
				fr.regs[in] = V(st.fix(Select(x.t, i.t), in.Type()), in.Type())
			}
		case *types.Basic:
			ex.safe(st, And(Ge(i.t, Int(0)), Lt(i.t, StrLen(x.t))), "string index in range", in.Pos())
			fr.regs[in] = V(st.fix(ByteAt(x.t, i.t), in.Type()), in.Type())
		default:
			unsup("Index %s", in)
		}
	case *ssa.IndexAddr:
		x := ex.val(st, fr, in.X)
		i := ex.val(st, fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			ex.safe(st, And(Ge(i.t, Int(0)), Lt(i.t, SLen(x.t))), "index in range", in.Pos())
			fr.regs[in] = Val{pl: &Place{key: kElem(u.Elem()), ref: SArr(x.t), idx: Add(SOff(x.t), i.t), byt: isByteT(u.Elem()), ty: u.Elem()}, ty: in.Type()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			ex.safe(st, And(Ge(i.t, Int(0)), Lt(i.t, Int(at.Len()))), "index in range", in.Pos())
			if x.pl != nil {
				unsup("array place index")
			}
			fr.regs[in] = Val{pl: &Place{key: kElem(at.Elem()), ref: x.t, idx: i.t, byt: isByteT(at.Elem()), ty: at.Elem()}, ty: in.Type()}
		default:
			unsup("IndexAddr %s", in)
		}
	case *ssa.Lookup:
		x := ex.val(st, fr, in.X)
		i := ex.val(st, fr, in.Index)
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			ex.mapAccess(st, x.t, in.X.Type(), false, in.Pos())
			v, has := ex.mapGet(st, x.t, in.X.Type(), i.t)
			if in.CommaOk {
				fr.regs[in] = Val{tup: []Val{V(v, m.Elem()), V(has, types.Typ[types.Bool])}, ty: in.Type()}
			} else {
				fr.regs[in] = V(v, m.Elem())
			}
			return
		}
		ex.safe(st, And(Ge(i.t, Int(0)), Lt(i.t, StrLen(x.t))), "string index in range", in.Pos())
		fr.regs[in] = V(st.fix(ByteAt(x.t, i.t), in.Type()), in.Type())
	case *ssa.MakeChan:
		r := st.newRef()
		fr.regs[in] = V(r, in.Type())
		st.set(kGhost("chan.closed", SBool), Store(st.get(kGhost("chan.closed", SBool)), r, False))
		st.set(kGhost("chan.sent", SInt), Store(st.get(kGhost("chan.sent", SInt)), r, Int(0)))
		st.set(kGhost("chan.recvd", SInt), Store(st.get(kGhost("chan.recvd", SInt)), r, Int(0)))
		sz := ex.val(st, fr, in.Size).t
		ex.safe(st, Ge(sz, Int(0)), "channel size not negative", in.Pos())
		st.set(kGhost("chan.cap", SInt), Store(st.get(kGhost("chan.cap", SInt)), r, sz))
	case *ssa.MakeClosure:
		r := st.newRef()
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, ex.val(st, fr, b))
		}
		v := Val{t: r, clo: c, ty: in.Type()}
		fr.regs[in] = v
		closByTerm[r] = c
	case *ssa.MakeInterface:
		x := ex.val(st, fr, in.X)
		fr.regs[in] = V(ex.box(st, x, in.X.Type()), in.Type())
	case *ssa.MakeMap:
		r := st.newRef()
		mt := in.Type()
		m := mt.Underlying().(*types.Map)
		kd, kv := kMD(mt), kMV(mt)
		st.set(kd, Store(st.get(kd), r, ConstArr(ArrS(sortOf(m.Key()), SBool), False)))
		st.set(kv, Store(st.get(kv), r, ConstArr(ArrS(sortOf(m.Key()), sortOf(m.Elem())), zeroOf(m.Elem()))))
		fr.regs[in] = V(r, mt)
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		l := ex.val(st, fr, in.Len).t
		c := ex.val(st, fr, in.Cap).t
		ex.safe(st, And(Ge(l, Int(0)), Le(l, c)), "make: length in range", in.Pos())
		ex.onAlloc(st, l, in.Pos())
		var row *Term
		if isByteT(et) {
			row = App("zeros", SStr, l)
		} else {
			row = ConstArr(elemRowSort(et), zeroOf(et))
		}
		fr.regs[in] = V(st.newSlice(et, row, l), in.Type())
	case *ssa.MapUpdate:
		m := ex.val(st, fr, in.Map)
		ex.mapAccess(st, m.t, in.Map.Type(), true, in.Pos())
		ex.nonNil(st, m, "assignment to entry in nil map", in.Pos())
		ex.mapSet(st, m.t, in.Map.Type(), ex.val(st, fr, in.Key).t, ex.termOf(st, ex.val(st, fr, in.Value)))
	case *ssa.Range:
		x := ex.val(st, fr, in.X)
		iterCnt++
		it := &Iter{id: iterCnt, mt: in.X.Type()}
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			ex.mapAccess(st, x.t, in.X.Type(), false, in.Pos())
			it.m = x.t
			it.dom = st.mapDom(x.t, in.X.Type())
			ex.rangeFacts(st, it)
		} else {
			it.isStr = true
			it.str = x.t
		}
		st.iters[it.id] = Int(0)
		fr.regs[in] = Val{it: it, ty: in.Type()}
	case *ssa.Slice:
		fr.regs[in] = ex.slice(st, fr, in)
	case *ssa.Store:
		a := ex.val(st, fr, in.Addr)
		v := ex.val(st, fr, in.Val)
		ex.nonNil(st, a, "store", in.Pos())
		ex.guardAccess(st, a, true, in.Pos())
		st.store(a, derefT(in.Addr.Type()), ex.termOf(st, v))
	case *ssa.Send:
		ch := ex.val(st, fr, in.Chan)
		ex.send(st, ch, ex.val(st, fr, in.X), in.Chan.Type(), in.Pos())
	default:
		unsup("instruction %T: %s", instr, instr)
	}
}

var iterCnt int
var closByTerm = map[*Term]*Closure{}

// retag converts a value between types with identical underlying structure
func (st *State) retag(t *Term, from, to types.Type) *Term {
	if sortOf(from) == sortOf(to) {
		return t
	}
	if _, ok := isStruct(to); ok {
		d := dts[sortOf(to)]
		var as []*Term
		for i := range d.fields {
			as = append(as, SelF(t, i))
		}
		return Mk(sortOf(to), as...)
	}
	unsup("ChangeType %s -> %s", from, to)
	return nil
}

// termOf gives the value as a term (pointers to cells become refs)
func (ex *Exec) termOf(st *State, v Val) *Term {
	if v.pl != nil {
		if v.t != nil && strings.HasPrefix(v.pl.key, "S|") {
			unsup("address of sentinel escapes")
		}
		return ex.ptrTerm(st, v)
	}
	if v.t == nil {
		panic("termOf: no term")
	}
	return v.t
}

func (ex *Exec) box(st *State, x Val, ty types.Type) *Term {
	if _, ok := ty.Underlying().(*types.Interface); ok {
		return x.t
	}
	t := ex.termOf(st, x)
	boxType[tagOfType(ty)] = ty
	return Box(tagOfType(ty), t)
}

var boxType = map[string]types.Type{}

func (ex *Exec) alloc(st *State, in *ssa.Alloc) Val {
	ty := derefT(in.Type())
	r := st.newRef()
	st.locals[r] = true
	if _, ok := isStruct(ty); ok {
		st.storePtr(r, ty, zeroOf(ty))
		return V(r, in.Type())
	}
	if at, ok := ty.Underlying().(*types.Array); ok {
		if at.Len() == 0 && !isByteT(at.Elem()) {
			return V(r, in.Type()) // nothing to initialise
		}
		k := kElem(at.Elem())
		var row *Term
		if isByteT(at.Elem()) {
			row = App("zeros", SStr, Int(at.Len()))
		} else {
			row = ConstArr(elemRowSort(at.Elem()), zeroOf(at.Elem()))
		}
		st.set(k, Store(st.get(k), r, row))
		return V(r, in.Type())
	}
	if isOpaqueStruct(ty) {
		st.storePtr(r, ty, zeroOf(ty))
		if typePath(ty) == "sync.Map" {
			kd, _ := smKeys()
			st.set(kd, Store(st.get(kd), r, ConstArr(ArrS(SIface, SBool), False)))
		}
		return V(r, in.Type())
	}
	p := cellPlace(r, ty)
	st.storePlace(p, zeroOf(ty))
	return Val{pl: p, ty: in.Type()}
}

func (ex *Exec) fieldAddr(st *State, x Val, sty types.Type, i int, pos token.Pos) Val {
	if isOpaqueStruct(sty) {
		// field of an opaque struct: its own memory
		s := sty.Underlying().(*types.Struct)
		ft := s.Field(i).Type()
		r := ex.ptrTerm(st, x)
		ex.nonNil(st, x, s.Field(i).Name(), pos)
		if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
			return V(subRef(sty, i, r), types.NewPointer(ft))
		}
		k := regKey(keyField(sty, i), ArrS(SInt, sortOf(ft)))
		return Val{pl: &Place{key: k, ref: r, ty: ft}, ty: types.NewPointer(ft)}
	}
	s := sty.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if x.pl != nil {
		p := *x.pl
		p.path = append(append([]pathEl(nil), p.path...), pathEl{i, ft})
		p.ty = ft
		return Val{pl: &p, ty: types.NewPointer(ft)}
	}
	ex.nonNil(st, x, "field "+s.Field(i).Name(), pos)
	if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
		return V(subRef(sty, i, x.t), types.NewPointer(ft))
	}
	if at, ok := ft.Underlying().(*types.Array); ok && !isByteT(at.Elem()) {
		unsup("array field address")
	}
	return Val{pl: &Place{key: kField(sty, i), ref: x.t, ty: ft}, ty: types.NewPointer(ft)}
}

func (ex *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	x := ex.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if x.pl != nil && strings.HasPrefix(x.pl.key, "S|") {
			return V(x.t, in.Type())
		}
		ex.nonNil(st, x, "load", in.Pos())
		ex.guardAccess(st, x, false, in.Pos())
		t := st.load(x, derefT(in.X.Type()))
		v := V(t, in.Type())
		if c, ok := closByTerm[t]; ok {
			v.clo = c
		}
		return v
	case token.NOT:
		return V(Not(x.t), in.Type())
	case token.SUB:
		if x.t.S == SReal {
			return V(App("-", SReal, x.t), in.Type())
		}
		return V(Mul(Int(-1), x.t), in.Type())
	case token.XOR:
		return V(App("bitnot", SInt, x.t), in.Type())
	}
	unsup("unop %s", in)
	return Val{}
}

func (ex *Exec) binop(st *State, op token.Token, xv, yv Val, xt, rt types.Type, pos token.Pos) *Term {
	x, y := xv.t, yv.t
	if x == nil && xv.pl != nil {
		if y == Int(0) || yv.pl == nil && y == zeroOf(yv.ty) {
			switch op {
			case token.EQL:
				return False
			case token.NEQ:
				return True
			}
		}
		x = ex.termOf(st, xv)
	}
	if y == nil && yv.pl != nil {
		if x == Int(0) {
			switch op {
			case token.EQL:
				return False
			case token.NEQ:
				return True
			}
		}
		y = ex.termOf(st, yv)
	}
	switch op {
	case token.EQL, token.NEQ:
		// interface vs concrete comparisons have equal static types in SSA
		var e *Term
		if x.S == SSlice {
			if y == NilSlice {
				e = Eq(SArr(x), Int(0))
			} else if x == NilSlice {
				e = Eq(SArr(y), Int(0))
			} else {
				unsup("slice comparison")
			}
		} else {
			if x.S != y.S {
				if x.S == SIface {
					y = Box(tagOfType(yv.ty), y)
				} else if y.S == SIface {
					x = Box(tagOfType(xv.ty), x)
				}
			}
			e = Eq(x, y)
		}
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	if x.S == SStr {
		switch op {
		case token.ADD:
			return Cat(x, y)
		case token.LSS:
			return SLt(x, y)
		case token.GTR:
			return SLt(y, x)
		case token.LEQ:
			return Not(SLt(y, x))
		case token.GEQ:
			return Not(SLt(x, y))
		}
	}
	if x.S == SReal {
		switch op {
		case token.ADD:
			return App("+", SReal, x, y)
		case token.SUB:
			return App("-", SReal, x, y)
		case token.MUL:
			return App("*", SReal, x, y)
		case token.QUO:
			return App("/", SReal, x, y)
		case token.LSS:
			return App("<", SBool, x, y)
		case token.LEQ:
			return App("<=", SBool, x, y)
		case token.GTR:
			return App("<", SBool, y, x)
		case token.GEQ:
			return App("<=", SBool, y, x)
		}
	}
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.QUO, token.REM:
		ex.safe(st, Ne(y, Int(0)), "division by zero", pos)
		q := GoDiv(x, y)
		if op == token.QUO {
			return q
		}
		return Sub(x, Mul(y, q))
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if x.kind == 'i' && y.kind == 'i' {
			z := new(big.Int)
			switch op {
			case token.AND:
				return BigInt(z.And(x.big, y.big))
			case token.OR:
				return BigInt(z.Or(x.big, y.big))
			case token.SHL:
				return BigInt(z.Lsh(x.big, uint(y.big.Int64())))
			case token.SHR:
				return BigInt(z.Rsh(x.big, uint(y.big.Int64())))
			}
		}
		nm := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "bitandnot"}[op]
		return App(nm, SInt, x, y)
	}
	unsup("binop %s", op)
	return nil
}

// GoDiv: truncated division
func GoDiv(x, y *Term) *Term {
	if y.kind == 'i' && y.big.Sign() > 0 {
		if x.kind == 'i' {
			return BigInt(new(big.Int).Quo(x.big, y.big))
		}
		return Ite(Ge(x, Int(0)), App("div", SInt, x, y), Mul(Int(-1), App("div", SInt, Mul(Int(-1), x), y)))
	}
	return App("godiv", SInt, x, y)
}
func SLt(a, b *Term) *Term {
	if isStrLit(a) && isStrLit(b) {
		return Bool(strLitVal[a] < strLitVal[b])
	}
	return Lt(App("ord", SInt, a), App("ord", SInt, b))
}

func (ex *Exec) convert(st *State, x Val, from, to types.Type) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case tb != nil && tb.Info()&types.IsString != 0:
		if isByteSlice(from) {
			return V(st.bytesOf(x.t), to)
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return V(x.t, to)
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			return V(App("runestr", SStr, x.t), to)
		}
	case isByteSlice(to):
		if fb != nil && fb.Info()&types.IsString != 0 {
			return V(st.newBytes(x.t), to)
		}
		return V(x.t, to)
	case tb != nil && fb != nil:
		fi, ti := fb.Info(), tb.Info()
		if fi&types.IsInteger != 0 && ti&types.IsInteger != 0 {
			return V(ex.intConv(x.t, fb, tb), to)
		}
		if fi&types.IsInteger != 0 && ti&types.IsFloat != 0 {
			return V(App("real", SReal, x.t), to)
		}
		if fi&types.IsFloat != 0 && ti&types.IsInteger != 0 {
			return V(App("trunc", SInt, x.t), to)
		}
		if fi&types.IsFloat != 0 && ti&types.IsFloat != 0 {
			return V(x.t, to)
		}
	}
	if sortOf(from) == sortOf(to) {
		x.ty = to
		return x
	}
	unsup("convert %s -> %s", from, to)
	return Val{}
}

// integer conversions: widening is the identity; a narrowing conversion is the
// wrapped value (identity inside the range of the target).
func (ex *Exec) intConv(t *Term, f, to *types.Basic) *Term {
	lo, hi, bits := intRange(to)
	flo, fhi, _ := intRange(f)
	if t.kind == 'i' {
		if t.big.Cmp(lo) >= 0 && t.big.Cmp(hi) <= 0 {
			return t
		}
	}
	if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
		return t
	}
	if bits >= 64 {
		return t // mathematical integers (assumption: 64-bit values do not overflow)
	}
	in := And(Ge(t, BigInt(lo)), Le(t, BigInt(hi)))
	return Ite(in, t, App("wrap", SInt, Int(int64(bits)), t))
}
func intRange(b *types.Basic) (*big.Int, *big.Int, int) {
	n, s := 64, true
	switch b.Kind() {
	case types.Int8:
		n = 8
	case types.Int16:
		n = 16
	case types.Int32:
		n = 32
	case types.Uint8:
		n, s = 8, false
	case types.Uint16:
		n, s = 16, false
	case types.Uint32:
		n, s = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		n, s = 64, false
	}
	one := big.NewInt(1)
	if s {
		h := new(big.Int).Lsh(one, uint(n-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one), n
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one), n
}

func (ex *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	x := ex.val(st, fr, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = ex.val(st, fr, in.Low).t
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		hi := StrLen(x.t)
		if in.High != nil {
			hi = ex.val(st, fr, in.High).t
		}
		ex.safe(st, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, StrLen(x.t))), "slice bounds", in.Pos())
		return V(st.bsub(x.t, lo, Sub(hi, lo)), in.Type())
	case *types.Slice:
		l := SLen(x.t)
		hi := l
		if in.High != nil {
			hi = ex.val(st, fr, in.High).t
		}
		// capacity is at least the length; slicing beyond the length is treated as a potential panic
		ex.safe(st, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, l)), "slice bounds", in.Pos())
		return V(MkSlice(SArr(x.t), Add(SOff(x.t), lo), Sub(hi, lo)), in.Type())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		hi := Int(at.Len())
		if in.High != nil {
			hi = ex.val(st, fr, in.High).t
		}
		if x.pl != nil {
			unsup("slice of array place")
		}
		ex.safe(st, And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, Int(at.Len()))), "slice bounds", in.Pos())
		return V(MkSlice(x.t, lo, Sub(hi, lo)), in.Type())
	}
	unsup("slice %s", in)
	return Val{}
}

func (ex *Exec) mapGet(st *State, m *Term, mt types.Type, k *Term) (*Term, *Term) {
	mm := mt.Underlying().(*types.Map)
	if m == Int(0) {
		return zeroOf(mm.Elem()), False
	}
	has := Select(st.mapDom(m, mt), k)
	v := Select(st.mapVal(m, mt), k)
	if has == True || st.seen[has] {
		return st.fix(v, mm.Elem()), True
	}
	if has == False || st.seen[Not(has)] {
		return zeroOf(mm.Elem()), False
	}
	v = st.fixIf(has, v, mm.Elem())
	if sortOf(mm.Elem()) == SSlice {
		return MkSlice(Ite(has, SArr(v), Int(0)), Ite(has, SOff(v), Int(0)), Ite(has, SLen(v), Int(0))), has
	}
	return Ite(has, v, zeroOf(mm.Elem())), has
}

// fixIf: like fix (the facts hold for absent entries too, because absent entries
// of the value memory are unconstrained and can be chosen zero).
func (st *State) fixIf(c, v *Term, ty types.Type) *Term { return st.fix(v, ty) }

func (ex *Exec) mapSet(st *State, m *Term, mt types.Type, k, v *Term) {
	kd, kv := kMD(mt), kMV(mt)
	d, vv := st.mapDom(m, mt), st.mapVal(m, mt)
	st.set(kd, Store(st.get(kd), m, Store(d, k, True)))
	st.set(kv, Store(st.get(kv), m, Store(vv, k, v)))
}
func (ex *Exec) mapDelete(st *State, m *Term, mt types.Type, k *Term) {
	kd := kMD(mt)
	d := st.mapDom(m, mt)
	// deleting from a nil map is a no-op
	nd := Store(d, k, False)
	st.set(kd, Store(st.get(kd), m, nd))
	if m.kind != 'f' && !isAllocTerm(m) {
		// nil stays empty
	}
}

// map iteration: an enumeration of the domain
func mekey(dom, i *Term) *Term {
	ks, _ := splitArr(dom.S)
	return App("mekey."+sanitize(string(ks)), ks, dom, i)
}
func mepos(dom, k *Term) *Term {
	ks, _ := splitArr(dom.S)
	return App("mepos."+sanitize(string(ks)), SInt, dom, k)
}
func (ex *Exec) rangeFacts(st *State, it *Iter) { enumFacts(st, it.dom) }
func enumFacts(st *State, d *Term) {
	c := st.card(d)
	ks, _ := splitArr(d.S)
	i := BVar("i", SInt)
	k := BVar("k", ks)
	mk := mekey(d, i)
	st.assume(Forall([]*Term{i}, [][]*Term{{mk}}, Implies(And(Le(Int(0), i), Lt(i, c)), And(Select(d, mk), Eq(mepos(d, mk), i)))))
	mp := mepos(d, k)
	st.assume(Forall([]*Term{k}, [][]*Term{{App("select", SBool, d, k)}}, Implies(Select(d, k), And(Le(Int(0), mp), Lt(mp, c), Eq(mekey(d, mp), k)))))
}
func (ex *Exec) next(st *State, fr *Frame, in *ssa.Next) {
	it := fr.regs[in.Iter].it
	tup := in.Type().(*types.Tuple)
	pos := st.iters[it.id]
	if in.IsString {
		ok := Lt(pos, StrLen(it.str))
		fr.regs[in] = Val{tup: []Val{V(ok, types.Typ[types.Bool]), V(pos, tup.At(1).Type()), V(App("runeat", SInt, it.str, pos), tup.At(2).Type())}, ty: in.Type()}
		st.iters[it.id] = Add(pos, App("runew", SInt, it.str, pos))
		return
	}
	mt := it.mt.Underlying().(*types.Map)
	ok := Lt(pos, card(it.dom))
	k := mekey(it.dom, pos)
	v := Select(st.mapVal(it.m, it.mt), k)
	v = st.fix(v, mt.Elem())
	fr.regs[in] = Val{tup: []Val{V(ok, types.Typ[types.Bool]), V(st.fix(k, mt.Key()), mt.Key()), V(v, mt.Elem())}, ty: in.Type()}
	st.iters[it.id] = Add(pos, Int(1))
}

func (ex *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Val {
	x := ex.val(st, fr, in.X)
	to := in.AssertedType
	var ok, v *Term
	if _, isI := to.Underlying().(*types.Interface); isI {
		if types.Implements(in.X.Type(), to.Underlying().(*types.Interface)) {
			ok = Ne(x.t, NilI)
		} else if x.t == NilI {
			ok = False
		} else {
			ok = And(Ne(x.t, NilI), App("implements."+tagOfType(to), SBool, ITag(x.t)))
			if x.t.kind == 'f' && strings.HasPrefix(x.t.Op, "box.") {
				if bt, has := boxType[x.t.Op[4:]]; has {
					ok = Bool(types.Implements(bt, to.Underlying().(*types.Interface)))
				}
			}
		}
		v = x.t
	} else {
		tag := tagOfType(to)
		boxType[tag] = to
		ok = Eq(ITag(x.t), TagOf(tag))
		v = Unbox(tag, sortOf(to), x.t)
		st.assume(Implies(ok, Eq(x.t, Box(tag, v))))
	}
	if in.CommaOk {
		if ok == False {
			v = zeroOf(to)
		} else {
			v = st.fix(v, to)
			z := zeroOf(to)
			if sortOf(to) == SSlice {
				v = MkSlice(Ite(ok, SArr(v), Int(0)), Ite(ok, SOff(v), Int(0)), Ite(ok, SLen(v), Int(0)))
			} else {
				v = Ite(ok, v, z)
			}
		}
		return Val{tup: []Val{V(v, to), V(ok, types.Typ[types.Bool])}, ty: in.Type()}
	}
	ex.safe(st, ok, "type assertion to "+typePath(to), in.Pos())
	v = st.fix(v, to)
	r := V(v, to)
	if c, ok := closByTerm[v]; ok {
		r.clo = c
	}
	return r
}
