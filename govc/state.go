package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------- values ----------
type Val struct {
	t   *Term
	pl  *Place
	tup []Val
	clo *Closure
	it  *Iter
	ty  types.Type
}
type Closure struct {
	fn   *ssa.Function
	bind []Val
}
type Iter struct {
	id    int
	isStr bool
	m     *Term // map ref
	mt    types.Type
	dom   *Term // domain row at Range time
	str   *Term
}
type Place struct {
	key  string
	ref  *Term // nil for a global scalar
	idx  *Term // element index, or nil
	byt  bool  // element of a byte row
	path []pathEl
	ty   types.Type // type of the location
}
type pathEl struct {
	i  int
	ty types.Type // type of the field
}

func V(t *Term, ty types.Type) Val { return Val{t: t, ty: ty} }

// ---------- facts ----------
type fact struct {
	parent *fact
	t      *Term
	n      int
}

type State struct {
	mem     map[string]*Term
	facts   *fact
	seen    map[*Term]bool
	alloc   *Term
	iters   map[int]*Term // iterator positions
	dead    bool
	held    map[*Term]bool // lock terms acquired at least once in this function
	locals  map[*Term]bool // allocations whose address has not escaped
	trace   []string
	lockCnt map[*Term]int
}

func (st *State) clone() *State {
	n := *st
	n.mem = map[string]*Term{}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.seen = map[*Term]bool{}
	for k := range st.seen {
		n.seen[k] = true
	}
	n.iters = map[int]*Term{}
	for k, v := range st.iters {
		n.iters[k] = v
	}
	n.held = map[*Term]bool{}
	for k := range st.held {
		n.held[k] = true
	}
	n.locals = map[*Term]bool{}
	for k := range st.locals {
		n.locals[k] = true
	}
	n.lockCnt = map[*Term]int{}
	for k, v := range st.lockCnt {
		n.lockCnt[k] = v
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return &n
}

func newState() *State {
	st := &State{mem: map[string]*Term{}, seen: map[*Term]bool{}, iters: map[int]*Term{}, held: map[*Term]bool{}, locals: map[*Term]bool{}, lockCnt: map[*Term]int{}}
	st.alloc = Const("alloc!0", SInt)
	st.assume(Gt(st.alloc, Int(0)))
	return st
}

func (st *State) assume(t *Term) {
	if t == True || st.seen[t] {
		return
	}
	if t == False {
		st.dead = true
	}
	if t.kind == 'f' && t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	st.seen[t] = true
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
	}
	st.facts = &fact{st.facts, t, n}
	if st.seen[Not(t)] {
		st.dead = true
	}
}

func (st *State) factList() []*Term {
	var out []*Term
	for f := st.facts; f != nil; f = f.parent {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
func (st *State) factsSince(base *fact) []*Term {
	var out []*Term
	for f := st.facts; f != nil && f != base; f = f.parent {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------- memory ----------
var envConst = map[*Term]bool{}

// frame information: havoced array -> (previous array, allocation bound): refs
// below the bound keep their previous contents.
type frameInfo struct {
	prev  *Term
	bound *Term
}

var frameOf = map[*Term]frameInfo{}

func (st *State) get(key string) *Term {
	if t, ok := st.mem[key]; ok {
		return t
	}
	s, ok := keySorts[key]
	if !ok {
		panic("unregistered key " + key)
	}
	t := Const("M0|"+key, s)
	envConst[t] = true
	envAlloc[t] = Const("alloc!0", SInt)
	st.mem[key] = t
	if strings.HasPrefix(key, "MD|") {
		_, rs := splitArr(s)
		st.assume(Eq(App("select", rs, t, Int(0)), ConstArr(rs, False)))
	}
	return t
}
func (st *State) set(key string, t *Term) {
	if t.S != keySorts[key] {
		panic(fmt.Sprintf("set %s: sort %s", key, t.S))
	}
	st.mem[key] = t
}

// select with frame rewriting
func (st *State) sel(arr, ref *Term) *Term {
	for {
		r := Select(arr, ref)
		if r.kind == 'f' && r.Op == "select" && r.Args[1] == ref {
			if fi, ok := frameOf[r.Args[0]]; ok && isOldRef(ref, fi.bound) {
				arr = fi.prev
				continue
			}
		}
		return r
	}
}

// isOldRef: the object (or the object it is nested in) existed before bound
func isOldRef(ref, bound *Term) bool {
	r := rootRef(ref)
	if r.kind == 'c' && strings.HasPrefix(r.Op, "gaddr!") {
		return true
	}
	return isOlder(r, bound)
}

func isEnv(t *Term) bool {
	if envConst[t] {
		return true
	}
	if t.kind == 'f' && (t.Op == "select" || strings.HasPrefix(t.Op, "sel-") || strings.HasPrefix(t.Op, "unbox.")) {
		return isEnv(t.Args[0])
	}
	return false
}

// envBound: allocation bound of the environment constant a term was read from
var envAlloc = map[*Term]*Term{}

func envBound(t *Term) *Term {
	if envConst[t] {
		return envAlloc[t]
	}
	if t.kind == 'f' && t.Op == "select" {
		b := envBound(t.Args[0])
		if b == nil {
			return nil
		}
		// only objects which existed when the environment constant was introduced
		if envConst[t.Args[0]] && t.Args[1].S == SInt && !isOlder(t.Args[1], b) {
			return nil
		}
		return b
	}
	if t.kind == 'f' && (strings.HasPrefix(t.Op, "sel-") || strings.HasPrefix(t.Op, "unbox.")) {
		return envBound(t.Args[0])
	}
	return nil
}

// normLen[arr] = len: the byte row of arr is known to have exactly this length
var normLen = map[*Term]*Term{}

// fix adds the facts every value of Go type ty satisfies and normalises environment slices.
func (st *State) fix(t *Term, ty types.Type) *Term {
	if t.hasBV {
		// no facts about bound variables
		if t.S == SSlice && t != NilSlice && isEnv(t) {
			return MkSlice(SArr(t), Int(0), SLen(t))
		}
		return t
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if t.kind == 'i' {
			return t
		}
		switch u.Kind() {
		case types.Uint8:
			st.assume(Ge(t, Int(0)))
			st.assume(Le(t, Int(255)))
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			st.assume(Ge(t, Int(0)))
		}
	case *types.Array:
		if isByteT(u.Elem()) && t.S == SStr {
			st.assume(Eq(StrLen(t), Int(u.Len())))
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if t.kind != 'i' && !isAllocTerm(t) {
			bound := st.alloc
			if b := envBound(t); b != nil {
				bound = b
			}
			st.assume(Lt(t, bound))
			markOlder(t, bound)
			if _, ok := u.(*types.Pointer); !ok {
				st.assume(Ge(t, Int(0)))
			}
		}
	case *types.Slice:
		if t == NilSlice {
			return t
		}
		if isEnv(t) {
			t2 := MkSlice(SArr(t), Int(0), SLen(t))
			st.assume(Eq(SOff(t), Int(0)))
			t = t2
			st.sliceFacts(t, u)
			if isByteT(u.Elem()) {
				row := st.sel(st.get(kElem(u.Elem())), SArr(t))
				st.assume(Eq(StrLen(row), SLen(t)))
				if row.kind == 'f' && row.Op == "select" {
					normLen[row] = SLen(t)
				}
			}
			return t
		}
		if !(isCtor(t) && isAllocTerm(SArr(t))) {
			st.sliceFacts(t, u)
		}
	case *types.Interface:
		if t.kind == 'c' && t != NilI {
			st.assume(Ge(ITag(t), Int(0)))
		}
	}
	return t
}
func (st *State) sliceFacts(t *Term, u *types.Slice) {
	a, o, l := SArr(t), SOff(t), SLen(t)
	st.assume(Ge(l, Int(0)))
	st.assume(Ge(o, Int(0)))
	st.assume(Ge(a, Int(0)))
	st.assume(Implies(Eq(a, Int(0)), Eq(l, Int(0))))
	if a.kind != 'i' && !isAllocTerm(a) {
		bound := st.alloc
		if b := envBound(a); b != nil {
			bound = b
		}
		st.assume(Lt(a, bound))
		markOlder(a, bound)
	}
}

// isAllocTerm: term of the form allocbase + k
func isAllocTerm(t *Term) bool {
	m, _ := lin(t)
	if len(m) != 1 {
		return false
	}
	for k, v := range m {
		return strings.HasPrefix(k.Op, "alloc") && v.IsInt64() && v.Int64() == 1
	}
	return false
}

func (st *State) newRef() *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

// bumpAlloc: an unknown number of objects was allocated by somebody else.
func (st *State) bumpAlloc() {
	old := st.alloc
	n := Fresh("alloc", SInt)
	st.alloc = n
	st.assume(Ge(n, old))
	m, c := lin(old)
	for k := range m {
		basePrev[n] = k
		baseAt[n] = c
	}
}

// allocation bases: predecessor and the offset it had reached
var basePrev = map[*Term]*Term{}
var baseAt = map[*Term]*big.Int{}

// ---------- loads and stores ----------
func (st *State) loadPlace(p *Place) *Term {
	var v *Term
	if p.ref == nil {
		v = st.get(p.key)
	} else {
		v = st.sel(st.get(p.key), p.ref)
	}
	if p.idx != nil {
		if p.byt {
			v = ByteAt(v, p.idx)
		} else {
			v = Select(v, p.idx)
		}
	}
	for _, e := range p.path {
		v = SelF(v, e.i)
	}
	return st.fix(v, p.ty)
}
func (st *State) storePlace(p *Place, val *Term) {
	upd := func(old *Term) *Term {
		if len(p.path) == 0 {
			return val
		}
		return updPath(old, p.path, val)
	}
	cur := st.get(p.key)
	if p.ref == nil {
		if len(p.path) > 0 {
			unsup("store through global path")
		}
		st.set(p.key, val)
		return
	}
	old := st.sel(cur, p.ref)
	var nv *Term
	if p.idx != nil {
		if p.byt {
			nv = App("bset", SStr, old, p.idx, val)
		} else {
			nv = Store(old, p.idx, upd(Select(old, p.idx)))
		}
	} else {
		nv = upd(old)
	}
	st.set(p.key, Store(cur, p.ref, nv))
}
func updPath(old *Term, path []pathEl, val *Term) *Term {
	if len(path) == 0 {
		return val
	}
	d := dts[old.S]
	as := make([]*Term, len(d.fields))
	for i := range d.fields {
		as[i] = SelF(old, i)
	}
	as[path[0].i] = updPath(as[path[0].i], path[1:], val)
	return Mk(old.S, as...)
}

// ptrPlace turns a pointer-to-non-struct term into a place
func cellPlace(ref *Term, ty types.Type) *Place { return &Place{key: kCell(ty), ref: ref, ty: ty} }

// loadPtr loads *ref of type ty (struct: assembled from the field memories)
func (st *State) loadPtr(ref *Term, ty types.Type) *Term {
	if s, ok := isStruct(ty); ok {
		var as []*Term
		so := sortOf(ty)
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, st.loadField(ref, ty, i))
		}
		return Mk(so, as...)
	}
	if at, ok := ty.Underlying().(*types.Array); ok {
		return st.sel(st.get(kElem(at.Elem())), ref)
	}
	if isOpaqueStruct(ty) {
		return st.fix(st.sel(st.get(kCell(ty)), ref), ty)
	}
	return st.loadPlace(cellPlace(ref, ty))
}
func (st *State) loadField(ref *Term, ty types.Type, i int) *Term {
	s := ty.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if _, ok := isStruct(ft); ok {
		return st.loadPtr(subRef(ty, i, ref), ft)
	}
	if isOpaqueStruct(ft) {
		return st.loadPtr(subRef(ty, i, ref), ft)
	}
	return st.fix(st.sel(st.get(kField(ty, i)), ref), ft)
}
func (st *State) storeField(ref *Term, ty types.Type, i int, v *Term) {
	s := ty.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if _, ok := isStruct(ft); ok {
		st.storePtr(subRef(ty, i, ref), ft, v)
		return
	}
	if isOpaqueStruct(ft) {
		st.storePtr(subRef(ty, i, ref), ft, v)
		return
	}
	k := kField(ty, i)
	st.set(k, Store(st.get(k), ref, v))
}
func (st *State) storePtr(ref *Term, ty types.Type, v *Term) {
	if s, ok := isStruct(ty); ok {
		for i := 0; i < s.NumFields(); i++ {
			st.storeField(ref, ty, i, SelF(v, i))
		}
		return
	}
	if at, ok := ty.Underlying().(*types.Array); ok {
		k := kElem(at.Elem())
		st.set(k, Store(st.get(k), ref, v))
		return
	}
	if isOpaqueStruct(ty) {
		k := kCell(ty)
		st.set(k, Store(st.get(k), ref, v))
		if v.kind == 'c' && strings.HasPrefix(v.Op, "zero.") {
			initGhosts(st, ref, ty)
		}
		return
	}
	st.storePlace(cellPlace(ref, ty), v)
}

// load through any pointer value
func (st *State) load(p Val, ty types.Type) *Term {
	if p.pl != nil {
		if _, ok := isStruct(ty); ok && p.pl.idx == nil && p.pl.ref != nil && len(p.pl.path) == 0 && strings.HasPrefix(p.pl.key, "P|") {
			panic("unreachable")
		}
		return st.loadPlace(p.pl)
	}
	return st.loadPtr(p.t, ty)
}
func (st *State) store(p Val, ty types.Type, v *Term) {
	if p.pl != nil {
		st.storePlace(p.pl, v)
		return
	}
	st.storePtr(p.t, ty, v)
}

// ---------- byte rows ----------
func ByteAt(row, i *Term) *Term {
	// an element of a byte row that was written element by element
	if i.kind == 'i' {
		base, known := row, true
		for base.Op == "bset" {
			if base.Args[1].kind != 'i' {
				known = false
			}
			base = base.Args[0]
		}
		if known && base.Op == "zeros" && base.Args[0].kind == 'i' && i.big.Sign() >= 0 && i.big.Cmp(base.Args[0].big) < 0 {
			for r := row; r.Op == "bset"; r = r.Args[0] {
				if r.Args[1].big.Cmp(i.big) == 0 {
					return r.Args[2]
				}
			}
			return Int(0)
		}
	}
	return App("byteat", SInt, row, i)
}
func (st *State) bytesOf(s *Term) *Term {
	if s == NilSlice {
		return StrLit("")
	}
	row := st.sel(st.get(kElem(types.Typ[types.Uint8])), SArr(s))
	return st.bsub(row, SOff(s), SLen(s))
}
func (st *State) bsub(row, off, l *Term) *Term {
	if off.kind == 'i' && off.big.Sign() == 0 {
		if StrLen(row) == l || normLen[row] == l {
			return row
		}
	}
	if l.kind == 'i' && l.big.Sign() == 0 {
		return StrLit("")
	}
	if isStrLit(row) && off.kind == 'i' && l.kind == 'i' {
		s := strLitVal[row]
		o, n := off.big.Int64(), l.big.Int64()
		if o >= 0 && n >= 0 && o+n <= int64(len(s)) {
			return StrLit(s[o : o+n])
		}
	}
	// bsub(bsub(r,o,_),o2,n) = bsub(r,o+o2,n)
	if row.kind == 'f' && row.Op == "bsub" {
		return st.bsub(row.Args[0], Add(row.Args[1], off), l)
	}
	r := App("bsub", SStr, row, off, l)
	st.assume(Implies(And(Eq(off, Int(0)), Eq(l, StrLen(row))), Eq(r, row)))
	st.assume(Implies(And(Ge(off, Int(0)), Ge(l, Int(0)), Le(Add(off, l), StrLen(row))), Eq(StrLen(r), l)))
	return r
}
func (st *State) newBytes(content *Term) *Term {
	a := st.newRef()
	k := kElem(types.Typ[types.Uint8])
	st.set(k, Store(st.get(k), a, content))
	return MkSlice(a, Int(0), StrLen(content))
}

// mkSlice with given row
func (st *State) newSlice(et types.Type, row, l *Term) *Term {
	a := st.newRef()
	if l.kind == 'i' && l.big.Sign() == 0 && !isByteT(et) {
		return MkSlice(a, Int(0), l) // nothing to initialise
	}
	k := kElem(et)
	st.set(k, Store(st.get(k), a, row))
	return MkSlice(a, Int(0), l)
}
func (st *State) row(et types.Type, s *Term) *Term { return st.sel(st.get(kElem(et)), SArr(s)) }
func (st *State) elemAt(et types.Type, s, i *Term) *Term {
	if isByteT(et) {
		return ByteAt(st.row(et, s), Add(SOff(s), i))
	}
	return st.fix(Select(st.row(et, s), Add(SOff(s), i)), et)
}

// ---------- maps ----------
func (st *State) mapDom(m *Term, mt types.Type) *Term { return st.sel(st.get(kMD(mt)), m) }
func (st *State) mapVal(m *Term, mt types.Type) *Term { return st.sel(st.get(kMV(mt)), m) }

func card(dom *Term) *Term {
	if dom.kind == 'K' && dom.Args[0] == False {
		return Int(0)
	}
	ks, _ := splitArr(dom.S)
	return App("card."+sanitize(string(ks)), SInt, dom)
}

// cardFacts: cardinality facts along a store chain
func (st *State) card(dom *Term) *Term {
	c := card(dom)
	d := dom
	for {
		if d.kind == 'f' && d.Op == "store" {
			base, k, v := d.Args[0], d.Args[1], d.Args[2]
			if v == True {
				st.assume(Eq(card(d), Add(card(base), Ite(Select(base, k), Int(0), Int(1)))))
			} else if v == False {
				st.assume(Eq(card(d), Sub(card(base), Ite(Select(base, k), Int(1), Int(0)))))
			}
			st.cardBase(d)
			d = base
			continue
		}
		break
	}
	st.cardBase(d)
	return c
}
func (st *State) cardBase(d *Term) {
	c := card(d)
	if c.kind != 'i' {
		st.assume(Ge(c, Int(0)))
		ks, _ := splitArr(d.S)
		x := BVar("x", ks)
		// empty <=> no member
		w := App("cardw."+sanitize(string(ks)), ks, d)
		// and with one member only the witness is in it
		st.assume(Forall([]*Term{x}, [][]*Term{{App("select", SBool, d, x)}}, Implies(Select(d, x), And(Gt(c, Int(0)), Or(Eq(x, w), Gt(c, Int(1)))))))
		st.assume(Implies(Gt(c, Int(0)), Select(d, w)))
	}
}
