package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- natural loops ----------
type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	loop      *loop
	discovery bool
	onBack    func(st *State, fr *Frame, from *ssa.BasicBlock)
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	out := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	return out
}

// ---------- loop components ----------
const (
	cKeep = iota
	cAffine
	cGeneral
)

// comp: one scalar (or array row) that may change from iteration to iteration
type comp struct {
	name  string
	kind  int
	c     *big.Int // affine step
	init  *Term
	hist  *Term // Array Int S, for general components
	phi   *ssa.Phi
	sub   int // slice part: 0 arr 1 off 2 len, -1 whole value
	key   string
	ref   *Term
	iter  int
	isIt  bool
	grown bool
	kept  bool // some path leaves it alone
	pass  int  // pass in which it was last demoted
}

func (c *comp) at(n *Term) *Term {
	switch c.kind {
	case cKeep:
		return c.init
	case cAffine:
		return Add(c.init, Mul(BigInt(c.c), n))
	}
	return Select(c.hist, n)
}

type keyMod struct {
	cells     map[*Term]bool
	freshOnly bool
	whole     bool
}

type backPath struct {
	facts []*Term
	next  map[*comp]*Term
	st    *State
	// per key: stores on refs allocated in the body
	fresh map[string][][2]*Term
	hop   map[string]bool
}

type summary struct {
	ex        *Exec
	l         *loop
	pre       *State
	n         *Term
	start     int
	phiComps  map[*ssa.Phi][]*comp
	phiVals   map[*ssa.Phi]Val // non-term phis which keep their value
	cells     map[string]map[*Term][]*comp
	iterComps map[int]*comp
	mods      map[string]*keyMod
	held      map[*Term]bool
	locals    map[*Term]bool
	paths     []*backPath
	headAlloc *Term
	headMem   map[string]*Term
	changed   bool
	fresh     map[string]*Term
	wholeHist map[string]*Term
	pass      int
}

func rootRef(t *Term) *Term {
	for t.kind == 'f' && strings.HasPrefix(t.Op, "sub.") {
		t = t.Args[0]
	}
	return t
}

func mkComps(name string, init *Term) []*comp {
	if init.S == SSlice {
		var out []*comp
		for i, p := range []*Term{SArr(init), SOff(init), SLen(init)} {
			out = append(out, &comp{name: name + []string{".arr", ".off", ".len"}[i], init: p, sub: i})
		}
		return out
	}
	return []*comp{{name: name, init: init, sub: -1}}
}
func compsAt(cs []*comp, n *Term) *Term {
	if len(cs) == 3 {
		return MkSlice(cs[0].at(n), cs[1].at(n), cs[2].at(n))
	}
	return cs[0].at(n)
}
func part(c *comp, v *Term) *Term {
	if c.sub >= 0 {
		return SelF(v, c.sub)
	}
	return v
}

func (s *summary) mentionsBody(t *Term) bool {
	return mentionsF(t, func(x *Term) bool { return x.kind == 'c' && x.mark > s.start }, map[*Term]bool{})
}

// headState builds the state at the head of iteration n
func (s *summary) headState(final bool) (*State, *fact) {
	st := s.pre.clone()
	base := st.facts
	st.assume(Ge(s.n, Int(0)))
	st.bumpAlloc()
	s.headAlloc = st.alloc
	s.headMem = map[string]*Term{}
	st.held = map[*Term]bool{}
	for k := range s.held {
		st.held[k] = true
	}
	st.locals = map[*Term]bool{}
	for k := range s.locals {
		st.locals[k] = true
	}
	var keys []string
	for k := range s.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m := s.mods[k]
		pre := s.pre.get(k)
		ks := keySorts[k]
		if m.whole {
			h := s.wholeHist[k]
			if h == nil {
				h = Fresh("HK."+k, ArrS(SInt, ks))
				s.wholeHist[k] = h
			}
			v := Select(h, s.n)
			if strings.HasPrefix(k, "MD|") {
				_, rs := splitArr(ks)
				st.assume(Eq(App("select", rs, v, Int(0)), ConstArr(rs, False)))
			}
			st.mem[k] = v
			continue
		}
		arr := pre
		if m.freshOnly {
			x := Fresh("X."+k, ks)
			frameOf[x] = frameInfo{prev: pre, bound: s.pre.alloc}
			if b, ok := envAlloc[pre]; ok && b != nil {
				// refs older than the previous array's own bound keep that bound through frameOf
				_ = b
			}
			s.fresh[k] = x
			arr = x
			_, es := splitArr(ks)
			r := BVar("r", SInt)
			st.assume(Forall([]*Term{r}, [][]*Term{{App("select", es, x, r)}}, Implies(Lt(App("rootref", SInt, r), s.pre.alloc), Eq(App("select", es, x, r), Select(pre, r)))))
		}
		for _, ref := range sortedTerms(m.cells) {
			cs := s.cells[k][ref]
			v := compsAt(cs, s.n)
			if ref == globalRef {
				arr = v
				continue
			}
			arr = Store(arr, ref, v)
		}
		st.mem[k] = arr
	}
	for id, c := range s.iterComps {
		st.iters[id] = c.at(s.n)
	}
	for k, v := range st.mem {
		s.headMem[k] = v
	}
	_ = final
	return st, base
}

var globalRef = Const("$global", SInt)

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (s *summary) phiValues(st *State, fr *Frame) {
	for _, in := range s.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := s.phiVals[p]; ok {
			fr.regs[p] = v
			continue
		}
		t := compsAt(s.phiComps[p], s.n)
		general := false
		for _, c := range s.phiComps[p] {
			if c.kind != cKeep {
				general = true
			}
		}
		if general {
			t = st.fix(t, p.Type())
		}
		v := V(t, p.Type())
		if c, ok := closByTerm[t]; ok {
			v.clo = c
		}
		fr.regs[p] = v
	}
}

// update checks the next values of a component and demotes it if necessary
func (s *summary) demote(c *comp, next *Term) {
	n1 := Add(s.n, Int(1))
	switch c.kind {
	case cKeep:
		if next == c.init {
			c.kept = true
			return
		}
		if next.S == SInt && !c.kept {
			if d, ok := constDiff(next, c.init); ok && d.Sign() != 0 {
				c.kind = cAffine
				c.c = d
				c.pass = s.pass
				s.changed = true
				return
			}
		}
		s.general(c)
	case cAffine:
		if c.pass == s.pass {
			// demoted by another path of this pass: next is still relative to the initial value
			if d, ok := constDiff(next, c.init); !ok || d.Cmp(c.c) != 0 {
				s.general(c)
			}
			return
		}
		if next == c.at(n1) || Eq(next, c.at(n1)) == True {
			return
		}
		s.general(c)
	}
}
func (s *summary) general(c *comp) {
	c.kind = cGeneral
	c.hist = Fresh("H."+c.name, ArrS(SInt, c.init.S))
	s.changed = true
}

func (s *summary) mod(k string) *keyMod {
	m := s.mods[k]
	if m == nil {
		m = &keyMod{cells: map[*Term]bool{}}
		s.mods[k] = m
	}
	return m
}

// back collects one path to the back edge
func (s *summary) back(st *State, fr *Frame, from *ssa.BasicBlock, base *fact) {
	bp := &backPath{facts: st.factsSince(base), next: map[*comp]*Term{}, st: st, fresh: map[string][][2]*Term{}, hop: map[string]bool{}}
	pi := -1
	if from != nil {
		pi = predIndex(from, s.l.header)
	}
	for _, in := range s.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := s.ex.val(st, fr, p.Edges[pi])
		if pv, ok := s.phiVals[p]; ok {
			if !sameVal(pv, v) {
				// a pointer that changes from iteration to iteration
				if pv.pl != nil || v.pl != nil || pv.it != nil || pv.t == nil {
					unsup("loop-carried interior pointer in %s", s.l.header.Parent())
				}
				delete(s.phiVals, p)
				s.phiComps[p] = mkComps("phi."+p.Name(), pv.t)
				s.changed = true
			} else {
				continue
			}
		}
		t := s.ex.termOf(st, v)
		for _, c := range s.phiComps[p] {
			nx := part(c, t)
			s.demote(c, nx)
			bp.next[c] = nx
		}
	}
	for id, c := range s.iterComps {
		nx := st.iters[id]
		s.demote(c, nx)
		bp.next[c] = nx
	}
	for k := range st.held {
		if !s.held[k] && !s.mentionsBody(k) {
			s.held[k] = true
			s.changed = true
		}
	}
	for k := range s.locals {
		if !st.locals[k] {
			delete(s.locals, k)
			s.changed = true
		}
	}
	var keys []string
	for k := range st.mem {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cur := st.mem[k]
		head, ok := s.headMem[k]
		if !ok {
			// first touched in the body: its initial constant
			head = Const("M0|"+k, keySorts[k])
			s.pre.get(k)
		}
		if m := s.mods[k]; m != nil && m.whole {
			continue
		}
		if !strings.HasPrefix(string(keySorts[k]), "(Array") || strings.HasPrefix(k, "G|") {
			// a global variable
			m := s.mods[k]
			if m == nil {
				if cur == head {
					continue
				}
				m = s.mod(k)
				m.cells[globalRef] = true
				s.setCell(k, globalRef, mkComps("g."+k, s.pre.get(k)))
				s.changed = true
			}
			for _, c := range s.cells[k][globalRef] {
				nx := part(c, cur)
				s.demote(c, nx)
				bp.next[c] = nx
			}
			continue
		}
		if cur != head {
			s.diff(st, bp, k, cur, head)
		}
		if m := s.mods[k]; m != nil && !m.whole {
			for _, ref := range sortedTerms(m.cells) {
				v := st.sel(cur, ref)
				for _, c := range s.cells[k][ref] {
					nx := part(c, v)
					s.demote(c, nx)
					bp.next[c] = nx
				}
			}
		}
	}
	s.paths = append(s.paths, bp)
}

func (s *summary) setCell(k string, ref *Term, cs []*comp) {
	if len(cs) == 3 {
		if t := keyGoType[k]; t != nil {
			v := MkSlice(cs[0].init, cs[1].init, cs[2].init)
			if isEnv(v) {
				v = s.pre.fix(v, t)
				cs[0].init, cs[1].init, cs[2].init = SArr(v), SOff(v), SLen(v)
			}
		}
	}
	if s.cells[k] == nil {
		s.cells[k] = map[*Term][]*comp{}
	}
	s.cells[k][ref] = cs
}

// diff classifies how an array memory changed
func (s *summary) diff(st *State, bp *backPath, k string, cur, head *Term) {
	m := s.mod(k)
	seen := map[*Term]bool{}
	x := cur
	// stores of the head value may have been overwritten in place
	chain := map[*Term]int{}
	var over []*Term
	for y := head; ; y = y.Args[0] {
		chain[y] = len(over)
		if !(y.kind == 'f' && y.Op == "store") {
			break
		}
		over = append(over, y.Args[1])
	}
	for {
		if i, ok := chain[x]; ok {
			for _, r := range over[:i] {
				if !seen[r] {
					s.setWhole(k)
				}
			}
			return
		}
		if x.kind == 'f' && x.Op == "store" {
			ref, val := x.Args[1], x.Args[2]
			x = x.Args[0]
			dup := seen[ref]
			seen[ref] = true
			if !s.mentionsBody(ref) {
				if !m.cells[ref] {
					if st.sel(x, ref) == val && !dup {
						continue
					}
					// distinct from the other cells of this key?
					for o := range m.cells {
						if !s.distinct(o, ref) {
							s.setWhole(k)
							return
						}
					}
					m.cells[ref] = true
					s.setCell(k, ref, mkComps("cell."+lastName(strings.ReplaceAll(k, "|", ".")), s.pre.sel(s.pre.get(k), ref)))
					s.changed = true
				}
				continue
			}
			if s.isBodyFresh(rootRef(ref)) {
				if !m.freshOnly {
					m.freshOnly = true
					s.changed = true
				}
				if !dup {
					bp.fresh[k] = append(bp.fresh[k], [2]*Term{ref, val})
				}
				continue
			}
			// store of the value already there
			s.setWhole(k)
			return
		}
		if fi, ok := frameOf[x]; ok && s.boundInBody(fi.bound) {
			if !m.freshOnly {
				m.freshOnly = true
				s.changed = true
			}
			bp.hop[k] = true
			x = fi.prev
			continue
		}
		s.setWhole(k)
		return
	}
}
func (s *summary) setWhole(k string) {
	m := s.mod(k)
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "  loop in %s: whole key %s\n", s.l.header.Parent().Name(), k)
	}
	m.whole = true
	s.changed = true
}
func (s *summary) distinct(a, b *Term) bool {
	if synDistinct(a, b) || distinctByAlloc(a, b) {
		return true
	}
	p := s.pre.clone()
	p.assume(Eq(a, b))
	return p.dead || !s.ex.eng.feasible(p)
}

// isBodyFresh: allocated since the head of this iteration
func (s *summary) isBodyFresh(t *Term) bool {
	m, _ := lin(t)
	if len(m) != 1 {
		return false
	}
	for k, v := range m {
		return strings.HasPrefix(k.Op, "alloc") && k.mark > s.start && v.IsInt64() && v.Int64() == 1
	}
	return false
}
func (s *summary) boundInBody(b *Term) bool { return s.isBodyFresh(b) }

func sameVal(a, b Val) bool {
	if a.pl != nil || b.pl != nil {
		if a.pl == nil || b.pl == nil {
			return false
		}
		return a.pl.key == b.pl.key && a.pl.ref == b.pl.ref && a.pl.idx == b.pl.idx && len(a.pl.path) == len(b.pl.path)
	}
	if a.it != nil || b.it != nil {
		return a.it == b.it
	}
	if len(a.tup) > 0 || len(b.tup) > 0 {
		return false
	}
	return a.t == b.t
}

func (ex *Exec) summarise(st *State, fr *Frame, from *ssa.BasicBlock, l *loop) {
	s := &summary{ex: ex, l: l, pre: st, phiComps: map[*ssa.Phi][]*comp{}, phiVals: map[*ssa.Phi]Val{}, cells: map[string]map[*Term][]*comp{},
		iterComps: map[int]*comp{}, mods: map[string]*keyMod{}, held: map[*Term]bool{}, locals: map[*Term]bool{}, fresh: map[string]*Term{}, wholeHist: map[string]*Term{}}
	freshCnt++
	s.start = freshCnt
	s.n = Fresh("n", SInt)
	for k := range st.held {
		s.held[k] = true
	}
	for k := range st.locals {
		s.locals[k] = true
	}
	var invs []*AtCall
	if !fr.inLoop && len(fr.loops) == 0 {
		invs = ex.ct.LoopInv
	}
	pi := predIndex(from, l.header)
	// the variables which the loop carries, as they come in along an edge
	carried := func(st *State, fr *Frame, from *ssa.BasicBlock) (vs []Val) {
		if len(invs) == 0 {
			return nil
		}
		pi := predIndex(from, l.header)
		for _, in := range l.header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := ex.val(st, fr, p.Edges[pi])
			v.ty = p.Type()
			vs = append(vs, v)
		}
		return vs
	}
	for _, iv := range invs {
		ex.loopInv(st, iv, "entry", l, carried(st, fr, from))
	}
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.val(st, fr, p.Edges[pi])
		if v.pl != nil || v.it != nil || v.t == nil || v.clo != nil {
			s.phiVals[p] = v
			continue
		}
		s.phiComps[p] = mkComps("phi."+p.Name(), v.t)
	}
	for id, pos := range st.iters {
		s.iterComps[id] = &comp{name: "iter", init: pos, sub: -1}
	}
	for pass := 0; ; pass++ {
		if pass > 24 {
			unsup("loop summary does not stabilise in %s", l.header.Parent())
		}
		s.changed = false
		s.pass = pass + 1
		s.paths = nil
		hs, base := s.headState(false)
		f := fr.clone()
		s.phiValues(hs, f)
		f.loops[l.header] = &loopCtx{loop: l, discovery: true, onBack: func(st *State, fr *Frame, from *ssa.BasicBlock) {
			s.back(st, fr, from, base)
		}}
		ex.quiet++
		ex.run(hs, f, l.header, ex.firstNonPhi(l.header))
		ex.quiet--
		if !s.changed {
			break
		}
	}
	hs, facts := s.close()
	for _, f := range facts {
		hs.assume(f)
	}
	f := fr.clone()
	s.phiValues(hs, f)
	hs.trace = append(hs.trace, "loop "+ex.eng.pos(firstPos(l.header)))
	f.loops[l.header] = &loopCtx{loop: l, onBack: func(st *State, fr *Frame, from *ssa.BasicBlock) {
		for _, iv := range invs {
			ex.loopInv(st, iv, "kept", l, carried(st, fr, from))
		}
	}}
	var here []Val
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			here = append(here, f.regs[p])
		}
	}
	for _, iv := range invs {
		ex.loopInv(hs, iv, "", l, here)
	}
	if hs.dead {
		return
	}
	ex.run(hs, f, l.header, ex.firstNonPhi(l.header))
}

// repeat summarises a repetition which is not a loop of the program text
func (ex *Exec) repeat(st *State, fr *Frame, l *loop, mk func(s *summary) func(st *State, fr *Frame, back, exit func(st *State, fr *Frame)), k func(st *State, fr *Frame)) {
	s := &summary{ex: ex, l: l, pre: st, phiComps: map[*ssa.Phi][]*comp{}, phiVals: map[*ssa.Phi]Val{}, cells: map[string]map[*Term][]*comp{},
		iterComps: map[int]*comp{}, mods: map[string]*keyMod{}, held: map[*Term]bool{}, locals: map[*Term]bool{}, fresh: map[string]*Term{}, wholeHist: map[string]*Term{}}
	freshCnt++
	s.start = freshCnt
	s.n = Fresh("n", SInt)
	round := mk(s)
	for k := range st.held {
		s.held[k] = true
	}
	for k := range st.locals {
		s.locals[k] = true
	}
	var invs []*AtCall
	if !fr.inLoop && len(fr.loops) == 0 {
		invs = ex.ct.LoopInv
	}
	for _, iv := range invs {
		ex.loopInv(st, iv, "entry", l, nil)
	}
	for id, pos := range st.iters {
		s.iterComps[id] = &comp{name: "iter", init: pos, sub: -1}
	}
	inner := func(fr *Frame) *Frame {
		f := fr.clone()
		f.inLoop = true
		return f
	}
	for pass := 0; ; pass++ {
		if pass > 24 {
			unsup("loop summary does not stabilise in %s", l.header.Parent())
		}
		s.changed = false
		s.pass = pass + 1
		s.paths = nil
		hs, base := s.headState(false)
		ex.quiet++
		round(hs, inner(fr), func(st *State, fr *Frame) { s.back(st, fr, nil, base) }, func(*State, *Frame) {})
		ex.quiet--
		if !s.changed {
			break
		}
	}
	hs, facts := s.close()
	for _, f := range facts {
		hs.assume(f)
	}
	hs.trace = append(hs.trace, "loop "+ex.eng.pos(firstPos(l.header)))
	for _, iv := range invs {
		ex.loopInv(hs, iv, "", l, nil)
	}
	if hs.dead {
		return
	}
	in := fr.inLoop
	round(hs, inner(fr), func(st *State, _ *Frame) {
		for _, iv := range invs {
			ex.loopInv(st, iv, "kept", l, nil)
		}
	}, func(st *State, fr *Frame) {
		fr.inLoop = in
		k(st, fr)
	})
}

// ---------- closed forms ----------
func (s *summary) generals() []*comp {
	var out []*comp
	for _, in := range s.l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			for _, c := range s.phiComps[p] {
				if c.kind == cGeneral {
					out = append(out, c)
				}
			}
		}
	}
	var ids []int
	for id := range s.iterComps {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if s.iterComps[id].kind == cGeneral {
			out = append(out, s.iterComps[id])
		}
	}
	var ks []string
	for k := range s.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if s.mods[k].whole {
			continue
		}
		for _, r := range sortedTerms(s.mods[k].cells) {
			for _, c := range s.cells[k][r] {
				c.key, c.ref = k, r
				if c.kind == cGeneral {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// sliceGroup: a slice valued component (arr, off, len)
type sliceGroup struct {
	name string
	cs   []*comp
	et   types.Type
	ek   string
}

func (s *summary) close() (*State, []*Term) {
	// the final head state; its own fresh constants are not lifted
	discStart := s.start
	// discovery constants of the last pass
	paths := s.paths
	discAlloc := s.headAlloc
	discHead := s.headMem
	discEnd := freshCnt
	s.fresh = map[string]*Term{}
	hs, _ := s.headState(true)
	var facts []*Term
	if len(paths) == 0 {
		// the loop never goes round: only iteration 0
		return hs, []*Term{Eq(s.n, Int(0))}
	}
	IT := Fresh("IT", ArrS(SInt, SBool))
	gens := s.generals()
	isHist := map[*Term]bool{IT: true}
	for _, c := range gens {
		isHist[c.hist] = true
		facts = append(facts, Eq(Select(c.hist, Int(0)), c.init))
	}
	for k, h := range s.wholeHist {
		if s.mods[k].whole {
			isHist[h] = true
			facts = append(facts, Eq(Select(h, Int(0)), s.pre.get(k)))
		}
	}
	// lifting of body constants
	lifted := map[*Term]*Term{}
	k := BVar("k", SInt)
	lift := func(t *Term, at *Term) *Term {
		sub := map[*Term]*Term{s.n: at}
		seen := map[*Term]bool{}
		scan(t, seen, func(x *Term) {
			if x.kind == 'c' && x.mark > discStart && x.mark <= discEnd && x != s.n && !isHist[x] {
				g := lifted[x]
				if g == nil {
					g = Fresh("G."+trimFresh(x.Op), ArrS(SInt, x.S))
					lifted[x] = g
				}
				sub[x] = App("select", x.S, g, at)
			}
		})
		return Subst(t, sub)
	}
	n1 := Add(s.n, Int(1))
	// facts per path (over n, body constants)
	type pinfo struct {
		bp    *backPath
		base  *Term   // path condition
		extra []*Term // consequences recorded in the history
	}
	var ps []*pinfo
	for _, bp := range paths {
		var fs []*Term
		for _, f := range bp.facts {
			if dropFact(f) {
				continue
			}
			fs = append(fs, f)
		}
		ps = append(ps, &pinfo{bp: bp, base: And(fs...)})
	}
	// which histories are read anywhere?
	readHist := map[*Term]bool{}
	noteReads := func(t *Term, own *Term) {
		scan(t, map[*Term]bool{}, func(x *Term) {
			if isHist[x] && x != own {
				readHist[x] = true
			}
		})
	}
	for _, p := range ps {
		noteReads(p.base, nil)
	}
	handled := map[*comp]bool{}
	// a body allocation happens at or above the initial allocation bound
	for _, p := range ps {
		p.extra = append(p.extra, Ge(discAlloc, s.pre.alloc))
		p.extra = append(p.extra, Le(p.bp.st.alloc, s.headAlloc))
	}
	// persistence of objects allocated in the body
	for _, p := range ps {
		var ks []string
		for key := range p.bp.fresh {
			ks = append(ks, key)
		}
		for key := range p.bp.hop {
			if p.bp.fresh[key] == nil {
				ks = append(ks, key)
			}
		}
		sort.Strings(ks)
		for _, key := range ks {
			if s.mods[key].whole || !s.mods[key].freshOnly {
				continue
			}
			X := s.fresh[key]
			if X == nil {
				continue
			}
			_, es := splitArr(keySorts[key])
			for _, rv := range p.bp.fresh[key] {
				p.extra = append(p.extra, Eq(App("select", es, X, rv[0]), rv[1]))
			}
			// objects which a callee made and only described
			head := discHead[key]
			seenRef := map[*Term]bool{}
			scan(p.base, map[*Term]bool{}, func(x *Term) {
				if x.kind != 'f' || x.Op != "select" || x.hasBV || seenRef[x.Args[1]] || x.Args[0].S != Sort(keySorts[key]) {
					return
				}
				m := x.Args[0]
				for m.kind == 'f' && m.Op == "store" {
					m = m.Args[0]
				}
				ref := x.Args[1]
				if m != head || ref == s.n {
					return
				}
				seenRef[ref] = true
				for _, rv := range p.bp.fresh[key] {
					if rv[0] == ref {
						return
					}
				}
				root := rootRef(ref)
				hi := Lt(root, p.bp.st.alloc)
				for _, f := range p.bp.facts {
					if dropFact(f) && f.Args[0] == root {
						hi = True
					}
				}
				p.extra = append(p.extra, Implies(And(Le(discAlloc, root), hi), Eq(App("select", es, X, ref), Select(p.bp.st.mem[key], ref))))
			})
			if p.bp.hop[key] {
				r := BVar("r", SInt)
				p.extra = append(p.extra, Forall([]*Term{r}, [][]*Term{{App("select", es, X, r)}},
					Implies(And(Le(discAlloc, App("rootref", SInt, r)), Lt(App("rootref", SInt, r), p.bp.st.alloc)), Eq(App("select", es, X, r), Select(p.bp.st.mem[key], r)))))
			}
		}
	}
	// ---- slices built by append ----
	for _, g := range s.sliceGroups() {
		ok := true
		arr, off, ln := g.cs[0], g.cs[1], g.cs[2]
		if arr.kind != cGeneral || off.kind != cKeep {
			ok = false
		}
		if !ok || g.et == nil || isByteT(g.et) {
			continue
		}
		headArr := arr.at(s.n)
		type app struct{ vals []*Term }
		apps := make([]*app, len(ps))
		for i, p := range ps {
			na, nl := nextOf(p.bp, arr, s.n), nextOf(p.bp, ln, s.n)
			d, lit := constDiff(nl, ln.at(s.n))
			if !lit || d.Sign() < 0 || d.Cmp(big.NewInt(8)) > 0 {
				ok = false
				break
			}
			m := int(d.Int64())
			a := &app{}
			apps[i] = a
			if m == 0 {
				if na != headArr {
					ok = false
					break
				}
				continue
			}
			if !s.isBodyFresh(na) {
				ok = false
				break
			}
			row := p.bp.st.sel(p.bp.st.get(g.ek), na)
			hm, okm := discHead[g.ek]
			if !okm {
				hm = s.pre.get(g.ek)
			}
			headRow := p.bp.st.sel(hm, headArr)
			end := Add(off.init, ln.at(s.n))
			for j := m - 1; j >= 0; j-- {
				if !(row.kind == 'f' && row.Op == "store" && Eq(row.Args[1], Add(end, Int(int64(j)))) == True) {
					ok = false
					break
				}
				a.vals = append([]*Term{row.Args[2]}, a.vals...)
				row = row.Args[0]
			}
			if ok && row != headRow {
				ok = false
			}
			if !ok {
				break
			}
		}
		if !ok {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "  loop in %s: slice %s not an append\n", s.l.header.Parent().Name(), g.name)
			}
			continue
		}
		handled[arr] = true
		// the history of the array address is not described step by step
		RX := hs.sel(hs.get(g.ek), arr.at(s.n))
		row0 := s.pre.sel(s.pre.get(g.ek), arr.init)
		L := ln.at(s.n)
		es := sortOf(g.et)
		facts = append(facts, Or(And(Eq(arr.at(s.n), arr.init), Eq(L, ln.init)), And(Ge(arr.at(s.n), s.pre.alloc), Gt(L, ln.init))))
		facts = append(facts, Lt(arr.at(s.n), s.headAlloc))
		facts = append(facts, Ge(L, ln.init))
		most := 0
		for _, a := range apps {
			if len(a.vals) > most {
				most = len(a.vals)
			}
		}
		facts = append(facts, Le(L, Add(ln.init, Mul(Int(int64(most)), s.n))))
		j := BVar("j", SInt)
		at := func(j *Term) *Term { return Select(RX, Add(off.init, j)) }
		pat := func(j *Term) [][]*Term {
			idx := Add(off.init, j)
			if idx.kind == 'v' {
				return [][]*Term{{App("select", es, RX, idx)}}
			}
			return nil
		}
		if ln.init.kind == 'i' && ln.init.big.Sign() == 0 {
		} else {
			facts = append(facts, Forall([]*Term{j}, pat(j), Implies(And(Le(Int(0), j), Lt(j, ln.init)), Eq(at(j), Select(row0, Add(off.init, j))))))
			j3 := BVar("j", SInt)
			if r0 := Select(row0, Add(off.init, j3)); r0.kind == 'f' && r0.Op == "select" && r0.Args[1] == j3 && s.n != nil {
				facts = append(facts, Forall([]*Term{j3}, [][]*Term{{r0}}, Implies(And(Le(Int(0), j3), Lt(j3, ln.init)), Eq(at(j3), r0))))
			}
		}
		W := Fresh("W", ArrS(SInt, SInt))
		single := ln.kind == cAffine && ln.c.Cmp(big.NewInt(1)) == 0
		j2 := BVar("j", SInt)
		wj := Select(W, j2)
		if single {
			wj = Sub(j2, ln.init)
		}
		var alts []*Term
		for i, p := range ps {
			for x, v := range apps[i].vals {
				alts = append(alts, And(lift(p.base, wj), Eq(j2, Add(lift(ln.at(s.n), wj), Int(int64(x)))), Eq(at(j2), lift(v, wj))))
			}
		}
		body := And(Le(Int(0), wj), Lt(wj, s.n), Select(IT, wj), Or(alts...))
		wp := pat(j2)
		if !single {
			wp = append(wp, []*Term{App("select", SInt, W, j2)})
		}
		facts = append(facts, Forall([]*Term{j2}, wp, Implies(And(Le(ln.init, j2), Lt(j2, L)), body)))
		if !single {
			a, b := BVar("a", SInt), BVar("b", SInt)
			multi := false
			for _, ap := range apps {
				if len(ap.vals) > 1 {
					multi = true
				}
			}
			rel := Lt(Select(W, a), Select(W, b))
			if multi {
				rel = Le(Select(W, a), Select(W, b))
			}
			facts = append(facts, Forall([]*Term{a, b}, [][]*Term{{App("select", SInt, W, a), App("select", SInt, W, b)}}, Implies(And(Le(ln.init, a), Lt(a, b), Lt(b, L)), rel)))
		}
		// what was there at an earlier iteration is still there
		{
			cur := map[*Term]*Term{s.n: curN(s.n)}
			hm, okm := discHead[g.ek]
			if !okm {
				hm = s.pre.get(g.ek)
			}
			for _, p := range ps {
				hr := p.bp.st.sel(hm, headArr)
				if hr == row0 {
					continue
				}
				jj := BVar("j", SInt)
				var jp *Term
				var lo *Term
				if off.init.kind == 'i' && off.init.big.Sign() == 0 {
					jp, lo = App("select", es, hr, jj), Int(0)
				} else {
					jp, lo = App("select", es, hr, jj), off.init
				}
				p.extra = append(p.extra, Forall([]*Term{jj}, [][]*Term{{jp}}, Implies(And(Le(lo, jj), Lt(jj, Add(lo, ln.at(s.n)))), Eq(jp, Select(Subst(RX, cur), jj)))))
			}
		}
		for i, p := range ps {
			for x, v := range apps[i].vals {
				pos := Add(ln.at(s.n), Int(int64(x)))
				cur := map[*Term]*Term{s.n: curN(s.n)}
				atc := Select(Subst(RX, cur), Add(off.init, pos))
				c := []*Term{Eq(atc, v), Ge(pos, ln.init), Lt(pos, Subst(L, cur))}
				if !single {
					c = append(c, Eq(App("select", SInt, W, pos), s.n))
				}
				// over n and the final head constants
				p.extra = append(p.extra, markFinal(And(c...)))
			}
		}
		if ln.kind == cGeneral {
			kk := BVar("k", SInt)
			hk := App("select", SInt, ln.hist, kk)
			facts = append(facts, Forall([]*Term{kk}, [][]*Term{{hk}}, Implies(And(Le(Int(0), kk), Le(kk, s.n)), And(Le(ln.init, hk), Le(hk, L)))))
		}
	}
	// ---- strings built by concatenation: acc = acc + piece on every path ----
	for _, c := range gens {
		if c.init.S != SStr || handled[c] || len(ps) != 1 {
			continue
		}
		nx := nextOf(ps[0].bp, c, s.n)
		cur := c.at(s.n)
		if !(nx.kind == 'f' && nx.Op == "cat" && nx.Args[0] == cur) {
			continue
		}
		X := nx.Args[1]
		var row, off *Term
		if X.kind == 'f' && X.Op == "select" && !s.mentionsBody(X.Args[0]) {
			if d := Sub(X.Args[1], s.n); !s.mentionsBody(d) {
				row, off = X.Args[0], d
			}
		}
		if row == nil {
			row, off = Fresh("pieces", ArrS(SInt, SStr)), Int(0)
			ps[0].extra = append(ps[0].extra, Eq(App("select", SStr, row, s.n), X))
		}
		kk := BVar("k", SInt)
		hk := App("select", SStr, c.hist, kk)
		facts = append(facts, Forall([]*Term{kk}, [][]*Term{{hk}}, Implies(And(Le(Int(0), kk), Le(kk, s.n)), Eq(hk, Cat(c.init, App("strjoin", SStr, mkseq(row, off, kk), StrLit("")))))))
		facts = append(facts, Eq(c.at(s.n), Cat(c.init, App("strjoin", SStr, mkseq(row, off, s.n), StrLit("")))))
	}
	// ---- array rows written by key (maps, array elements) ----
	type rowInfo struct {
		c      *comp
		writes [][][2]*Term // per path, in order
	}
	var rows []*rowInfo
	for _, c := range gens {
		if c.sub >= 0 || !strings.HasPrefix(string(c.init.S), "(Array ") {
			continue
		}
		ri := &rowInfo{c: c}
		ok := true
		for _, p := range ps {
			x := nextOf(p.bp, c, s.n)
			var ws [][2]*Term
			for x.kind == 'f' && x.Op == "store" {
				ws = append([][2]*Term{{x.Args[1], x.Args[2]}}, ws...)
				x = x.Args[0]
			}
			if x != c.at(s.n) {
				ok = false
				break
			}
			ri.writes = append(ri.writes, ws)
		}
		if ok {
			rows = append(rows, ri)
		}
	}
	grouped := map[*rowInfo]bool{}
	for _, r := range rows {
		if grouped[r] {
			continue
		}
		grp := []*rowInfo{r}
		grouped[r] = true
		for _, o := range rows {
			if grouped[o] || !sameKeys(r.writes, o.writes) {
				continue
			}
			grouped[o] = true
			grp = append(grp, o)
		}
		ksort, _ := splitArr(r.c.init.S)
		for _, g := range grp {
			for i, ws := range g.writes {
				for _, w := range ws {
					noteReads(w[0], nil)
					noteReads(w[1], nil)
				}
				_ = i
			}
		}
		WK := Fresh("WK", ArrS(ksort, SInt))
		x := BVar("x", ksort)
		wx := App("select", SInt, WK, x)
		var pats [][]*Term
		pats = append(pats, []*Term{wx})
		var keep []*Term
		keep = append(keep, Eq(wx, Int(-1)))
		for _, g := range grp {
			_, vs := splitArr(g.c.init.S)
			t := App("select", vs, g.c.at(s.n), x)
			pats = append(pats, []*Term{t})
			keep = append(keep, Eq(t, Select(g.c.init, x)))
		}
		var alts []*Term
		affine := true
		var a0 *Term
		for i, p := range ps {
			ws := r.writes[i]
			if len(ws) != 1 {
				affine = false
			}
			for y := range ws {
				key := ws[y][0]
				if ksort == SInt && affine {
					d := Sub(key, s.n)
					if s.mentionsBody(d) || (a0 != nil && a0 != d) {
						affine = false
					}
					a0 = d
				} else {
					affine = false
				}
				cs := []*Term{lift(p.base, wx), Eq(x, lift(key, wx))}
				for z := y + 1; z < len(ws); z++ {
					cs = append(cs, Ne(x, lift(ws[z][0], wx)))
				}
				for _, g := range grp {
					_, vs := splitArr(g.c.init.S)
					cs = append(cs, Eq(App("select", vs, g.c.at(s.n), x), lift(g.writes[i][y][1], wx)))
				}
				alts = append(alts, And(cs...))
				p.extra = append(p.extra, markFinal(And(Ge(App("select", SInt, WK, key), s.n), Lt(App("select", SInt, WK, key), s.n0()))))
			}
		}
		facts = append(facts, Forall([]*Term{x}, pats, Or(And(keep...), And(Le(Int(0), wx), Lt(wx, s.n), Select(IT, wx), Or(alts...)))))
		if affine && a0 != nil {
			// every place is written once, so what was written is still there
			for i, p := range ps {
				for _, g := range grp {
					_, vs := splitArr(g.c.init.S)
					p.extra = append(p.extra, markFinal(Eq(App("select", vs, g.c.at(s.n0()), g.writes[i][0][0]), g.writes[i][0][1])))
				}
			}
			x2 := BVar("x", ksort)
			var p2 [][]*Term
			p2 = append(p2, []*Term{App("select", SInt, WK, x2)})
			for _, g := range grp {
				_, vs := splitArr(g.c.init.S)
				p2 = append(p2, []*Term{App("select", vs, g.c.at(s.n), x2)})
			}
			facts = append(facts, Forall([]*Term{x2}, p2, Implies(And(Le(a0, x2), Lt(x2, Add(a0, s.n))), Eq(App("select", SInt, WK, x2), Sub(x2, a0)))))
		}
		for _, g := range grp {
			// sets which only grow: first writer, valid for every intermediate state
			_, vs := splitArr(g.c.init.S)
			grow := vs == SBool
			for _, ws := range g.writes {
				for _, w := range ws {
					if w[1] != True {
						grow = false
					}
				}
			}
			if grow {
				FK := Fresh("FK", ArrS(ksort, SInt))
				y, kk := BVar("x", ksort), BVar("k", SInt)
				fy := App("select", SInt, FK, y)
				hk := App("select", g.c.init.S, g.c.hist, kk)
				facts = append(facts, Forall([]*Term{y, kk}, [][]*Term{{App("select", SBool, hk, y)}},
					Implies(And(Le(Int(0), kk), Le(kk, s.n)), Iff(Select(hk, y), Or(Select(g.c.init, y), And(Le(Int(0), fy), Lt(fy, kk)))))))
				var falts []*Term
				for i, p := range ps {
					for _, w := range g.writes[i] {
						falts = append(falts, And(lift(p.base, fy), Eq(y, lift(w[0], fy))))
						p.extra = append(p.extra, markFinal(And(Le(Int(0), App("select", SInt, FK, w[0])), Le(App("select", SInt, FK, w[0]), s.n))))
						p.extra = append(p.extra, markFinal(App("select", SBool, g.c.at(s.n0()), w[0])))
					}
				}
				facts = append(facts, Forall([]*Term{y}, [][]*Term{{fy}, {App("select", SBool, g.c.at(s.n), y)}}, Implies(Ge(fy, Int(0)), And(Lt(fy, s.n), Select(IT, fy), Or(falts...)))))
				facts = append(facts, Forall([]*Term{y}, [][]*Term{{fy}}, Ge(fy, Int(-1))))
				handled[g.c] = true
			}
			if !readHist[g.c.hist] {
				handled[g.c] = true
			}
			var gc []*comp
			for _, o := range grp {
				gc = append(gc, o.c)
			}
			if fs := s.counter(g.c, g.writes, gc, func(t *Term) { ps[0].extra = append(ps[0].extra, t) }, len(ps)); fs != nil {
				facts = append(facts, fs...)
				handled[g.c] = true
			}
		}
	}
	// ---- scalars: last writer, monotone ----
	type wgroup struct {
		cs  []*comp
		sig string
	}
	var wgs []*wgroup
	for _, c := range gens {
		if handled[c] || strings.HasPrefix(string(c.init.S), "(Array ") {
			continue
		}
		sig := ""
		all := true
		for _, p := range ps {
			if nextOf(p.bp, c, s.n) == c.at(s.n) {
				sig += "0"
				all = false
			} else {
				sig += "1"
			}
		}
		_ = all
		var g *wgroup
		for _, o := range wgs {
			if o.sig == sig {
				g = o
			}
		}
		if g == nil {
			g = &wgroup{sig: sig}
			wgs = append(wgs, g)
		}
		g.cs = append(g.cs, c)
	}
	for _, g := range wgs {
		w := Fresh("w", SInt)
		keep := []*Term{Eq(w, Int(-1))}
		for _, c := range g.cs {
			keep = append(keep, Eq(c.at(s.n), c.init))
		}
		var alts []*Term
		for i, p := range ps {
			if g.sig[i] == '0' {
				continue
			}
			cs := []*Term{lift(p.base, w)}
			for _, c := range g.cs {
				cs = append(cs, Eq(c.at(s.n), lift(nextOf(p.bp, c, s.n), w)))
			}
			alts = append(alts, And(cs...))
			p.extra = append(p.extra, Le(s.n, w))
		}
		facts = append(facts, Or(And(keep...), And(Le(Int(0), w), Lt(w, s.n), Select(IT, w), Or(alts...))))
		// monotone?
		for _, c := range g.cs {
			if c.init.S != SInt {
				continue
			}
			for _, up := range []bool{true, false} {
				ok := true
				for _, p := range ps {
					q := p.bp.st.clone()
					nx := nextOf(p.bp, c, s.n)
					if up {
						q.assume(Lt(nx, c.at(s.n)))
					} else {
						q.assume(Gt(nx, c.at(s.n)))
					}
					if !q.dead && s.ex.eng.feasible(q) {
						ok = false
						break
					}
				}
				if ok {
					a := BVar("a", SInt)
					ha := App("select", SInt, c.hist, a)
					rel := func(x, y *Term) *Term {
						if up {
							return Le(x, y)
						}
						return Ge(x, y)
					}
					facts = append(facts, Forall([]*Term{a}, [][]*Term{{ha}}, Implies(And(Le(Int(0), a), Le(a, s.n)), And(rel(ha, c.at(s.n)), rel(c.init, ha)))))
					break
				}
			}
		}
	}
	// ---- history ----
	var steps []*Term
	for _, p := range ps {
		cs := []*Term{p.base}
		for _, c := range gens {
			if handled[c] {
				continue
			}
			nx := nextOf(p.bp, c, s.n)
			if strings.HasPrefix(string(c.init.S), "(Array ") && nx == c.at(s.n) {
				cs = append(cs, App("=", SBool, App("select", c.init.S, c.hist, n1), nx))
				continue
			}
			cs = append(cs, Eq(App("select", c.init.S, c.hist, n1), nx))
		}
		for _, key := range sortedKeys(s.wholeHist) {
			if s.mods[key].whole {
				cs = append(cs, Eq(App("select", keySorts[key], s.wholeHist[key], n1), p.bp.st.get(key)))
			}
		}
		var lc []*Term
		for _, c := range cs {
			lc = append(lc, lift(c, k))
		}
		for _, e := range p.extra {
			lc = append(lc, liftFinal(lift, e, k, s))
		}
		steps = append(steps, And(lc...))
	}
	step := factor(steps)
	pats := [][]*Term{{App("select", SBool, IT, k)}}
	pats = append(pats, natPats(step, k, isHist, lifted)...)
	facts = append(facts, Forall([]*Term{k}, pats, Implies(And(Le(Int(0), k), Lt(k, s.n)), step)))
	// bridges for shifted indices
	facts = append(facts, bridges(step, k, isHist, lifted, IT, s.n)...)
	facts = append(facts, Select(IT, Int(0)), Select(IT, Sub(s.n, Int(1))))
	// lifted allocation bases are ordered
	if g := lifted[discAlloc]; g != nil {
		a := BVar("k", SInt)
		ga := App("select", SInt, g, a)
		facts = append(facts, Forall([]*Term{a}, [][]*Term{{ga}}, Implies(And(Le(Int(0), a), Lt(a, s.n)), And(Ge(ga, s.pre.alloc), Le(ga, s.headAlloc)))))
		b := BVar("k", SInt)
		gb := App("select", SInt, g, b)
		if e := commonEnd(paths); e != nil {
			facts = append(facts, Forall([]*Term{a, b}, [][]*Term{{ga, gb}}, Implies(And(Le(Int(0), a), Lt(a, b), Lt(b, s.n)), Le(lift(e, a), gb))))
		}
	}
	return hs, facts
}

// commonEnd: the allocation counter at the back edge, when it is the same on all paths
func commonEnd(ps []*backPath) *Term {
	var e *Term
	for _, p := range ps {
		if e != nil && e != p.st.alloc {
			return nil
		}
		e = p.st.alloc
	}
	return e
}

// n0: the current iteration as seen from history facts (not shifted to k)
func (s *summary) n0() *Term { return curN(s.n) }

var curNMap = map[*Term]*Term{}

func curN(n *Term) *Term {
	c := curNMap[n]
	if c == nil {
		c = Const("cur$"+n.Op, SInt)
		curNMap[n] = c
	}
	return c
}

func markFinal(t *Term) *Term { return t }

// liftFinal lifts a consequence of iteration k; terms of the final head state are constants
func liftFinal(lift func(t, at *Term) *Term, e, k *Term, s *summary) *Term {
	r := lift(e, k)
	return Subst(r, map[*Term]*Term{curN(s.n): s.n})
}

func trimFresh(s string) string {
	if i := strings.LastIndexByte(s, '!'); i > 0 {
		return s[:i]
	}
	return s
}

func nextOf(bp *backPath, c *comp, n *Term) *Term {
	if t, ok := bp.next[c]; ok {
		return t
	}
	return c.at(n)
}
func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sameKeys(a, b [][][2]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j][0] != b[i][j][0] {
				return false
			}
		}
	}
	return true
}

// dropFact: facts of no use in the history
func dropFact(f *Term) bool {
	if f.kind == 'f' && f.Op == "<" && len(f.Args) == 2 && isAllocTerm(f.Args[1]) {
		return true
	}
	return false
}

// factor pulls the conjuncts common to all alternatives out of the disjunction
func factor(alts []*Term) *Term {
	if len(alts) == 1 {
		return alts[0]
	}
	conj := func(t *Term) []*Term {
		if t.kind == 'f' && t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	count := map[*Term]int{}
	for _, a := range alts {
		for _, c := range conj(a) {
			count[c]++
		}
	}
	var common, rest []*Term
	first := true
	for _, a := range alts {
		var r []*Term
		for _, c := range conj(a) {
			if count[c] == len(alts) {
				if first {
					common = append(common, c)
				}
			} else {
				r = append(r, c)
			}
		}
		first = false
		rest = append(rest, And(r...))
	}
	return And(append(common, Or(rest...))...)
}

// natPats: subterms f(..k..) over data which exists outside the loop
func natPats(t, k *Term, hist map[*Term]bool, lifted map[*Term]*Term) [][]*Term {
	gs := map[*Term]bool{}
	for _, g := range lifted {
		gs[g] = true
	}
	var out [][]*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || x.kind == 'q' {
			return
		}
		seen[x] = true
		if x.kind == 'f' && !smtArith(x.Op) {
			direct := false
			okk := true
			for _, a := range x.Args {
				if a == k {
					direct = true
				} else if a.hasBV || mentionsF(a, func(y *Term) bool { return hist[y] || gs[y] }, map[*Term]bool{}) || containsIte(a) {
					okk = false
				}
			}
			if direct && okk {
				out = append(out, []*Term{x})
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}
func containsIte(t *Term) bool {
	return mentionsF(t, func(y *Term) bool {
		return y.kind == 'q' || y.kind == 'f' && (y.Op == "ite" || y.S == SBool && y.Op != "select")
	}, map[*Term]bool{})
}
func smtArith(op string) bool {
	switch op {
	case "+", "-", "*", "<", "<=", "=", "and", "or", "not", "=>", "ite", "store", "div", "mod", "/", "real":
		return true
	}
	return false
}

// bridges: R[a+k] occurs in the history: touching R[j] is touching iteration j-a
func bridges(t, k *Term, hist map[*Term]bool, lifted map[*Term]*Term, IT, n *Term) []*Term {
	gs := map[*Term]bool{}
	for _, g := range lifted {
		gs[g] = true
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || x.kind == 'q' || !x.hasBV {
			return
		}
		seen[x] = true
		if x.kind == 'f' && x.Op == "select" && x.Args[1].S == SInt && x.Args[1] != k && !x.Args[0].hasBV {
			a := Sub(x.Args[1], k)
			R := x.Args[0]
			bad := mentionsF(R, func(y *Term) bool { return hist[y] || gs[y] }, map[*Term]bool{}) || containsIte(R)
			if !a.hasBV && !bad {
				j := BVar("j", SInt)
				out = append(out, Forall([]*Term{j}, [][]*Term{{App("select", x.S, R, j)}}, Implies(And(Le(a, j), Lt(j, Add(a, n))), App("select", SBool, IT, Sub(j, a)))))
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// sliceGroups: slice valued phis and cells
func (s *summary) sliceGroups() []*sliceGroup {
	var out []*sliceGroup
	for _, in := range s.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if cs := s.phiComps[p]; len(cs) == 3 {
			et := p.Type().Underlying().(*types.Slice).Elem()
			out = append(out, &sliceGroup{name: p.Name(), cs: cs, et: et, ek: kElem(et)})
		}
	}
	var ks []string
	for k := range s.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if s.mods[k].whole {
			continue
		}
		for _, ref := range sortedTerms(s.mods[k].cells) {
			cs := s.cells[k][ref]
			if len(cs) == 3 {
				if et := keyElemType(k); et != nil {
					out = append(out, &sliceGroup{name: k, cs: cs, et: et, ek: kElem(et)})
				}
			}
		}
	}
	return out
}

var keyGoType = map[string]types.Type{}

func keyElemType(k string) types.Type {
	t := keyGoType[k]
	if t == nil {
		return nil
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

func firstPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

// counter recognises M[key] = M[key] + 1 (starting from an empty map): afterwards M[x]
// is the number of iterations whose key was x; over a complete map iteration with the
// mapped values as keys it is the number of entries with that value.
func (s *summary) counter(c *comp, writes [][][2]*Term, grp []*comp, p0 func(*Term), npaths int) []*Term {
	_, vs := splitArr(c.init.S)
	ks, _ := splitArr(c.init.S)
	if vs != SInt || npaths != 1 || len(writes) != 1 || len(writes[0]) != 1 {
		return nil
	}
	if !(c.init.kind == 'K' && c.init.Args[0].kind == 'i' && c.init.Args[0].big.Sign() == 0) {
		return nil
	}
	key, val := writes[0][0][0], writes[0][0][1]
	cur := Select(c.at(s.n), key)
	okv := val == Add(cur, Int(1))
	var dom *comp
	for _, g := range grp {
		if _, v := splitArr(g.init.S); v == SBool && g.init.kind == 'K' && g.init.Args[0] == False {
			dom = g
			if val == Add(Ite(Select(g.at(s.n), key), cur, Int(0)), Int(1)) {
				okv = true
			}
		}
	}
	if !okv {
		return nil
	}
	row := Fresh("ckeys", ArrS(SInt, ks))
	p0(Eq(App("select", ks, row, s.n), key))
	occ := func(n, x *Term) *Term { return App("occ."+sanitize(string(ks)), SInt, row, n, x) }
	var facts []*Term
	x, kk := BVar("x", ks), BVar("k", SInt)
	e := App("select", SInt, c.at(s.n), x)
	facts = append(facts, Forall([]*Term{x}, [][]*Term{{e}, {occ(s.n, x)}}, Eq(e, occ(s.n, x))))
	if c.hist != nil {
		h := App("select", SInt, App("select", c.init.S, c.hist, kk), x)
		facts = append(facts, Forall([]*Term{kk, x}, [][]*Term{{h}}, Implies(And(Le(Int(0), kk), Le(kk, s.n)), Eq(h, occ(kk, x)))))
	}
	if dom != nil {
		d := App("select", SBool, dom.at(s.n), x)
		facts = append(facts, Forall([]*Term{x}, [][]*Term{{d}, {occ(s.n, x)}}, Iff(d, Gt(occ(s.n, x), Int(0)))))
	}
	// a complete map iteration
	if key.kind == 'f' && key.Op == "select" && key.Args[1].kind == 'f' && strings.HasPrefix(key.Args[1].Op, "mekey") && !s.mentionsBody(key.Args[0]) {
		mk := key.Args[1]
		if mk.Args[1] == s.n && !s.mentionsBody(mk.Args[0]) {
			d, v := mk.Args[0], key.Args[0]
			cv := countval(d, v, x)
			facts = append(facts, Implies(Eq(s.n, card(d)), Forall([]*Term{x}, [][]*Term{{occ(s.n, x)}, {cv}}, Eq(occ(s.n, x), cv))))
		}
	}
	return facts
}

// countval: number of entries of a map whose value is x
func countval(dom, val, x *Term) *Term {
	ks, vs := splitArr(val.S)
	return App("countval."+sanitize(string(ks))+"."+sanitize(string(vs)), SInt, dom, val, x)
}

// countAxiom: axioms of the occurrence counts
func countAxiom(t *Term) []*Term {
	r, x := BVar("r", t.Args[0].S), BVar("x", t.Args[2].S)
	if strings.HasPrefix(t.Op, "occ.") {
		n, k := BVar("n", SInt), BVar("k", SInt)
		o := App(t.Op, SInt, r, n, x)
		w := App("occw."+t.Op, SInt, r, n, x)
		return []*Term{
			Forall([]*Term{r, n, x}, [][]*Term{{o}}, And(Le(Int(0), o), Implies(Ge(n, Int(0)), Le(o, n)), Implies(Le(n, Int(0)), Eq(o, Int(0))),
				Implies(Gt(o, Int(0)), And(Le(Int(0), w), Lt(w, n), App("=", SBool, Select(r, w), x))))),
			Forall([]*Term{r, n, x, k}, [][]*Term{{o, App("select", x.S, r, k)}}, Implies(And(Le(Int(0), k), Lt(k, n), App("=", SBool, Select(r, k), x)), Gt(o, Int(0)))),
		}
	}
	ks, vs := splitArr(t.Args[1].S)
	v, k := BVar("v", t.Args[1].S), BVar("k", ks)
	o := App(t.Op, SInt, r, v, x)
	w := App("cvw."+t.Op, ks, r, v, x)
	vk := App("select", vs, v, k)
	return []*Term{
		Forall([]*Term{r, v, x}, [][]*Term{{o}}, And(Le(Int(0), o), Le(o, card(r)),
			Implies(Gt(o, Int(0)), And(Select(r, w), App("=", SBool, Select(v, w), x))))),
		Forall([]*Term{r, v, x, k}, [][]*Term{{o, App("select", SBool, r, k)}}, Implies(And(Select(r, k), App("=", SBool, vk, x)), Gt(o, Int(0)))),
	}
}
