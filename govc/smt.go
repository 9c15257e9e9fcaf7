package main

import (
	"bufio"
	"context"
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------- printing terms as SMT-LIB ----------

var smtBuiltin = map[string]bool{
	"not": true, "and": true, "or": true, "=>": true, "=": true, "ite": true, "select": true, "store": true,
	"+": true, "-": true, "*": true, "<": true, "<=": true, "div": true, "mod": true, "/": true,
}

type printer struct {
	sb      strings.Builder
	defs    map[*Term]string
	defd    map[*Term]bool
	consts  map[string]*Term
	funcs   map[string]*Term
	sorts   map[Sort]bool
	rc      map[*Term]int
	visited map[*Term]bool
	cnt     int
	kc      map[*Term]string // constant arrays whose default is not a literal
}

func isValueTerm(t *Term) bool {
	switch t.kind {
	case 'i', 'b':
		return true
	case 'K':
		return isValueTerm(t.Args[0])
	case 'f':
		if !strings.HasPrefix(t.Op, "mk-") {
			return false
		}
		for _, a := range t.Args {
			if !isValueTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

func smtSort(s Sort) string {
	str := string(s)
	if strings.HasPrefix(str, "(Array ") {
		k, v := splitArr(s)
		return "(Array " + smtSort(k) + " " + smtSort(v) + ")"
	}
	switch s {
	case SInt, SBool, SReal:
		return str
	}
	return sym(str)
}

func opName(t *Term) string {
	switch t.Op {
	case "real":
		return "to_real"
	case "trunc":
		return "f-trunc"
	case "ceilr":
		return "f-ceil"
	}
	if smtBuiltin[t.Op] {
		return t.Op
	}
	return sym(t.Op)
}

func intLit(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

// str prints t; lets holds names for shared open subterms
func (p *printer) str(t *Term, lets map[*Term]string) string {
	var sb strings.Builder
	p.write(&sb, t, lets)
	return sb.String()
}

func (p *printer) write(sb *strings.Builder, t *Term, lets map[*Term]string) {
	if n, ok := p.defs[t]; ok {
		sb.WriteString(n)
		return
	}
	if n, ok := lets[t]; ok {
		sb.WriteString(n)
		return
	}
	switch t.kind {
	case 'c', 'v':
		sb.WriteString(sym(t.Op))
	case 'b':
		sb.WriteString(t.Op)
	case 'i':
		sb.WriteString(intLit(t.Op))
	case 'K':
		if n, ok := p.kc[t]; ok {
			sb.WriteString(n)
			return
		}
		sb.WriteString("((as const " + smtSort(t.S) + ") ")
		p.write(sb, t.Args[0], lets)
		sb.WriteByte(')')
	case 'q':
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + sym(b.Op) + " " + smtSort(b.S) + ")")
		}
		sb.WriteString(") ")
		p.quantBody(sb, t, lets)
		sb.WriteString(")")
	default:
		sb.WriteByte('(')
		sb.WriteString(opName(t))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			p.write(sb, a, lets)
		}
		sb.WriteByte(')')
	}
}

func (p *printer) quantBody(sb *strings.Builder, t *Term, lets map[*Term]string) {
	body := t.Args[0]
	// shared open subterms of the body (not below nested quantifiers) become lets
	rc := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.hasBV && x.kind != 'q' {
			return
		}
		if x.kind == 'v' {
			return
		}
		if _, ok := lets[x]; ok {
			return
		}
		rc[x]++
		if rc[x] > 1 {
			return
		}
		if x.kind != 'q' {
			for _, a := range x.Args {
				walk(a)
			}
		}
		order = append(order, x)
	}
	walk(body)
	nl := map[*Term]string{}
	for k, v := range lets {
		nl[k] = v
	}
	closeN := 0
	if len(t.Pats) > 0 {
		sb.WriteString("(! ")
	}
	for _, x := range order {
		if rc[x] > 1 && x.hasBV {
			p.cnt++
			nm := fmt.Sprintf("?l%d", p.cnt)
			sb.WriteString("(let ((" + nm + " ")
			p.write(sb, x, nl)
			sb.WriteString(")) ")
			nl[x] = nm
			closeN++
		}
	}
	p.write(sb, body, nl)
	sb.WriteString(strings.Repeat(")", closeN))
	if len(t.Pats) > 0 {
		for _, pt := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, a := range pt {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.write(sb, a, lets)
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	}
}

// scan registers all symbols of t
func scan(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		scan(a, seen, f)
	}
	for _, b := range t.Bound {
		scan(b, seen, f)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			scan(a, seen, f)
		}
	}
}

// envSliceFacts: slices found in the memory at entry are normalised to offset 0;
// objects of the entry state refer to objects of the entry state.
func envSliceFacts(c *Term) []*Term {
	var out []*Term
	key := c.Op[3:]
	a0 := Const("alloc!0", SInt)
	var rec func(t *Term, bs []*Term, ty types.Type)
	rec = func(t *Term, bs []*Term, ty types.Type) {
		if len(bs) > 4 {
			return
		}
		if t.S == SSlice {
			if len(bs) == 0 {
				return
			}
			o, l, a := App("sel-Slice-off", SInt, t), App("sel-Slice-len", SInt, t), App("sel-Slice-arr", SInt, t)
			out = append(out, Forall(bs, [][]*Term{{o}}, App("=", SBool, o, Int(0))), Forall(bs, [][]*Term{{l}}, Ge(l, Int(0))))
			out = append(out, Forall(bs, [][]*Term{{a}}, Implies(Lt(bs[0], a0), Lt(a, a0))))
			return
		}
		if strings.HasPrefix(string(t.S), "(Array") {
			ks, vs := splitArr(t.S)
			b := BVar("i", ks)
			rec(App("select", vs, t, b), append(append([]*Term(nil), bs...), b), ty)
			return
		}
		if d := dts[t.S]; d != nil {
			var s *types.Struct
			if ty != nil {
				s, _ = ty.Underlying().(*types.Struct)
			}
			for i, f := range d.fields {
				var ft types.Type
				if s != nil && s.NumFields() == len(d.fields) {
					ft = s.Field(i).Type()
				}
				rec(App(selName(t.S, f.name), f.s, t), bs, ft)
			}
			return
		}
		if t.S == SInt && ty != nil && len(bs) > 0 {
			switch ty.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan:
				out = append(out, Forall(bs, [][]*Term{{t}}, Implies(Lt(bs[0], a0), Lt(t, a0))))
			}
		}
	}
	rec(c, nil, keyGoType[key])
	return out
}

// ---------- axioms on demand ----------
// axiomsFor returns axioms triggered by the symbols of the given terms.
func axioms(terms []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	done := map[string]bool{}
	var ground []*Term
	queue := append([]*Term(nil), terms...)
	add := func(t *Term) {
		if t != True {
			out = append(out, t)
			queue = append(queue, t)
		}
	}
	once := func(k string) bool {
		if done[k] {
			return false
		}
		done[k] = true
		return true
	}
	lits := []*Term{}
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		scan(q, seen, func(t *Term) {
			if isStrLit(t) {
				lits = append(lits, t)
				return
			}
			if t.kind == 'c' && strings.HasPrefix(t.Op, "gaddr!") {
				add(Gt(t, Int(0)))
				add(Lt(t, Const("alloc!0", SInt)))
				ground = append(ground, t)
				return
			}
			if t.kind == 'c' && strings.HasPrefix(t.Op, "err!") {
				ground = append(ground, t)
				add(Ne(t, NilI))
				return
			}
			if t.kind == 'c' && envConst[t] && strings.HasPrefix(t.Op, "M0|") {
				for _, f := range envSliceFacts(t) {
					add(f)
				}
			}
			if t == NilI && once("nilI") {
				add(Eq(App("itag", SInt, NilI), Int(0)))
				x := BVar("x", SIface)
				add(Forall([]*Term{x}, [][]*Term{{App("itag", SInt, x)}}, And(Ge(App("itag", SInt, x), Int(0)), Implies(Eq(App("itag", SInt, x), Int(0)), App("=", SBool, x, NilI)))))
				return
			}
			if t.kind != 'f' {
				return
			}
			switch {
			case t.Op == "strlen":
				if once("strlen") {
					x := BVar("x", SStr)
					l := App("strlen", SInt, x)
					add(Forall([]*Term{x}, [][]*Term{{l}}, And(Ge(l, Int(0)), Implies(Eq(l, Int(0)), Eq(x, StrLit(""))))))
					add(App("=", SBool, App("strlen", SInt, StrLit("")), Int(0)))
				}
			case t.Op == "cat":
				if once("cat") {
					x, y := BVar("x", SStr), BVar("y", SStr)
					c := App("cat", SStr, x, y)
					add(Forall([]*Term{x, y}, [][]*Term{{c}}, Eq(App("strlen", SInt, c), Add(App("strlen", SInt, x), App("strlen", SInt, y)))))
					e := StrLit("")
					add(Forall([]*Term{x}, [][]*Term{{App("cat", SStr, e, x)}}, Eq(App("cat", SStr, e, x), x)))
					add(Forall([]*Term{x}, [][]*Term{{App("cat", SStr, x, e)}}, Eq(App("cat", SStr, x, e), x)))
				}
			case t.Op == "zeros":
				if once("zeros") {
					x := BVar("x", SInt)
					z := App("zeros", SStr, x)
					add(Forall([]*Term{x}, [][]*Term{{z}}, Implies(Ge(x, Int(0)), Eq(App("strlen", SInt, z), x))))
				}
			case t.Op == "bset":
				if once("bset") {
					x, i, v := BVar("x", SStr), BVar("i", SInt), BVar("v", SInt)
					z := App("bset", SStr, x, i, v)
					add(Forall([]*Term{x, i, v}, [][]*Term{{z}}, Eq(App("strlen", SInt, z), App("strlen", SInt, x))))
				}
			case t.Op == "ord":
				if once("ord") {
					x := BVar("x", SStr)
					o := App("ord", SInt, x)
					add(Forall([]*Term{x}, [][]*Term{{o}}, Eq(App("unord", SStr, o), x)))
				}
			case t.Op == "wrap":
				if t.Args[0].kind == 'i' && once("wrap"+t.Args[0].Op) {
					x := BVar("x", SInt)
					w := App("wrap", SInt, t.Args[0], x)
					_ = w
				}
			case strings.HasPrefix(t.Op, "box."):
				tag := t.Op[4:]
				if once("box." + tag) {
					s := boxSort[tag]
					x := BVar("x", s)
					b := App("box."+tag, SIface, x)
					add(Forall([]*Term{x}, [][]*Term{{b}}, And(App("=", SBool, App("unbox."+tag, s, b), x), App("=", SBool, App("itag", SInt, b), TagOf(tag)))))
					if once("nilI-tag") {
						add(App("=", SBool, App("itag", SInt, NilI), Int(0)))
					}
				}
			case strings.HasPrefix(t.Op, "unbox."):
				tag := t.Op[6:]
				if once("unbox." + tag) {
					s := boxSort[tag]
					x := BVar("x", SIface)
					u := App("unbox."+tag, s, x)
					add(Forall([]*Term{x}, [][]*Term{{u}}, Implies(App("=", SBool, App("itag", SInt, x), TagOf(tag)), App("=", SBool, App("box."+tag, SIface, u), x))))
				}
			case strings.HasPrefix(t.Op, "sub."):
				if once(t.Op) {
					x := BVar("x", SInt)
					b := App(t.Op, SInt, x)
					add(Forall([]*Term{x}, [][]*Term{{b}}, And(Lt(b, Int(0)), App("=", SBool, App("un"+t.Op, SInt, b), x), App("=", SBool, App("subtag", SInt, b), TagOf(t.Op)), App("=", SBool, App("rootref", SInt, b), App("rootref", SInt, x)))))
				}
			case t.Op == "rootref":
				if once("rootref") {
					x := BVar("x", SInt)
					add(Forall([]*Term{x}, [][]*Term{{App("rootref", SInt, x)}}, Implies(Ge(x, Int(0)), Eq(App("rootref", SInt, x), x))))
				}
			case strings.HasPrefix(t.Op, "mkseq."):
				if once(t.Op) {
					rs := t.Args[0].S
					r1, o1, l1, r2, o2, l2 := BVar("r", rs), BVar("o", SInt), BVar("l", SInt), BVar("r", rs), BVar("o", SInt), BVar("l", SInt)
					a, b := App(t.Op, t.S, r1, o1, l1), App(t.Op, t.S, r2, o2, l2)
					j := BVar("j", SInt)
					same := Forall([]*Term{j}, nil, Implies(And(Le(Int(0), j), Lt(j, l1)), Eq(Select(r1, Add(o1, j)), Select(r2, Add(o2, j)))))
					add(Forall([]*Term{r1, o1, l1, r2, o2, l2}, [][]*Term{{a, b}}, Implies(And(Eq(l1, l2), same), Eq(a, b))))
					add(Forall([]*Term{r1, o1, l1}, [][]*Term{{a}}, Eq(App("seqlen."+string(t.S), SInt, a), l1)))
				}
			}
			for _, ax := range extraAxioms[t.Op] {
				if once("extra" + fmt.Sprint(ax.id)) {
					add(ax)
				}
			}
			if (strings.HasPrefix(t.Op, "occ.") || strings.HasPrefix(t.Op, "countval.")) && once("sym."+t.Op) {
				for _, a := range countAxiom(t) {
					add(a)
				}
			}
			if f := symAxiom[t.Op]; f != nil && once("sym."+t.Op) {
				for _, a := range f(t) {
					add(a)
				}
			}
		})
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
	for i, l := range lits {
		out = append(out, App("=", SBool, App("litid", SInt, l), Int(int64(i))))
		if done["strlen"] && strLitVal[l] != "" {
			out = append(out, App("=", SBool, App("strlen", SInt, l), Int(int64(len(strLitVal[l])))))
		}
	}
	if done["ord"] {
		ls := append([]*Term(nil), lits...)
		sort.Slice(ls, func(i, j int) bool { return strLitVal[ls[i]] < strLitVal[ls[j]] })
		for i := 0; i+1 < len(ls); i++ {
			out = append(out, Lt(App("ord", SInt, ls[i]), App("ord", SInt, ls[i+1])))
		}
	}
	sort.Slice(ground, func(i, j int) bool { return ground[i].id < ground[j].id })
	for i := range ground {
		if ground[i].S == SIface && done["extra"+fmt.Sprint(extraAxioms["errIs"][0].id)] {
			// made by errors.New: wraps nothing
			x := BVar("x", SIface)
			is := App("errIs", SBool, ground[i], x)
			out = append(out, Forall([]*Term{x}, [][]*Term{{is}}, Iff(is, Eq(ground[i], x))))
		}
		if ground[i].S == SInt {
			out = append(out, App("=", SBool, App("gid", SInt, ground[i]), Int(int64(i))))
		} else {
			out = append(out, App("=", SBool, App("eid", SInt, ground[i]), Int(int64(i))))
		}
	}
	return out
}

// axioms contributed by contract files (by symbol) and by externs
var extraAxioms = map[string][]*Term{}
var symAxiom = map[string]func(t *Term) []*Term{}

// ---------- script ----------
// negate: the conjuncts of the negated goal, outer universal quantifiers replaced by constants.
// Closed terms hidden under the remaining quantifiers are mentioned in (always satisfiable)
// assertions of an uninterpreted predicate, for instantiation.
func negate(goal *Term) []*Term {
	var out []*Term
	n := 0
	var rec func(g *Term)
	rec = func(g *Term) {
		switch {
		case g.kind == 'q' && g.Op == "forall":
			m := map[*Term]*Term{}
			for _, b := range g.Bound {
				n++
				m[b] = Const(fmt.Sprintf("sk!%d", n), b.S)
			}
			rec(Subst(g.Args[0], m))
		case g.kind == 'f' && g.Op == "=>":
			out = append(out, g.Args[0])
			rec(g.Args[1])
		case g.kind == 'f' && g.Op == "or":
			for _, a := range g.Args {
				rec(a)
			}
		default:
			out = append(out, Not(g))
		}
	}
	rec(goal)
	touched := map[*Term]bool{}
	var touch []*Term
	var under func(t *Term, inq bool, seen map[*Term]bool)
	under = func(t *Term, inq bool, seen map[*Term]bool) {
		if t.kind == 'q' {
			inq = true
			seen = map[*Term]bool{}
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if inq && !t.hasBV && t.kind == 'f' && t.Op == "select" {
			if !touched[t] && len(touch) < 40 {
				touched[t] = true
				touch = append(touch, App("touch."+sanitize(string(t.S)), SBool, t))
			}
			return
		}
		for _, a := range t.Args {
			under(a, inq, seen)
		}
	}
	for _, t := range out {
		under(t, false, map[*Term]bool{})
	}
	return append(out, touch...)
}

func script(facts []*Term, goal *Term) string {
	all := append([]*Term(nil), facts...)
	ngs := negate(goal)
	all = append(all, ngs...)
	ax := axioms(all)
	everything := append(append([]*Term(nil), ax...), all...)
	p := &printer{defs: map[*Term]string{}}
	var sb strings.Builder
	declare(&sb, everything, nil)
	// shared closed nodes
	rc := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		rc[t]++
		if rc[t] > 1 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, pt := range t.Pats {
			for _, a := range pt {
				walk(a)
			}
		}
		order = append(order, t)
	}
	for _, t := range everything {
		walk(t)
	}
	p.kc = map[*Term]string{}
	for _, t := range order {
		if t.kind == 'K' && !t.hasBV && !isValueTerm(t) {
			n := fmt.Sprintf("K!%d", len(p.kc))
			ks, _ := splitArr(t.S)
			fmt.Fprintf(&sb, "(declare-const %s %s)\n(assert (forall ((x %s)) (! (= (select %s x) %s) :pattern ((select %s x)))))\n", n, smtSort(t.S), smtSort(ks), n, p.str(t.Args[0], nil), n)
			p.kc[t] = n
		}
	}
	for _, t := range order {
		if rc[t] > 1 && t.kind == 'f' && !t.hasBV && len(t.Args) > 0 {
			p.cnt++
			nm := fmt.Sprintf("d!%d", p.cnt)
			s := p.str(t, nil)
			if len(s) < 24 {
				continue
			}
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, smtSort(t.S), s)
			p.defs[t] = nm
		}
	}
	for _, t := range ax {
		fmt.Fprintf(&sb, "(assert %s)\n", p.str(t, nil))
	}
	for _, t := range facts {
		fmt.Fprintf(&sb, "(assert %s)\n", p.str(t, nil))
	}
	sb.WriteString("; negated goal\n")
	for _, ng := range ngs {
		fmt.Fprintf(&sb, "(assert %s)\n", p.str(ng, nil))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

const prelude = `(define-fun f-trunc ((x Real)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))
(define-fun f-ceil ((x Real)) Int (- (to_int (- x))))
`

type declared struct {
	sorts map[Sort]bool
	syms  map[string]bool
}

// declare emits declarations for all symbols of ts not yet in d
func declare(sb *strings.Builder, ts []*Term, d *declared) {
	if d == nil {
		d = &declared{map[Sort]bool{}, map[string]bool{}}
		sb.WriteString("(set-logic ALL)\n")
		sb.WriteString(prelude)
	}
	seen := map[*Term]bool{}
	var nodes []*Term
	for _, t := range ts {
		scan(t, seen, func(x *Term) { nodes = append(nodes, x) })
	}
	var useSort func(s Sort)
	useSort = func(s Sort) {
		if d.sorts[s] {
			return
		}
		if strings.HasPrefix(string(s), "(Array ") {
			k, v := splitArr(s)
			useSort(k)
			useSort(v)
			d.sorts[s] = true
			return
		}
		switch s {
		case SInt, SBool, SReal:
			return
		}
		d.sorts[s] = true
		if dt, ok := dts[s]; ok {
			for _, f := range dt.fields {
				useSort(f.s)
			}
			fmt.Fprintf(sb, "(declare-datatypes ((%s 0)) (((%s", sym(string(s)), sym("mk-"+string(s)))
			for _, f := range dt.fields {
				fmt.Fprintf(sb, " (%s %s)", sym(selName(s, f.name)), smtSort(f.s))
			}
			sb.WriteString("))))\n")
			return
		}
		fmt.Fprintf(sb, "(declare-sort %s 0)\n", sym(string(s)))
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].id < nodes[j].id })
	for _, t := range nodes {
		useSort(t.S)
	}
	for _, t := range nodes {
		switch t.kind {
		case 'c':
			if strings.HasPrefix(t.Op, "mk-") && dts[t.S] != nil {
				continue
			}
			k := t.Op
			if d.syms[k] {
				continue
			}
			d.syms[k] = true
			fmt.Fprintf(sb, "(declare-const %s %s)\n", sym(t.Op), smtSort(t.S))
		case 'f':
			if smtBuiltin[t.Op] || t.Op == "real" || t.Op == "trunc" || t.Op == "ceilr" || strings.HasPrefix(t.Op, "mk-") || strings.HasPrefix(t.Op, "sel-") {
				continue
			}
			k := t.Op + "()"
			if d.syms[k] {
				continue
			}
			d.syms[k] = true
			var as []string
			for _, a := range t.Args {
				as = append(as, smtSort(a.S))
			}
			fmt.Fprintf(sb, "(declare-fun %s (%s) %s)\n", sym(t.Op), strings.Join(as, " "), smtSort(t.S))
		}
	}
}

// ---------- feasibility: one incremental solver, quantifier free ----------
type feas struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	d     *declared
	stack []seg
	calls int
	dur   time.Duration
	memo  map[*fact]bool
}
type seg struct{ last *fact }

func newFeas() *feas {
	f := &feas{memo: map[*fact]bool{}}
	f.start()
	return f
}
func (f *feas) start() {
	f.cmd = exec.Command("z3", "-in", "-smt2")
	f.in, _ = f.cmd.StdinPipe()
	o, _ := f.cmd.StdoutPipe()
	f.out = bufio.NewReader(o)
	if err := f.cmd.Start(); err != nil {
		panic(err)
	}
	f.d = &declared{map[Sort]bool{}, map[string]bool{}}
	f.stack = nil
	io.WriteString(f.in, "(set-option :global-declarations true)\n(set-option :timeout 400)\n(set-logic ALL)\n"+prelude)
	x := Const("fz!s", SStr)
	var sb strings.Builder
	declare(&sb, []*Term{App("litid", SInt, x), ITag(Const("fz!i", SIface)), NilI}, f.d)
	io.WriteString(f.in, sb.String()+"(assert (= (itag nilI) 0))\n")
}
func (f *feas) stop() {
	if f.cmd != nil {
		f.cmd.Process.Kill()
		f.cmd.Wait()
	}
}

func hasQuant(t *Term) bool {
	if v, ok := quantMemo[t]; ok {
		return v
	}
	r := t.kind == 'q'
	if !r {
		for _, a := range t.Args {
			if hasQuant(a) {
				r = true
				break
			}
		}
	}
	quantMemo[t] = r
	return r
}

var quantMemo = map[*Term]bool{}

func (f *feas) check(st *State) bool {
	if st.facts == nil {
		return true
	}
	if v, ok := f.memo[st.facts]; ok {
		return v
	}
	t0 := time.Now()
	defer func() { f.dur += time.Since(t0) }()
	f.calls++
	if f.calls%1500 == 0 {
		f.stop()
		f.start()
	}
	// ancestors of the current chain
	anc := map[*fact]bool{}
	for x := st.facts; x != nil; x = x.parent {
		anc[x] = true
	}
	var sb strings.Builder
	pops := 0
	for len(f.stack) > 0 && !anc[f.stack[len(f.stack)-1].last] {
		f.stack = f.stack[:len(f.stack)-1]
		pops++
	}
	if pops > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", pops)
	}
	var base *fact
	if len(f.stack) > 0 {
		base = f.stack[len(f.stack)-1].last
	}
	var add []*Term
	for x := st.facts; x != nil && x != base; x = x.parent {
		if !hasQuant(x.t) {
			add = append(add, x.t)
		}
	}
	sb.WriteString("(push 1)\n")
	f.stack = append(f.stack, seg{st.facts})
	if len(add) > 0 {
		declare(&sb, add, f.d)
		p := &printer{defs: map[*Term]string{}}
		lits := map[*Term]bool{}
		seen := map[*Term]bool{}
		for i := len(add) - 1; i >= 0; i-- {
			scan(add[i], seen, func(x *Term) {
				if isStrLit(x) {
					lits[x] = true
				}
			})
			fmt.Fprintf(&sb, "(assert %s)\n", letPrint(p, add[i]))
		}
		for l := range lits {
			fmt.Fprintf(&sb, "(assert (= (litid %s) %d))\n", sym(l.Op), l.id)
		}
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(f.in, sb.String())
	for {
		line, err := f.out.ReadString('\n')
		if err != nil {
			f.stop()
			f.start()
			return true
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unknown", "timeout":
			f.memo[st.facts] = true
			return true
		case "unsat":
			f.memo[st.facts] = false
			return false
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "feas:", line)
		}
	}
}

// letPrint prints a closed quantifier-free term with lets for shared nodes
func letPrint(p *printer, t *Term) string {
	rc := map[*Term]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		if len(x.Args) == 0 {
			return
		}
		rc[x]++
		if rc[x] > 1 {
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t)
	var sb strings.Builder
	nl := map[*Term]string{}
	n := 0
	for _, x := range order {
		if rc[x] > 1 {
			p.cnt++
			nm := fmt.Sprintf("?f%d", p.cnt)
			sb.WriteString("(let ((" + nm + " ")
			p.write(&sb, x, nl)
			sb.WriteString(")) ")
			nl[x] = nm
			n++
		}
	}
	p.write(&sb, t, nl)
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}

// ---------- solving obligations ----------
type solverCfg struct {
	name string
	args []string
	tmo  int
}

func runSolver(c solverCfg, file string, ctx context.Context) string {
	cctx, cancel := context.WithTimeout(ctx, time.Duration(c.tmo+5)*time.Second)
	defer cancel()
	args := append(append([]string(nil), c.args...), file)
	cmd := exec.CommandContext(cctx, c.name, args...)
	out, _ := cmd.Output()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		if strings.HasPrefix(s, "(error") {
			return "error " + s
		}
		s = s[:i]
	}
	return s
}

var stage1 = []solverCfg{{"z3", []string{"-t:1200", "-T:3", "smt.mbqi=false", "smt.random_seed=1", "smt.array.extensional=false"}, 3}, {"z3", []string{"-t:1200", "-T:3", "smt.mbqi=false", "auto_config=false", "smt.random_seed=1", "smt.array.extensional=false"}, 3}}

func stage2(tmo int) []solverCfg {
	return []solverCfg{
		{"z3", []string{fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "smt.random_seed=1", "smt.array.extensional=false"}, tmo},
		{"z3", []string{fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "auto_config=false", "smt.random_seed=1"}, tmo},
		{"z3", []string{fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "auto_config=false", "smt.random_seed=1", "smt.array.extensional=false"}, tmo},
		{"z3-new", []string{fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "auto_config=false"}, tmo},
		{"z3-new", []string{fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "auto_config=false", "smt.array.extensional=false"}, tmo},
		{"cvc5", []string{fmt.Sprintf("--tlimit=%d", tmo*1000), "--full-saturate-quant", "--lang=smt2"}, tmo},
		{"z3", []string{fmt.Sprintf("-T:%d", tmo)}, tmo},
		{"z3", []string{fmt.Sprintf("-T:%d", tmo), "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2", "smt.case_split=3", "smt.relevancy=0"}, tmo},
	}
}

type pool struct {
	wg     sync.WaitGroup
	sem    chan struct{}
	dir    string
	n      int
	mu     sync.Mutex
	cache  map[string]*Obl
	dups   map[*Obl]*Obl
	tmo    int
	total  time.Duration
	failed int
	byBack map[string]int
	fails  []*Obl
	retry  time.Duration // how long failed obligations may be tried again, alone, once everything else is done
}

func newPool(dir string, workers, tmo int) *pool {
	return &pool{sem: make(chan struct{}, workers), dir: dir, cache: map[string]*Obl{}, dups: map[*Obl]*Obl{}, tmo: tmo, byBack: map[string]int{}}
}

func (p *pool) submit(o *Obl) {
	s := script(o.facts, o.goal)
	o.script = s
	o.facts = nil
	if prev, ok := p.cache[s]; ok {
		p.dups[o] = prev
		return
	}
	p.cache[s] = o
	p.n++
	n := p.n
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		p.sem <- struct{}{}
		defer func() { <-p.sem }()
		p.solve(o, n)
	}()
}
func (p *pool) solve(o *Obl, n int) {
	t0 := time.Now()
	file := fmt.Sprintf("%s/o%d.smt2", p.dir, n)
	if err := os.WriteFile(file, []byte(o.script), 0o644); err != nil {
		o.Status, o.Output = "failed", err.Error()
		return
	}
	defer os.Remove(file)
	if o.Kind == "smoke" {
		r := runSolver(solverCfg{"z3", []string{"-t:1500", "smt.mbqi=false", "auto_config=false"}, 4}, file, context.Background())
		o.Status = "open"
		if r == "unsat" {
			o.Status = "proved"
		}
		return
	}
	var outs []string
	ok, refuted := false, false
	for _, c := range stage1 {
		r := runSolver(c, file, context.Background())
		outs = append(outs, c.name+": "+r)
		if r == "unsat" {
			ok = true
			o.Backend = c.name
			break
		}
		if r == "sat" && !strings.Contains(o.script, "(forall") && !strings.Contains(o.script, "(exists") {
			o.Output = "countermodel found by " + c.name
			refuted = true
		}
	}
	p.mu.Lock()
	many := p.failed >= 16
	p.mu.Unlock()
	if !ok && !refuted && !many {
		ctx, cancel := context.WithCancel(context.Background())
		type res struct{ n, r string }
		cfgs := stage2(p.tmo)
		ch := make(chan res, len(cfgs))
		for _, c := range cfgs {
			go func() { ch <- res{c.name, runSolver(c, file, ctx)} }()
		}
		for range cfgs {
			r := <-ch
			outs = append(outs, r.n+": "+r.r)
			if r.r == "unsat" {
				ok = true
				o.Backend = r.n
				break
			}
		}
		cancel()
	}
	o.TimeMs = time.Since(t0).Milliseconds()
	if ok {
		o.Status = "proved"
	} else {
		o.Status = "failed"
		o.Output = strings.Join(outs, "; ")
		o.Refuted = refuted
	}
	p.mu.Lock()
	p.total += time.Since(t0)
	if !ok {
		p.failed++
		p.fails = append(p.fails, o)
	}
	if ok {
		p.byBack[o.Backend]++
	}
	p.mu.Unlock()
}
func (p *pool) wait() {
	p.wg.Wait()
	p.copyDups()
}
func (p *pool) copyDups() {
	for o, d := range p.dups {
		was := o.Status
		o.Status, o.Backend, o.Output, o.TimeMs = d.Status, d.Backend, d.Output, 0
		if o.Status == "proved" && was != "proved" {
			p.byBack[o.Backend]++
		}
	}
}

// tryAgain gives the obligations no solver discharged a second chance, one at a time: the time limits are wall-clock
// times, and a machine busy with the other obligations may have used them up
func (p *pool) tryAgain() {
	defer p.copyDups()
	if p.retry == 0 || len(p.fails) > 12 {
		return
	}
	start := time.Now()
	for _, o := range p.fails {
		left := int((p.retry - time.Since(start)).Seconds())
		if left < 10 || o.Refuted {
			break
		}
		if left > 45 {
			left = 45
		}
		file := fmt.Sprintf("%s/again.smt2", p.dir)
		if err := os.WriteFile(file, []byte(o.script), 0o644); err != nil {
			return
		}
		t0 := time.Now()
		ctx, cancel := context.WithCancel(context.Background())
		cfgs := append(stage2(left),
			solverCfg{"z3", []string{fmt.Sprintf("-T:%d", left), "smt.mbqi=false", "smt.random_seed=7", "smt.array.extensional=false"}, left},
			solverCfg{"z3", []string{fmt.Sprintf("-T:%d", left), "smt.mbqi=false", "auto_config=false", "smt.random_seed=11", "smt.array.extensional=false"}, left})
		type res struct{ n, r string }
		ch := make(chan res, len(cfgs))
		for _, c := range cfgs {
			go func() { ch <- res{c.name, runSolver(c, file, ctx)} }()
		}
		for range cfgs {
			if r := <-ch; r.r == "unsat" {
				o.Status, o.Backend, o.Output = "proved", r.n, ""
				p.byBack[r.n]++
				p.failed--
				break
			}
		}
		cancel()
		o.TimeMs += time.Since(t0).Milliseconds()
		os.Remove(file)
		if o.Status != "proved" {
			// one that stays open settles the verdict
			break
		}
	}
}
