package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------- terms (hash-consed) ----------

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SIface Sort = "Iface"
	SSlice Sort = "Slice"
	SReal  Sort = "Real"
)

func ArrS(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[7 : len(str)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

type Term struct {
	Op    string // symbol / builtin
	Args  []*Term
	S     Sort
	id    int
	Bound []*Term // quantifier variables
	Pats  [][]*Term
	kind  byte // 'c' constant symbol, 'i' int literal, 'b' bool lit, 'f' application, 'q' quantifier, 'v' bound var, 'K' const-array
	big   *big.Int
	hasBV bool
	mark  int // creation mark for fresh constants
}

var (
	termTab  = map[string]*Term{}
	nextTID  = 1
	freshCnt = 0
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(t.kind)
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	if t.kind == 'K' || t.kind == 'c' || t.kind == 'v' || len(t.Args) == 0 {
		sb.WriteString(string(t.S))
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t.kind == 'q' {
		sb.WriteByte('#')
		for _, a := range t.Bound {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		for _, p := range t.Pats {
			sb.WriteByte('!')
			for _, a := range p {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = nextTID
	nextTID++
	if t.kind == 'v' {
		t.hasBV = true
	}
	for _, a := range t.Args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	termTab[k] = t
	return t
}

// BNames lists constants with a declared sort.
func Const(name string, s Sort) *Term { return intern(&Term{Op: name, S: s, kind: 'c'}) }
func Fresh(hint string, s Sort) *Term {
	freshCnt++
	t := Const(fmt.Sprintf("%s!%d", sanitize(hint), freshCnt), s)
	t.mark = freshCnt
	return t
}
func BVar(hint string, s Sort) *Term {
	freshCnt++
	return intern(&Term{Op: fmt.Sprintf("%s?%d", sanitize(hint), freshCnt), S: s, kind: 'v'})
}
func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func App(op string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Const(op, s)
	}
	return intern(&Term{Op: op, S: s, Args: args, kind: 'f'})
}

var True = intern(&Term{Op: "true", S: SBool, kind: 'b'})
var False = intern(&Term{Op: "false", S: SBool, kind: 'b'})

func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	return intern(&Term{Op: n.String(), S: SInt, kind: 'i', big: new(big.Int).Set(n)})
}
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.kind == 'f' && a.Op == "not" {
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False {
			return false
		}
		if t.kind == 'f' && t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True {
			return false
		}
		if t.kind == 'f' && t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return App("or", SBool, out...)
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return App("=>", SBool, a, b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

// linear decomposition: sum of coef*atom + const
func lin(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	var rec func(t *Term, k *big.Int)
	rec = func(t *Term, k *big.Int) {
		if t.kind == 'i' {
			c.Add(c, new(big.Int).Mul(k, t.big))
			return
		}
		if t.kind == 'f' && t.S == SInt {
			switch t.Op {
			case "+":
				for _, a := range t.Args {
					rec(a, k)
				}
				return
			case "-":
				if len(t.Args) == 2 {
					rec(t.Args[0], k)
					rec(t.Args[1], new(big.Int).Neg(k))
					return
				}
			case "*":
				if t.Args[0].kind == 'i' {
					rec(t.Args[1], new(big.Int).Mul(k, t.Args[0].big))
					return
				}
			}
		}
		if o, ok := m[t]; ok {
			o.Add(o, k)
		} else {
			m[t] = new(big.Int).Set(k)
		}
	}
	rec(t, big.NewInt(1))
	for k, v := range m {
		if v.Sign() == 0 {
			delete(m, k)
		}
	}
	return m, c
}
func unlin(m map[*Term]*big.Int, c *big.Int) *Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, k := range ks {
		v := m[k]
		if v.IsInt64() && v.Int64() == 1 {
			parts = append(parts, k)
		} else {
			parts = append(parts, App("*", SInt, BigInt(v), k))
		}
	}
	if c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigInt(c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return App("+", SInt, parts...)
}
func Add(a, b *Term) *Term {
	if a.S == SReal || b.S == SReal {
		return App("+", SReal, a, b)
	}
	m, c := lin(a)
	m2, c2 := lin(b)
	for k, v := range m2 {
		if o, ok := m[k]; ok {
			o.Add(o, v)
			if o.Sign() == 0 {
				delete(m, k)
			}
		} else {
			m[k] = v
		}
	}
	return unlin(m, c.Add(c, c2))
}
func Mul(a, b *Term) *Term {
	if a.kind == 'i' || b.kind == 'i' {
		if b.kind == 'i' {
			a, b = b, a
		}
		m, c := lin(b)
		for k, v := range m {
			m[k] = new(big.Int).Mul(v, a.big)
			if m[k].Sign() == 0 {
				delete(m, k)
			}
		}
		return unlin(m, c.Mul(c, a.big))
	}
	return App("*", SInt, a, b)
}
func Sub(a, b *Term) *Term { return Add(a, Mul(Int(-1), b)) }

// constDiff returns a-b when it is a literal.
func constDiff(a, b *Term) (*big.Int, bool) {
	m, c := lin(Sub(a, b))
	if len(m) == 0 {
		return c, true
	}
	return nil, false
}

func Lt(a, b *Term) *Term {
	if a.S == SInt {
		if d, ok := constDiff(a, b); ok {
			return Bool(d.Sign() < 0)
		}
	}
	return App("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a.S == SInt {
		if d, ok := constDiff(a, b); ok {
			return Bool(d.Sign() <= 0)
		}
	}
	return App("<=", SBool, a, b)
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func isCtor(t *Term) bool {
	return t.kind == 'f' && (strings.HasPrefix(t.Op, "mk-"))
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", show(a), a.S, show(b), b.S))
	}
	if a.S == SInt {
		if d, ok := constDiff(a, b); ok {
			return Bool(d.Sign() == 0)
		}
	}
	if a.S == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return False // distinct literals
	}
	if isCtor(a) && isCtor(b) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if strings.HasPrefix(a.Op, "box.") && strings.HasPrefix(b.Op, "box.") && a.kind == 'f' && b.kind == 'f' {
		if a.Op != b.Op {
			return False
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if (a == NilI && b.kind == 'f' && strings.HasPrefix(b.Op, "box.")) || (b == NilI && a.kind == 'f' && strings.HasPrefix(a.Op, "box.")) {
		return False
	}
	if a.kind == 'f' && a.Op == "ite" && (b.kind == 'c' || b.kind == 'i' || b.kind == 'b' || isCtor(b)) {
		x, y := Eq(a.Args[1], b), Eq(a.Args[2], b)
		if (x == True || x == False) || (y == True || y == False) {
			return Ite(a.Args[0], x, y)
		}
	}
	if b.kind == 'f' && b.Op == "ite" && (a.kind == 'c' || a.kind == 'i' || a.kind == 'b' || isCtor(a)) {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.S == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return App("ite", a.S, c, a, b)
}

// distinctness known syntactically
func synDistinct(a, b *Term) bool {
	return Eq(a, b) == False
}

func Select(arr, idx *Term) *Term {
	_, v := splitArr(arr.S)
	for {
		if arr.kind == 'f' && arr.Op == "store" {
			e := Eq(arr.Args[1], idx)
			if e == True {
				return arr.Args[2]
			}
			if e == False || (idx.S == SInt && distinctByAlloc(arr.Args[1], idx)) {
				arr = arr.Args[0]
				continue
			}
		}
		if arr.kind == 'K' {
			return arr.Args[0]
		}
		break
	}
	return App("select", v, arr, idx)
}
func Store(arr, idx, val *Term) *Term {
	_, v := splitArr(arr.S)
	if val.S != v {
		panic(fmt.Sprintf("Store sort mismatch: array %s value %s (%s)", arr.S, val.S, show(val)))
	}
	if arr.kind == 'f' && arr.Op == "store" && arr.Args[1] == idx {
		arr = arr.Args[0]
	}
	return App("store", arr.S, arr, idx, val)
}
func ConstArr(s Sort, v *Term) *Term {
	return intern(&Term{Op: "constarr", S: s, Args: []*Term{v}, kind: 'K'})
}

// refs known to have existed before an allocation base: base -> set of older terms
var olderThan = map[*Term]map[*Term]*big.Int{}

// distinctByAlloc: idx terms alloc0+k versus a term recorded as older than alloc0.
func distinctByAlloc(a, b *Term) bool {
	return isOlder(a, b) || isOlder(b, a)
}
func isOlder(old, young *Term) bool {
	m, c := lin(young)
	if len(m) != 1 || c.Sign() < 0 {
		return false
	}
	for k, v := range m {
		if !v.IsInt64() || v.Int64() != 1 || !strings.HasPrefix(k.Op, "alloc") {
			return false
		}
		if old.kind == 'i' {
			return old.big.Sign() <= 0
		}
		if old.kind == 'f' && strings.HasPrefix(old.Op, "sub.") {
			return true // addresses of nested structs are negative
		}
		om, oc := lin(old)
		var ob *Term
		if len(om) == 1 {
			for kk, vv := range om {
				if vv.IsInt64() && vv.Int64() == 1 && strings.HasPrefix(kk.Op, "alloc") {
					ob = kk
				}
			}
		}
		base := k
		for base != nil {
			if set, ok := olderThan[base]; ok {
				if off, ok := set[old]; ok && (base != k || off.Cmp(c) <= 0) {
					// for a predecessor base the bound must lie below the point where the next base starts
					if base == k || off.Cmp(baseLimit(base, k)) <= 0 {
						return true
					}
				}
			}
			pb, ok := basePrev[base]
			if !ok {
				return false
			}
			if ob != nil && pb == ob && oc.Cmp(baseAt[base]) < 0 {
				return true
			}
			base = pb
		}
		return false
	}
	return false
}

// baseLimit: the offset base had reached when its successor towards k started
func baseLimit(base, k *Term) *big.Int {
	b := k
	for b != nil {
		p := basePrev[b]
		if p == base {
			return baseAt[b]
		}
		b = p
	}
	return big.NewInt(0)
}

// markOlder records old < bound (a term base+offset).
func markOlder(old, bound *Term) {
	m, c := lin(bound)
	for k := range m {
		if strings.HasPrefix(k.Op, "alloc") {
			s := olderThan[k]
			if s == nil {
				s = map[*Term]*big.Int{}
				olderThan[k] = s
			}
			if o, ok := s[old]; !ok || c.Cmp(o) < 0 {
				s[old] = c
			}
		}
	}
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("forall", vars, pats, body) }
func Exists(vars []*Term, body *Term) *Term                 { return quant("exists", vars, nil, body) }
func quant(op string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	// drop unused variables
	var used []*Term
	for _, v := range vars {
		if mentions(body, map[*Term]bool{v: true}) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	t := &Term{Op: op, S: SBool, Args: []*Term{body}, Bound: used, kind: 'q'}
	var ps [][]*Term
	for _, p := range pats {
		ok := true
		for _, v := range used {
			f := false
			for _, a := range p {
				if mentions(a, map[*Term]bool{v: true}) {
					f = true
				}
			}
			if !f {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	t.Pats = ps
	r := intern(t)
	// closed?
	r.hasBV = len(freeBV(r)) > 0
	return r
}

func freeBV(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if t.kind == 'v' {
			if !bound[t] {
				out[t] = true
			}
			return
		}
		if !t.hasBV && t.kind != 'q' {
			return
		}
		if t.kind == 'q' {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.Bound {
				nb[b] = true
			}
			rec(t.Args[0], nb)
			return
		}
		if len(bound) == 0 {
			if seen[t] {
				return
			}
			seen[t] = true
		}
		for _, a := range t.Args {
			rec(a, bound)
		}
	}
	rec(t, map[*Term]bool{})
	return out
}

func mentions(t *Term, set map[*Term]bool) bool {
	return mentionsF(t, func(x *Term) bool { return set[x] }, map[*Term]bool{})
}
func mentionsF(t *Term, f func(*Term) bool, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if mentionsF(a, f, seen) {
			return true
		}
	}
	return false
}

func collect(t *Term, f func(*Term), seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		collect(a, f, seen)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			collect(a, f, seen)
		}
	}
}

// Subst replaces terms (usually constants / bound variables).
func Subst(t *Term, m map[*Term]*Term) *Term {
	return substM(t, m, map[*Term]*Term{})
}
func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.kind {
	case 'c', 'i', 'b', 'v':
		r = t
	case 'q':
		body := substM(t.Args[0], m, memo)
		var ps [][]*Term
		for _, p := range t.Pats {
			var np []*Term
			for _, a := range p {
				np = append(np, substM(a, m, memo))
			}
			ps = append(ps, np)
		}
		r = quant(t.Op, t.Bound, ps, body)
	case 'K':
		r = ConstArr(t.S, substM(t.Args[0], m, memo))
	default:
		ch := false
		na := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			na[i] = substM(a, m, memo)
			if na[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "+":
		if t.S == SInt {
			r := a[0]
			for _, x := range a[1:] {
				r = Add(r, x)
			}
			return r
		}
	case "*":
		if t.S == SInt && len(a) == 2 {
			return Mul(a[0], a[1])
		}
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "cat":
		return Cat(a...)
	case "strlen":
		return StrLen(a[0])
	}
	if strings.HasPrefix(t.Op, "sel-") {
		return Sel(t.Op, t.S, a[0])
	}
	if strings.HasPrefix(t.Op, "unbox.") {
		return Unbox(t.Op[6:], t.S, a[0])
	}
	return App(t.Op, t.S, a...)
}

// ---------- datatypes ----------
type dtField struct {
	name string
	s    Sort
}
type dtDecl struct {
	name   Sort
	fields []dtField
}

var dts = map[Sort]*dtDecl{SSlice: {SSlice, []dtField{{"arr", SInt}, {"off", SInt}, {"len", SInt}}}}
var dtOrder = []Sort{SSlice}

func declDT(name Sort, fields []dtField) {
	if _, ok := dts[name]; ok {
		return
	}
	dts[name] = &dtDecl{name, fields}
	dtOrder = append(dtOrder, name)
}
func selName(dt Sort, f string) string { return "sel-" + string(dt) + "-" + f }
func Mk(dt Sort, args ...*Term) *Term {
	d := dts[dt]
	if len(d.fields) != len(args) {
		panic("mk arity " + string(dt))
	}
	if len(args) == 0 {
		return Const("mk-"+string(dt), dt)
	}
	// eta
	if args[0].kind == 'f' && args[0].Op == selName(dt, d.fields[0].name) {
		base := args[0].Args[0]
		same := true
		for i, a := range args {
			if !(a.kind == 'f' && a.Op == selName(dt, d.fields[i].name) && a.Args[0] == base) {
				same = false
				break
			}
		}
		if same {
			return base
		}
	}
	return App("mk-"+string(dt), dt, args...)
}
func Sel(sel string, s Sort, x *Term) *Term {
	if isCtor(x) {
		d := dts[x.S]
		for i, f := range d.fields {
			if selName(x.S, f.name) == sel {
				return x.Args[i]
			}
		}
	}
	if x.kind == 'f' && x.Op == "ite" {
		a, b := Sel(sel, s, x.Args[1]), Sel(sel, s, x.Args[2])
		return Ite(x.Args[0], a, b)
	}
	return App(sel, s, x)
}
func SelF(x *Term, i int) *Term {
	d := dts[x.S]
	if d == nil {
		panic("SelF on " + string(x.S) + " " + show(x))
	}
	return Sel(selName(x.S, d.fields[i].name), d.fields[i].s, x)
}

func MkSlice(a, o, l *Term) *Term { return Mk(SSlice, a, o, l) }
func SArr(s *Term) *Term          { return SelF(s, 0) }
func SOff(s *Term) *Term          { return SelF(s, 1) }
func SLen(s *Term) *Term          { return SelF(s, 2) }

var NilSlice = MkSlice(Int(0), Int(0), Int(0))
var NilI = Const("nilI", SIface)

// ---------- strings ----------
var strLits = map[string]*Term{}
var strLitVal = map[*Term]string{}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	nm := fmt.Sprintf("lit%d!%s", len(strLits), sanitize(s))
	if len(nm) > 30 {
		nm = nm[:30]
	}
	t := Const(nm, SStr)
	strLits[s] = t
	strLitVal[t] = s
	return t
}
func isStrLit(t *Term) bool { _, ok := strLitVal[t]; return ok }

func Cat(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.kind == 'f' && t.Op == "cat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if v, ok := strLitVal[t]; ok {
			if v == "" {
				return
			}
			if len(out) > 0 {
				if pv, ok := strLitVal[out[len(out)-1]]; ok {
					out[len(out)-1] = StrLit(pv + v)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(out) == 0 {
		return StrLit("")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = App("cat", SStr, out[i], r)
	}
	return r
}
func StrLen(t *Term) *Term {
	if v, ok := strLitVal[t]; ok {
		return Int(int64(len(v)))
	}
	if t.kind == 'f' && t.Op == "cat" {
		return Add(StrLen(t.Args[0]), StrLen(t.Args[1]))
	}
	if t.kind == 'f' && t.Op == "zeros" {
		return t.Args[0]
	}
	return App("strlen", SInt, t)
}

// ---------- interface boxing ----------
func Box(tag string, v *Term) *Term {
	if v.kind == 'f' && v.Op == "unbox."+tag {
		// cannot simplify without knowing the tag
	}
	boxSort[tag] = v.S
	return App("box."+tag, SIface, v)
}
func Unbox(tag string, s Sort, v *Term) *Term {
	boxSort[tag] = s
	if v.kind == 'f' && v.Op == "box."+tag {
		return v.Args[0]
	}
	return App("unbox."+tag, s, v)
}

var boxSort = map[string]Sort{}
var tagNum = map[string]int{}

func TagOf(tag string) *Term {
	n, ok := tagNum[tag]
	if !ok {
		n = len(tagNum) + 1
		tagNum[tag] = n
	}
	return Int(int64(n))
}
func ITag(v *Term) *Term {
	if v == NilI {
		return Int(0)
	}
	if v.kind == 'f' && strings.HasPrefix(v.Op, "box.") {
		return TagOf(v.Op[4:])
	}
	return App("itag", SInt, v)
}

// ---------- printing ----------
func sym(s string) string {
	if strings.ContainsAny(s, "|\\") {
		s = strings.NewReplacer("|", "!", "\\", "!").Replace(s)
	}
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$-+=<>*/?", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

func show(t *Term) string { return showD(t, 8) }
func showD(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	if v, ok := strLitVal[t]; ok {
		return fmt.Sprintf("%q", v)
	}
	switch t.kind {
	case 'c', 'i', 'b', 'v':
		return t.Op
	case 'q':
		var vs []string
		for _, b := range t.Bound {
			vs = append(vs, b.Op)
		}
		return "(" + t.Op + " " + strings.Join(vs, ",") + " :: " + showD(t.Args[0], d-1) + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, showD(a, d-1))
	}
	return "(" + t.Op + " " + strings.Join(as, " ") + ")"
}
