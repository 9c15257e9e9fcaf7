package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---------- contract files ----------
type Expr struct {
	op   string // ident int str sel index call un bin quant nil bool
	s    string
	args []*Expr
	vars []qvar
	pats [][]*Expr
	ty   *TypeX
}
type qvar struct {
	name string
	ty   *TypeX
}
type TypeX struct {
	kind string // named ptr slice map array chan
	name string
	elem *TypeX
	key  *TypeX
	n    int64
}

type Clause struct {
	Tags []string
	E    *Expr
	Text string
}

type Contract struct {
	Name       string
	Params     []string
	Results    []string
	Tags       []string
	Requires   []Clause
	Ensures    []Clause
	Inits      []Clause // ghost fields of new objects, chosen by the contract
	Modifies   []Clause
	CrashInv   []*AtCall // what holds after every external effect: where the process may stop
	Awaits     []Clause // what other goroutines may change while the function waits
	Rely       []Clause // what they keep (old: before the wait)
	NoPanic    []string
	LockTags   []string
	Extern     bool
	Trusted    bool
	Pure       bool
	PureName   string
	Inline     bool
	AnyParams  bool
	AllocBound *Clause
	AtCall     map[string][]*AtCall // obligations where the function (with what is inlined in it) calls the named function
	LoopInv    []*AtCall            // what holds whenever an outermost loop of the function (or of what is inlined in it) is at its head
	OnSend     []*AtCall            // obligations where it sends a value of the type on a channel
	File       string
	Bounded    string
	used       bool
}

// AtCall: "atcall NAME(params) E" or "onsend TYPE(v) E"
type AtCall struct {
	Params []string
	ty     *TypeX
	tpath  string
	Clause
}

type macro struct {
	params []string
	body   *Expr
}
type declFn struct {
	args []*TypeX
	res  *TypeX
}

type Spec struct {
	contracts map[string]*Contract
	macros    map[string]*macro
	decls     map[string]*declFn
	imports   map[string]string
	ghosts    map[string]ghostDecl // by name
	axioms    []Clause
	guards    []guardDecl
	chanInv   []*Contract
	chanTy    []*TypeX
	noEffect  []string
	opaque    []string
	valuePtr  []string
	trustNote []string
}
type ghostDecl struct {
	name string
	on   string // type path
	ty   *TypeX
}
type guardDecl struct {
	field, lock string
	tags        []string
}

// ---------- lexer ----------
type tok struct{ k, s string }

var tokRe = regexp.MustCompile(`^(?:(\s+)|("(?:[^"\\]|\\.)*")|([0-9]+)|([A-Za-z_$][A-Za-z0-9_$]*)|(==>|<==>|==|!=|<=|>=|&&|\|\||::|[-+*/%<>!().,\[\]{}:;=|&]))`)

func lex(s string) []tok {
	var out []tok
	for len(s) > 0 {
		m := tokRe.FindStringSubmatch(s)
		if m == nil {
			panic(fmt.Sprintf("spec: cannot lex %q", s))
		}
		switch {
		case m[1] != "":
		case m[2] != "":
			u, err := strconv.Unquote(m[2])
			if err != nil {
				panic(err)
			}
			out = append(out, tok{"str", u})
		case m[3] != "":
			out = append(out, tok{"int", m[3]})
		case m[4] != "":
			out = append(out, tok{"id", m[4]})
		default:
			out = append(out, tok{"op", m[5]})
		}
		s = s[len(m[0]):]
	}
	return out
}

type parser struct {
	t    []tok
	i    int
	text string
}

func parseExpr(s string) *Expr {
	p := &parser{t: lex(s), text: s}
	e := p.expr(0)
	if p.i != len(p.t) {
		panic(fmt.Sprintf("spec: trailing tokens at %q in %q", p.t[p.i].s, s))
	}
	return e
}
func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{"eof", ""}
}
func (p *parser) next() tok { t := p.peek(); p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) eat(s string) {
	if !p.is(s) {
		panic(fmt.Sprintf("spec: expected %q, got %q in %q", s, p.peek().s, p.text))
	}
	p.i++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.i++
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr) // right associative
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
	}
}
func (p *parser) unary() *Expr {
	if p.is("!") {
		p.i++
		return &Expr{op: "un", s: "!", args: []*Expr{p.unary()}}
	}
	if p.is("-") {
		p.i++
		return &Expr{op: "un", s: "-", args: []*Expr{p.unary()}}
	}
	if p.is("*") {
		p.i++
		return &Expr{op: "un", s: "*", args: []*Expr{p.unary()}}
	}
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		e := &Expr{op: "quant", s: q}
		for {
			n := p.next().s
			e.vars = append(e.vars, qvar{n, p.typ()})
			if p.is(",") {
				p.i++
				continue
			}
			break
		}
		for p.is("{") {
			p.i++
			var pat []*Expr
			for {
				pat = append(pat, p.expr(0))
				if p.is(",") {
					p.i++
					continue
				}
				break
			}
			p.eat("}")
			e.pats = append(e.pats, pat)
		}
		p.eat("::")
		e.args = []*Expr{p.expr(0)}
		return e
	}
	return p.postfix(p.primary())
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{op: "int", s: t.s}
	case "str":
		return &Expr{op: "str", s: t.s}
	case "id":
		switch t.s {
		case "true", "false":
			return &Expr{op: "bool", s: t.s}
		case "nil":
			return &Expr{op: "nil"}
		case "mk", "struct", "jsondec", "protodec", "is", "as", "zero", "lastrecv", "anyof", "anymap", "anyelems", "anycell":
			if p.is("(") {
				p.eat("(")
				e := &Expr{op: "call", s: t.s}
				if t.s == "is" || t.s == "as" {
					e.args = []*Expr{p.expr(0)}
					p.eat(",")
				}
				e.ty = p.typ()
				for (t.s == "mk" || t.s == "struct" || t.s == "jsondec" || t.s == "protodec") && p.is(",") {
					p.eat(",")
					e.args = append(e.args, p.expr(0))
				}
				p.eat(")")
				return e
			}
		}
		return &Expr{op: "ident", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.eat(")")
			return e
		}
	}
	panic(fmt.Sprintf("spec: unexpected %q in %q", t.s, p.text))
}
func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.i++
			n := p.next()
			e = &Expr{op: "sel", s: n.s, args: []*Expr{e}}
		case p.is("["):
			p.i++
			if p.is(":") || false {
				panic("slice expr")
			}
			i := p.expr(0)
			p.eat("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		case p.is("("):
			p.i++
			c := &Expr{op: "call", args: []*Expr{e}}
			for !p.is(")") {
				c.args = append(c.args, p.expr(0))
				if p.is(",") {
					p.i++
				}
			}
			p.eat(")")
			if e.op == "ident" {
				c.s = e.s
			}
			e = c
		default:
			return e
		}
	}
}
func (p *parser) typ() *TypeX {
	switch {
	case p.is("*"):
		p.i++
		return &TypeX{kind: "ptr", elem: p.typ()}
	case p.is("["):
		p.i++
		if p.peek().k == "int" {
			n, _ := strconv.ParseInt(p.next().s, 10, 64)
			p.eat("]")
			return &TypeX{kind: "array", n: n, elem: p.typ()}
		}
		p.eat("]")
		return &TypeX{kind: "slice", elem: p.typ()}
	case p.is("map"):
		p.i++
		p.eat("[")
		k := p.typ()
		p.eat("]")
		return &TypeX{kind: "map", key: k, elem: p.typ()}
	case p.is("chan"):
		p.i++
		return &TypeX{kind: "chan", elem: p.typ()}
	}
	n := p.next().s
	if n == "set" && p.is("[") {
		p.i++
		e := p.typ()
		p.eat("]")
		return &TypeX{kind: "set", elem: e}
	}
	for p.is(".") {
		p.i++
		n += "." + p.next().s
	}
	return &TypeX{kind: "named", name: n}
}

// ---------- file parser ----------
var headRe = regexp.MustCompile(`^(func|extern)\s+((?:pure|trusted|inline)\s+)*(\S+?)\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*(?:\[([^\]]*)\])?\s*$`)
var tagsRe = regexp.MustCompile(`^\[((?:C[0-9]+,?\s*)+)\]\s*`)

var clauseWords = map[string]bool{"requires": true, "ensures": true, "init": true, "modifies": true, "awaits": true, "crashinv": true, "rely": true, "nopanic": true, "locks": true, "alloc": true, "atcall": true, "onsend": true, "loopinv": true, "loopvar": true, "purename": true, "bounded": true}
var topWords = map[string]bool{"func": true, "extern": true, "import": true, "define": true, "declare": true, "axiom": true, "ghost": true, "guard": true, "chaninv": true, "noeffect": true, "opaque": true, "valueptr": true, "transparent": true, "note": true}

func splitList(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			if strings.ContainsAny(x, " ()[]=") {
				panic("not a list of names: " + s)
			}
			out = append(out, x)
		}
	}
	return out
}

func loadSpecs(dir string) *Spec {
	sp := &Spec{contracts: map[string]*Contract{}, macros: map[string]*macro{}, decls: map[string]*declFn{}, imports: map[string]string{}, ghosts: map[string]ghostDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		sp.load(f)
	}
	return sp
}

func (sp *Spec) load(file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	// join continuation lines
	var items []string
	var lines []int
	for ln, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '[' || r == '(' })[0]
		if topWords[w] && !strings.HasPrefix(l, " ") && !strings.HasPrefix(l, "\t") || clauseWords[w] {
			items = append(items, t)
			lines = append(lines, ln+1)
		} else {
			items[len(items)-1] += " " + t
		}
	}
	var cur *Contract
	for i, it := range items {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s:%d: %v", file, lines[i], r))
				}
			}()
			cur = sp.item(it, cur, file)
		}()
	}
}

func (sp *Spec) item(it string, cur *Contract, file string) *Contract {
	w := it
	if i := strings.IndexAny(it, " [("); i >= 0 {
		w = it[:i]
	}
	rest := strings.TrimSpace(it[len(w):])
	switch w {
	case "import":
		f := strings.Fields(rest)
		sp.imports[f[0]] = strings.Trim(f[1], "\"")
	case "noeffect":
		sp.noEffect = append(sp.noEffect, strings.Fields(rest)...)
	case "opaque":
		sp.opaque = append(sp.opaque, strings.Fields(rest)...)
		for _, o := range strings.Fields(rest) {
			opaquePkgs[o] = true
		}
	case "transparent":
		// plain data of a package whose types are otherwise opaque
		for _, o := range strings.Fields(rest) {
			transparentTypes[o] = true
		}
	case "valueptr":
		sp.valuePtr = append(sp.valuePtr, strings.Fields(rest)...)
	case "note":
		sp.trustNote = append(sp.trustNote, rest)
	case "ghost":
		f := strings.Fields(rest) // name type sort
		p := &parser{t: lex(f[2]), text: f[2]}
		sp.ghosts[f[0]] = ghostDecl{f[0], f[1], p.typ()}
	case "define":
		i := strings.Index(rest, "=")
		h := strings.TrimSpace(rest[:i])
		body := parseExpr(rest[i+1:])
		m := &macro{body: body}
		name := h
		if j := strings.IndexByte(h, '('); j >= 0 {
			name = strings.TrimSpace(h[:j])
			m.params = splitList(strings.TrimSuffix(h[j+1:], ")"))
		}
		sp.macros[name] = m
	case "declare":
		p := &parser{t: lex(rest), text: rest}
		name := p.next().s
		d := &declFn{}
		p.eat("(")
		for !p.is(")") {
			d.args = append(d.args, p.typ())
			if p.is(",") {
				p.i++
			}
		}
		p.eat(")")
		d.res = p.typ()
		sp.decls[name] = d
	case "axiom":
		sp.axioms = append(sp.axioms, Clause{E: parseExpr(rest), Text: rest})
	case "guard":
		m := regexp.MustCompile(`^(\S+)\s+by\s+(\S+)\s*(?:\[([^\]]*)\])?$`).FindStringSubmatch(rest)
		if m == nil {
			panic("bad guard " + rest)
		}
		sp.guards = append(sp.guards, guardDecl{m[1], m[2], splitList(m[3])})
	case "chaninv":
		// chaninv TYPE (v) expr
		i, j := strings.Index(rest, "("), strings.Index(rest, ")")
		p := &parser{t: lex(rest[:i]), text: rest}
		sp.chanTy = append(sp.chanTy, p.typ())
		sp.chanInv = append(sp.chanInv, &Contract{Name: "chaninv", Params: chanParams(rest[i+1 : j]), Ensures: []Clause{sp.clause(rest[j+1:])}})
	case "func", "extern":
		m := headRe.FindStringSubmatch(it)
		if m == nil {
			panic("bad header " + it)
		}
		c := &Contract{Name: m[3], Params: splitList(m[4]), Results: splitList(m[5]), Tags: splitList(m[6]), Extern: w == "extern", File: filepath.Base(file)}
		mods := it[:strings.Index(it, m[3])]
		c.Pure = strings.Contains(mods, "pure")
		c.Trusted = strings.Contains(mods, "trusted")
		c.Inline = strings.Contains(mods, "inline")
		if len(c.Params) == 1 && c.Params[0] == "..." {
			c.Params, c.AnyParams = nil, true
		}
		if sp.contracts[c.Name] != nil {
			panic("duplicate contract " + c.Name)
		}
		sp.contracts[c.Name] = c
		return c
	case "requires":
		cur.Requires = append(cur.Requires, sp.clause(rest))
	case "ensures":
		cur.Ensures = append(cur.Ensures, sp.clause(rest))
	case "init":
		// init [COND ==>] ghost(g, x) == E: x is new, and its ghost field starts as E
		c := sp.clause(rest)
		cur.Inits = append(cur.Inits, c)
		cur.Ensures = append(cur.Ensures, c)
	case "modifies":
		for _, t := range splitTop(rest) {
			cur.Modifies = append(cur.Modifies, sp.clause(t))
		}
	case "crashinv":
		cur.CrashInv = append(cur.CrashInv, &AtCall{Clause: sp.clause(rest)})
	case "awaits":
		for _, t := range splitTop(rest) {
			cur.Awaits = append(cur.Awaits, sp.clause(t))
		}
	case "rely":
		cur.Rely = append(cur.Rely, sp.clause(rest))
	case "nopanic":
		l := splitList(strings.Trim(rest, "[]"))
		if len(l) == 0 {
			l = cur.Tags
		}
		cur.NoPanic = append(cur.NoPanic, l...)
	case "locks":
		cur.LockTags = append(cur.LockTags, splitList(strings.Trim(rest, "[]"))...)
	case "purename":
		cur.PureName = rest
	case "bounded":
		cur.Bounded = rest
	case "atcall":
		i := strings.Index(rest, "(")
		j := i + strings.Index(rest[i:], ")")
		if cur.AtCall == nil {
			cur.AtCall = map[string][]*AtCall{}
		}
		n := strings.TrimSpace(rest[:i])
		cur.AtCall[n] = append(cur.AtCall[n], &AtCall{Params: splitList(rest[i+1 : j]), Clause: sp.clause(rest[j+1:])})
	case "loopinv":
		cur.LoopInv = append(cur.LoopInv, &AtCall{Clause: sp.clause(rest)})
	case "loopvar":
		i := strings.Index(rest, "(")
		j := i + strings.Index(rest[i:], ")")
		p := &parser{t: lex(rest[:i]), text: rest}
		cur.LoopInv = append(cur.LoopInv, &AtCall{ty: p.typ(), Params: splitList(rest[i+1 : j]), Clause: sp.clause(rest[j+1:])})
	case "onsend":
		i := strings.Index(rest, "(")
		j := i + strings.Index(rest[i:], ")")
		p := &parser{t: lex(rest[:i]), text: rest}
		cur.OnSend = append(cur.OnSend, &AtCall{ty: p.typ(), Params: splitList(rest[i+1 : j]), Clause: sp.clause(rest[j+1:])})
	case "alloc":
		c := sp.clause(rest)
		cur.AllocBound = &c
	default:
		panic("unknown item " + it)
	}
	return cur
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func (sp *Spec) clause(s string) Clause {
	s = strings.TrimSpace(s)
	var tags []string
	if m := tagsRe.FindStringSubmatch(s); m != nil {
		tags = splitList(m[1])
		s = s[len(m[0]):]
	}
	return Clause{Tags: tags, E: parseExpr(s), Text: strings.Join(strings.Fields(s), " ")}
}

// ---------- type resolution ----------
func (e *Engine) pkgByName(n string) *types.Package {
	if p, ok := e.spec.imports[n]; ok {
		if q := e.pkgPath[p]; q != nil {
			return q
		}
	}
	return e.pkgName[n]
}
func (e *Engine) typeOf(t *TypeX) types.Type {
	switch t.kind {
	case "ptr":
		return types.NewPointer(e.typeOf(t.elem))
	case "slice":
		return types.NewSlice(e.typeOf(t.elem))
	case "array":
		return types.NewArray(e.typeOf(t.elem), t.n)
	case "map":
		return types.NewMap(e.typeOf(t.key), e.typeOf(t.elem))
	case "set":
		return &SetType{e.typeOf(t.elem)}
	case "chan":
		return types.NewChan(types.SendRecv, e.typeOf(t.elem))
	}
	if i := strings.LastIndexByte(t.name, '.'); i >= 0 {
		p := e.pkgByName(t.name[:i])
		if p == nil {
			panic(unsupported{"spec: unknown package " + t.name[:i]})
		}
		o := p.Scope().Lookup(t.name[i+1:])
		if o == nil {
			panic(unsupported{"spec: unknown type " + t.name})
		}
		return o.Type()
	}
	switch t.name {
	case "any":
		return types.NewInterfaceType(nil, nil)
	case "error":
		return types.Universe.Lookup("error").Type()
	case "Deep", "Seq":
	}
	if o := types.Universe.Lookup(t.name); o != nil {
		return o.Type()
	}
	panic(unsupported{"spec: unknown type " + t.name})
}

// ---------- evaluation ----------
type specEnv struct {
	ex     *Exec
	st     *State
	old    *State
	vars   map[string]Val
	ct     *Contract
	result []Val
	depth  int
}

func (v *specEnv) with(name string, x Val) *specEnv {
	n := *v
	n.vars = map[string]Val{}
	for k, y := range v.vars {
		n.vars[k] = y
	}
	n.vars[name] = x
	return &n
}

func (v *specEnv) fail(f string, a ...any) {
	panic(unsupported{"spec " + v.ct.Name + ": " + fmt.Sprintf(f, a...)})
}

func (v *specEnv) boolE(e *Expr) *Term {
	x := v.eval(e)
	if x.t == nil || x.t.S != SBool {
		v.fail("not a boolean: %s", e)
	}
	return x.t
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var stringT = types.Typ[types.String]

func bv(t *Term) Val { return V(t, boolT) }

func (e *Expr) String() string {
	if e == nil {
		return "?"
	}
	switch e.op {
	case "ident", "int", "str", "bool":
		return e.s
	case "sel":
		return e.args[0].String() + "." + e.s
	case "call":
		if len(e.args) > 0 {
			return e.args[0].String() + "(…)"
		}
	}
	return e.op + " " + e.s
}

func (v *specEnv) eval(e *Expr) Val {
	ex := v.ex
	switch e.op {
	case "int":
		n, _ := strconv.ParseInt(e.s, 10, 64)
		return V(Int(n), intT)
	case "str":
		return V(StrLit(e.s), stringT)
	case "bool":
		return bv(Bool(e.s == "true"))
	case "nil":
		return Val{ty: types.Typ[types.UntypedNil]}
	case "ident":
		if x, ok := v.vars[e.s]; ok {
			if x.pl != nil && x.t == nil {
				return V(ex.ptrTerm(v.st, x), x.ty)
			}
			return x
		}
		if e.s == "result" && len(v.result) > 0 {
			return v.result[0]
		}
		if m := ex.eng.spec.macros[e.s]; m != nil && len(m.params) == 0 {
			return v.eval(m.body)
		}
		v.fail("unknown name %s", e.s)
	case "sel":
		if e.args[0].op == "ident" {
			if _, ok := v.vars[e.args[0].s]; !ok {
				if p := ex.eng.pkgByName(e.args[0].s); p != nil {
					return v.pkgMember(p, e.s)
				}
			}
		}
		return v.field(v.eval(e.args[0]), e.s)
	case "index":
		x := v.eval(e.args[0])
		i := v.eval(e.args[1])
		switch u := x.ty.Underlying().(type) {
		case *types.Map:
			val, _ := ex.mapGet(v.st, x.t, x.ty, v.coerce(i, u.Key()).t)
			return V(val, u.Elem())
		case *types.Slice:
			if isByteT(u.Elem()) {
				return V(ByteAt(v.st.bytesOf(x.t), i.t), u.Elem())
			}
			t := Select(v.st.row(u.Elem(), x.t), Add(SOff(x.t), i.t))
			return V(v.normal(t, u.Elem()), u.Elem())
		case *types.Array:
			return V(Select(x.t, i.t), u.Elem())
		case *types.Basic:
			return V(ByteAt(x.t, i.t), types.Typ[types.Uint8])
		}
		v.fail("index of %s", x.ty)
	case "un":
		switch e.s {
		case "!":
			return bv(Not(v.boolE(e.args[0])))
		case "-":
			x := v.eval(e.args[0])
			return V(Mul(Int(-1), x.t), x.ty)
		case "*":
			x := v.eval(e.args[0])
			el := derefT(x.ty)
			return V(v.normal(v.rawLoad(x.t, el), el), el)
		}
	case "bin":
		return v.bin(e)
	case "quant":
		env := v
		var bs []*Term
		for _, q := range e.vars {
			ty := ex.eng.typeOf(q.ty)
			b := BVar(q.name, sortOf(ty))
			bs = append(bs, b)
			env = env.with(q.name, V(b, ty))
		}
		env.depth++
		body := env.boolE(e.args[0])
		var pats [][]*Term
		for _, p := range e.pats {
			var ts []*Term
			for _, x := range p {
				ts = append(ts, env.eval(x).t)
			}
			pats = append(pats, ts)
		}
		if e.s == "forall" {
			return bv(Forall(bs, pats, body))
		}
		return bv(Exists(bs, body))
	case "call":
		return v.call(e)
	}
	v.fail("cannot evaluate %s", e.op)
	return Val{}
}

// normal: values read inside quantifiers get no side facts; slices read from the
// environment are normalised to offset 0
func (v *specEnv) normal(t *Term, ty types.Type) *Term {
	if t.hasBV {
		if t.S == SSlice && isEnv(t) {
			return MkSlice(SArr(t), Int(0), SLen(t))
		}
		return t
	}
	return v.st.fix(t, ty)
}

func (v *specEnv) rawLoad(ref *Term, ty types.Type) *Term {
	st := v.st
	if s, ok := isStruct(ty); ok {
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, v.rawField(ref, ty, i))
		}
		return Mk(sortOf(ty), as...)
	}
	if at, ok := ty.Underlying().(*types.Array); ok {
		return st.sel(st.get(kElem(at.Elem())), ref)
	}
	return st.sel(st.get(kCell(ty)), ref)
}
func (v *specEnv) rawField(ref *Term, ty types.Type, i int) *Term {
	s := ty.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
		return v.rawLoad(subRef(ty, i, ref), ft)
	}
	return v.normal(v.st.sel(v.st.get(kField(ty, i)), ref), ft)
}

func (v *specEnv) pkgMember(p *types.Package, n string) Val {
	o := p.Scope().Lookup(n)
	if o == nil {
		v.fail("unknown %s.%s", p.Name(), n)
	}
	switch c := o.(type) {
	case *types.Const:
		return V(constTerm(newConst(c)), c.Type())
	case *types.Var:
		g := v.ex.eng.global(p, n)
		if g == nil {
			// a variable of a package whose SSA was not built
			if isErrorT(c.Type()) {
				return V(Const("err!"+shortPkg(p.Path())+"."+n, SIface), c.Type())
			}
			v.fail("global %s.%s not available", p.Name(), n)
		}
		pv := v.ex.globalPtr(g)
		if pv.pl != nil && strings.HasPrefix(pv.pl.key, "S|") {
			return V(pv.t, c.Type())
		}
		return V(v.st.load(pv, c.Type()), c.Type())
	}
	v.fail("%s.%s is not a value", p.Name(), n)
	return Val{}
}

func (v *specEnv) field(x Val, name string) Val {
	base := x.ty
	if base == nil {
		v.fail("field %s of untyped value", name)
	}
	var pkg *types.Package
	if n, ok := types.Unalias(derefT(base)).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, index, _ := types.LookupFieldOrMethod(base, true, pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		v.fail("no field %s in %s", name, base)
	}
	_ = f
	cur := x
	for _, i := range index {
		ty := cur.ty
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			sty := p.Elem()
			s := sty.Underlying().(*types.Struct)
			ft := s.Field(i).Type()
			if isOpaqueStruct(sty) {
				k := regKey(keyField(sty, i), ArrS(SInt, sortOf(ft)))
				cur = V(v.normal(v.st.sel(v.st.get(k), cur.t), ft), ft)
				continue
			}
			cur = Val{t: v.rawField(cur.t, sty, i), ty: ft, pl: nil}
			continue
		}
		s := ty.Underlying().(*types.Struct)
		if isOpaqueStruct(ty) {
			v.fail("field %s of opaque struct value", name)
		}
		cur = V(v.normal(SelF(cur.t, i), s.Field(i).Type()), s.Field(i).Type())
	}
	return cur
}

// addr: address of a nested struct field (locks, buffers)
func (v *specEnv) addr(e *Expr) (*Term, types.Type) {
	if e.op == "sel" {
		x := v.eval(e.args[0])
		if p, ok := x.ty.Underlying().(*types.Pointer); ok {
			sty := p.Elem()
			var pkg *types.Package
			if n, ok := types.Unalias(sty).(*types.Named); ok {
				pkg = n.Obj().Pkg()
			}
			_, index, _ := types.LookupFieldOrMethod(x.ty, true, pkg, e.s)
			if len(index) == 0 {
				v.fail("no field %s", e.s)
			}
			cur := x.t
			cty := sty
			for j, i := range index {
				s := cty.Underlying().(*types.Struct)
				ft := s.Field(i).Type()
				if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
					cur = subRef(cty, i, cur)
					cty = ft
					continue
				}
				if _, ok := ft.Underlying().(*types.Pointer); ok && (j == len(index)-1 || true) {
					cur = v.normal(v.st.sel(v.st.get(kField(cty, i)), cur), ft)
					cty = derefT(ft)
					continue
				}
				return v.eval(e).t, ft
			}
			return cur, cty
		}
	}
	x := v.eval(e)
	if x.t != nil && x.t.S == SIface {
		return ibox(x.t), x.ty
	}
	return x.t, derefT(x.ty)
}

func (v *specEnv) coerce(x Val, ty types.Type) Val {
	if x.t == nil && x.ty == types.Typ[types.UntypedNil] {
		return V(zeroOf(ty), ty)
	}
	if x.t.S == SInt && sortOf(ty) == SReal {
		return V(App("real", SReal, x.t), ty)
	}
	if _, ok := ty.Underlying().(*types.Interface); ok && x.t.S == Sort("Deep") {
		return V(Box("val."+tagOfType(derefT(x.ty)), x.t), ty)
	}
	if _, ok := ty.Underlying().(*types.Interface); ok && x.t.S != SIface {
		boxType[tagOfType(x.ty)] = x.ty
		return V(Box(tagOfType(x.ty), x.t), ty)
	}
	return x
}

func (v *specEnv) bin(e *Expr) Val {
	switch e.s {
	case "&&":
		a := v.boolE(e.args[0])
		if a == False {
			return bv(False)
		}
		return bv(And(a, v.boolE(e.args[1])))
	case "||":
		a := v.boolE(e.args[0])
		if a == True {
			return bv(True)
		}
		return bv(Or(a, v.boolE(e.args[1])))
	case "==>":
		a := v.boolE(e.args[0])
		if a == False {
			return bv(True)
		}
		return bv(Implies(a, v.boolE(e.args[1])))
	case "<==>":
		return bv(Iff(v.boolE(e.args[0]), v.boolE(e.args[1])))
	case "in":
		k := v.eval(e.args[0])
		m := v.eval(e.args[1])
		switch u := m.ty.Underlying().(type) {
		case *types.Map:
			if m.t == Int(0) {
				return bv(False)
			}
			return bv(Select(v.st.mapDom(m.t, m.ty), v.coerce(k, u.Key()).t))
		case *SetType:
			return bv(Select(m.t, v.coerce(k, u.elem).t))
		case *types.Slice:
			i := BVar("i", SInt)
			// i is the place in the backing array, so that the element itself is a trigger
			el := Select(v.st.row(u.Elem(), m.t), i)
			return bv(Exists([]*Term{i}, And(Le(SOff(m.t), i), Lt(i, Add(SOff(m.t), SLen(m.t))), Eq(el, v.coerce(k, u.Elem()).t))))
		}
		v.fail("in on %s", m.ty)
	}
	a, b := v.eval(e.args[0]), v.eval(e.args[1])
	if a.t == nil && b.t == nil {
		return bv(True)
	}
	if a.t == nil {
		a, b = b, a
	}
	if b.t == nil { // nil comparison
		var r *Term
		switch {
		case a.t.S == SSlice:
			r = Eq(SArr(a.t), Int(0))
		case a.t.S == SIface:
			r = Eq(a.t, NilI)
		default:
			r = Eq(a.t, Int(0))
		}
		if e.s == "!=" {
			r = Not(r)
		}
		return bv(r)
	}
	if a.t.S == SReal || b.t.S == SReal {
		a, b = v.coerce(a, types.Typ[types.Float64]), v.coerce(b, types.Typ[types.Float64])
	}
	switch e.s {
	case "==", "!=":
		if a.t.S != b.t.S {
			if a.t.S == SIface {
				b = v.coerce(b, a.ty)
			} else if b.t.S == SIface {
				a = v.coerce(a, b.ty)
			} else {
				v.fail("comparison of %s and %s", a.t.S, b.t.S)
			}
		}
		r := Eq(a.t, b.t)
		if e.s == "!=" {
			r = Not(r)
		}
		return bv(r)
	case "<":
		if a.t.S == SStr {
			return bv(SLt(a.t, b.t))
		}
		return bv(Lt(a.t, b.t))
	case "<=":
		if a.t.S == SStr {
			return bv(Not(SLt(b.t, a.t)))
		}
		return bv(Le(a.t, b.t))
	case ">":
		if a.t.S == SStr {
			return bv(SLt(b.t, a.t))
		}
		return bv(Lt(b.t, a.t))
	case ">=":
		if a.t.S == SStr {
			return bv(Not(SLt(a.t, b.t)))
		}
		return bv(Le(b.t, a.t))
	case "+":
		if a.t.S == SStr {
			return V(Cat(a.t, b.t), a.ty)
		}
		return V(Add(a.t, b.t), a.ty)
	case "-":
		return V(Sub(a.t, b.t), a.ty)
	case "*":
		if a.t.S == SReal {
			return V(App("*", SReal, a.t, b.t), a.ty)
		}
		return V(Mul(a.t, b.t), a.ty)
	case "/":
		if a.t.S == SReal {
			return V(App("/", SReal, a.t, b.t), a.ty)
		}
		return V(GoDiv(a.t, b.t), a.ty)
	case "%":
		return V(Sub(a.t, Mul(b.t, GoDiv(a.t, b.t))), a.ty)
	}
	v.fail("operator %s", e.s)
	return Val{}
}

func (v *specEnv) call(e *Expr) Val {
	ex := v.ex
	args := e.args
	switch e.s {
	case "is":
		ty := ex.eng.typeOf(e.ty)
		if _, ok := ty.Underlying().(*types.Interface); ok {
			x := v.eval(args[0]).t
			return bv(And(Ne(x, NilI), App("implements."+tagOfType(ty), SBool, ITag(x))))
		}
		return bv(Eq(ITag(v.eval(args[0]).t), TagOf(tagOfType(ty))))
	case "as":
		ty := ex.eng.typeOf(e.ty)
		if types.IsInterface(ty) {
			return V(v.eval(args[0]).t, ty)
		}
		return V(Unbox(tagOfType(ty), sortOf(ty), v.eval(args[0]).t), ty)
	case "zero":
		ty := ex.eng.typeOf(e.ty)
		return V(zeroOf(ty), ty)
	case "lastrecv":
		// lastrecv(T): the value of this type which was received last
		ty := ex.eng.typeOf(e.ty)
		return V(v.st.sel(v.st.get(lastRecvKey(ty)), Int(0)), ty)
	case "waited":
		// every goroutine started here has been waited for
		return bv(Eq(v.st.get(spawnKey), v.old.get(spawnKey)))
	}
	if len(args) > 0 {
		args = args[1:]
	}
	if m := ex.eng.spec.macros[e.s]; m != nil && e.s != "" {
		if len(m.params) != len(args) {
			v.fail("macro %s: %d arguments", e.s, len(args))
		}
		n := *v
		n.vars = map[string]Val{}
		for k, y := range v.vars {
			n.vars[k] = y
		}
		for i, p := range m.params {
			n.vars[p] = v.eval(args[i])
		}
		n.depth++
		if n.depth > 60 {
			v.fail("macro recursion")
		}
		return n.eval(m.body)
	}
	if d := ex.eng.spec.decls[e.s]; d != nil && e.s != "" {
		var ts []*Term
		for i, a := range args {
			x := v.eval(a)
			ty := ex.eng.typeOf(d.args[i])
			ts = append(ts, v.specArg(v.coerce(x, ty)))
		}
		ty := ex.eng.typeOf(d.res)
		return V(App("spec."+e.s, specSort(ty), ts...), ty)
	}
	switch e.s {
	case "old":
		n := *v
		n.st = v.old
		return n.eval(args[0])
	case "len":
		x := v.eval(args[0])
		switch u := x.ty.Underlying().(type) {
		case *types.Map:
			if x.t.hasBV {
				return V(card(v.st.mapDom(x.t, x.ty)), intT)
			}
			return V(v.st.card(v.st.mapDom(x.t, x.ty)), intT)
		case *types.Slice:
			return V(SLen(x.t), intT)
		case *types.Array:
			return V(Int(u.Len()), intT)
		}
		return V(StrLen(x.t), intT)
	case "string", "bytes":
		x := v.eval(args[0])
		if isByteSlice(x.ty) {
			if x.t.hasBV {
				// no side facts inside quantifiers
				row := v.st.sel(v.st.get(kElem(types.Typ[types.Uint8])), SArr(x.t))
				return V(App("bsub", SStr, row, SOff(x.t), SLen(x.t)), stringT)
			}
			return V(v.st.bytesOf(x.t), stringT)
		}
		return V(x.t, stringT)
	case "fresh":
		x := v.eval(args[0])
		t := x.t
		if t.S == SSlice {
			t = SArr(t)
		}
		if t.S == SIface {
			// the object inside is new
			r := ibox(t)
			return bv(And(Ne(t, NilI), Ge(r, v.old.alloc), Lt(r, v.st.alloc)))
		}
		return bv(And(Ge(t, v.old.alloc), Lt(t, v.st.alloc)))
	case "held", "wheld", "rheld", "unheld":
		a, _ := v.addr(args[0])
		cur := Select(v.st.get(lockKey), a)
		switch e.s {
		case "wheld":
			return bv(Eq(cur, Int(1)))
		case "rheld":
			return bv(Eq(cur, Int(2)))
		case "unheld":
			return bv(Eq(cur, Int(0)))
		}
		return bv(Ne(cur, Int(0)))
	case "errIs":
		return bv(App("errIs", SBool, v.eval(args[0]).t, v.eval(args[1]).t))
	case "ite":
		c := v.boolE(args[0])
		a, b := v.eval(args[1]), v.eval(args[2])
		if a.t == nil {
			a = v.coerce(a, b.ty)
		}
		if b.t == nil {
			b = v.coerce(b, a.ty)
		}
		return V(Ite(c, a.t, b.t), a.ty)
	case "implements":
		v.fail("implements")
	case "addr":
		a, ty := v.addr(args[0])
		return V(a, types.NewPointer(ty))
	case "ghost":
		// ghost(name, x)
		g, ok := ex.eng.spec.ghosts[args[0].s]
		if !ok {
			v.fail("unknown ghost %s", args[0].s)
		}
		var r *Term
		if len(args) > 1 {
			a, _ := v.addr(args[1])
			if a.S == SIface {
				a = ibox(a)
			}
			r = a
		} else {
			r = Int(0)
		}
		ty := ex.eng.typeOf(g.ty)
		return V(v.st.sel(v.st.get(kGhost(g.name, sortOf(ty))), r), ty)
	case "int":
		x := v.eval(args[0])
		if x.t.S == SReal {
			return V(App("trunc", SInt, x.t), intT)
		}
		return V(x.t, intT)
	case "real":
		return V(App("real", SReal, v.eval(args[0]).t), types.Typ[types.Float64])
	case "iface":
		x := v.eval(args[0])
		return v.coerce(x, types.NewInterfaceType(nil, nil))
	case "res0", "res1", "res2":
		i := int(e.s[3] - '0')
		return v.pureCall(args[0], i)
	case "seq":
		x := v.eval(args[0])
		sl := x.ty.Underlying().(*types.Slice)
		return V(mkseq(v.st.row(sl.Elem(), x.t), SOff(x.t), SLen(x.t)), types.NewInterfaceType(nil, nil))
	case "upd":
		a, i, x := v.eval(args[0]), v.eval(args[1]), v.eval(args[2])
		if u, ok := a.ty.(*SetType); ok {
			return V(Store(a.t, v.coerce(i, u.elem).t, x.t), a.ty)
		}
		x = v.coerce(x, a.ty.Underlying().(*types.Array).Elem())
		return V(Store(a.t, i.t, x.t), a.ty)
	case "count":
		// count(m, v): number of entries of the map with value v
		m := v.eval(args[0])
		x := v.coerce(v.eval(args[1]), m.ty.Underlying().(*types.Map).Elem())
		return V(countval(v.st.mapDom(m.t, m.ty), v.st.mapVal(m.t, m.ty), x.t), intT)
	case "sub":
		// sub(s, offset, length)
		x, o, l := v.eval(args[0]), v.eval(args[1]), v.eval(args[2])
		if x.t.hasBV || o.t.hasBV || l.t.hasBV {
			return V(App("bsub", SStr, x.t, o.t, l.t), stringT)
		}
		return V(v.st.bsub(x.t, o.t, l.t), stringT)
	case "disjoint":
		x, y := v.eval(args[0]), v.eval(args[1])
		return bv(Or(Ne(SArr(x.t), SArr(y.t)), Eq(SLen(x.t), Int(0)), Eq(SLen(y.t), Int(0))))
	case "permutation":
		// permutation(r, s): only to be assumed
		r, q := v.eval(args[0]), v.eval(args[1])
		et := r.ty.Underlying().(*types.Slice).Elem()
		a, b := v.st.row(et, r.t), v.st.row(et, q.t)
		pi, inv := Fresh("perm", ArrS(SInt, SInt)), Fresh("perminv", ArrS(SInt, SInt))
		in := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, SLen(r.t))) }
		i := BVar("i", SInt)
		ai := App("select", sortOf(et), a, Add(SOff(r.t), i))
		p := App("select", SInt, pi, i)
		bi := App("select", sortOf(et), b, Add(SOff(q.t), i))
		w := App("select", SInt, inv, i)
		return bv(And(Eq(SLen(r.t), SLen(q.t)),
			Forall([]*Term{i}, [][]*Term{{ai}}, Implies(in(i), And(in(p), Eq(ai, App("select", sortOf(et), b, Add(SOff(q.t), p))), Eq(App("select", SInt, inv, p), i)))),
			Forall([]*Term{i}, [][]*Term{{bi}}, Implies(in(i), And(in(w), Eq(bi, App("select", sortOf(et), a, Add(SOff(r.t), w))), Eq(App("select", SInt, pi, w), i))))))
	case "sortedat":
		// sortedat(s, i): the i-th string of s in sorted order
		x := v.eval(args[0])
		q := mkseq(v.st.row(stringT, x.t), SOff(x.t), SLen(x.t))
		return V(App("seqat", SStr, App("sortseq", q.S, q), v.eval(args[1]).t), stringT)
	case "joinsorted", "joined":
		x := v.eval(args[0])
		q := mkseq(v.st.row(stringT, x.t), SOff(x.t), SLen(x.t))
		if e.s == "joinsorted" {
			q = App("sortseq", q.S, q)
		}
		return V(App("strjoin", SStr, q, v.eval(args[1]).t), stringT)
	case "chansent":
		return V(v.st.sel(v.st.get(kGhost("chan.sent", SInt)), v.eval(args[0]).t), intT)
	case "chanclosed":
		return bv(v.st.sel(v.st.get(kGhost("chan.closed", SBool)), v.eval(args[0]).t))
	case "chanlast":
		x := v.eval(args[0])
		et := x.ty.Underlying().(*types.Chan).Elem()
		lk := regKey("H|chan.last."+tagOfType(et), ArrS(SInt, sortOf(et)))
		return V(v.st.sel(v.st.get(lk), x.t), et)
	case "smhas", "smval":
		// the entries of a sync.Map
		m, k := v.eval(args[0]), v.coerce(v.eval(args[1]), types.NewInterfaceType(nil, nil))
		kd, kv := smKeys()
		if e.s == "smhas" {
			return bv(Select(v.st.sel(v.st.get(kd), m.t), k.t))
		}
		return V(Select(v.st.sel(v.st.get(kv), m.t), k.t), types.NewInterfaceType(nil, nil))
	case "jsonok", "jsonenc", "protook", "protoenc", "jsonindentok", "jsonindentenc":
		// the encoding of a value
		t := v.coerce(v.eval(args[0]), types.NewInterfaceType(nil, nil)).t
		if nm := strings.TrimSuffix(e.s, "ok"); nm != e.s {
			return bv(App(nm+".ok", SBool, ex.pureIface(v.st, t)))
		}
		return V(App(strings.TrimSuffix(e.s, "enc")+".enc", SStr, ex.pureIface(v.st, t)), stringT)
	case "jsondec", "protodec":
		// jsondec(T, field, data): the field of the T which the data decodes to
		ty := ex.eng.typeOf(e.ty)
		stt := ty.Underlying().(*types.Struct)
		if len(e.args) != 2 {
			v.fail("jsondec(T, field, data)")
		}
		d := v.eval(e.args[1])
		if d.t.S == SSlice {
			d.t = v.st.bytesOf(d.t)
		}
		if e.args[0].s == "ok" {
			return bv(App(strings.TrimSuffix(e.s, "dec")+".dec."+tagOfType(ty)+".ok", SBool, d.t))
		}
		for i := 0; i < stt.NumFields(); i++ {
			if fieldName(stt, i) == e.args[0].s {
				ft := stt.Field(i).Type()
				nm := strings.TrimSuffix(e.s, "dec") + ".dec." + tagOfType(ty) + "." + fieldName(stt, i)
				if isByteSlice(ft) {
					return V(App(nm, SStr, d.t), stringT)
				}
				if sl, ok := ft.Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Basic); !ok {
						v.fail("%s of %s", e.s, ft)
					}
					return V(mkseq(App(nm, elemRowSort(sl.Elem()), d.t), Int(0), App(nm+".len", SInt, d.t)), types.NewInterfaceType(nil, nil))
				}
				return V(App(nm, sortOf(ft), d.t), ft)
			}
		}
		v.fail("jsondec: no field %s", e.args[0].s)
	case "struct":
		// struct(T, fields...): the value of the struct type with these contents
		ty := ex.eng.typeOf(e.ty)
		stt := ty.Underlying().(*types.Struct)
		if stt.NumFields() != len(e.args) {
			v.fail("struct: %d fields", stt.NumFields())
		}
		var as []*Term
		for i, a := range e.args {
			as = append(as, v.coerce(v.eval(a), stt.Field(i).Type()).t)
		}
		return V(Mk(sortOf(ty), as...), ty)
	case "mk":
		// mk(T, fields...): a pointer to a T with these contents, as seen by pure functions
		ty := ex.eng.typeOf(e.ty)
		stt := ty.Underlying().(*types.Struct)
		args := e.args
		if stt.NumFields() != len(args) {
			v.fail("mk: %d fields", stt.NumFields())
		}
		var as []*Term
		for i, a := range args {
			x := v.eval(a)
			if x.t == nil || !isByteSlice(stt.Field(i).Type()) {
				x = v.coerce(x, stt.Field(i).Type())
			}
			as = append(as, v.specArg(x))
		}
		return V(App("deep."+tagOfType(ty), Sort("Deep"), as...), types.NewPointer(ty))
	case "deep":
		x := v.eval(args[0])
		st := v.st
		if p, ok := x.ty.Underlying().(*types.Pointer); ok {
			return V(st.deepVal(x.t, p.Elem()), types.NewInterfaceType(nil, nil))
		}
		return V(st.deepStruct(x.t, x.ty), types.NewInterfaceType(nil, nil))
	case "val":
		// content of an interface or pointer as seen by pure functions
		x := v.eval(args[0])
		t := x.t
		if t.S != SIface {
			boxType[tagOfType(x.ty)] = x.ty
			t = Box(tagOfType(x.ty), t)
		}
		return V(ex.pureIface(v.st, t), types.NewInterfaceType(nil, nil))
	case "cardrow", "min", "max":
		if e.s != "cardrow" {
			a, b := v.eval(args[0]), v.eval(args[1])
			c := Le(a.t, b.t)
			if e.s == "max" {
				c = Ge(a.t, b.t)
			}
			return V(Ite(c, a.t, b.t), a.ty)
		}
	}
	return v.pureCall(e, 0)
}

func specSort(ty types.Type) Sort {
	if isByteSlice(ty) {
		return SStr
	}
	return sortOf(ty)
}

// specArg: byte slices are passed to spec functions by content, other slices as sequences
func (v *specEnv) specArg(x Val) *Term {
	if x.t != nil && x.t.S == SSlice && x.ty != nil {
		if isByteSlice(x.ty) {
			if x.t.hasBV {
				return v.pureArg(x)[0]
			}
			return v.st.bytesOf(x.t)
		}
		sl := x.ty.Underlying().(*types.Slice)
		return mkseq(v.st.row(sl.Elem(), x.t), SOff(x.t), SLen(x.t))
	}
	return x.t
}

// pureCall: application of a function with a pure contract
func (v *specEnv) pureCall(e *Expr, idx int) Val {
	ex := v.ex
	if e.op != "call" {
		v.fail("not a call: %s", e)
	}
	if m := ex.eng.spec.macros[e.s]; m != nil && e.s != "" {
		n := *v
		n.vars = map[string]Val{}
		for k, y := range v.vars {
			n.vars[k] = y
		}
		for i, p := range m.params {
			n.vars[p] = v.eval(e.args[i+1])
		}
		return n.pureCall(m.body, idx)
	}
	f := e.args[0]
	var name string
	var args []Val
	var sig *types.Signature
	switch {
	case f.op == "sel" && f.args[0].op == "ident" && v.isPkg(f.args[0].s):
		p := ex.eng.pkgByName(f.args[0].s)
		o := p.Scope().Lookup(f.s)
		if o == nil {
			v.fail("unknown function %s.%s", p.Name(), f.s)
		}
		if tn, ok := o.(*types.TypeName); ok { // conversion
			x := v.eval(e.args[1])
			return V(v.coerce(x, tn.Type()).t, tn.Type())
		}
		name = shortPkg(p.Path()) + "." + f.s
		sig, _ = o.Type().(*types.Signature)
	case f.op == "sel":
		x := v.eval(f.args[0])
		obj, _, _ := types.LookupFieldOrMethod(x.ty, true, pkgOfType(x.ty), f.s)
		fn, ok := obj.(*types.Func)
		if !ok {
			v.fail("no method %s", f.s)
		}
		sig = fn.Type().(*types.Signature)
		name = typePath(derefT(sig.Recv().Type())) + "." + f.s
		if ex.eng.contracts[name] == nil {
			name = typePath(derefT(x.ty)) + "." + f.s
		}
		if _, ok := sig.Recv().Type().Underlying().(*types.Struct); ok {
			if p, ok := x.ty.Underlying().(*types.Pointer); ok {
				x = V(v.st.load(x, p.Elem()), p.Elem())
			}
		}
		args = append(args, x)
	default:
		v.fail("unknown function %s", e.s)
	}
	ct := ex.eng.contracts[name]
	if ct == nil || !ct.Pure {
		v.fail("%s has no pure contract", name)
	}
	if sig == nil {
		v.fail("%s has no signature", name)
	}
	off := 0
	if len(args) == 1 {
		off = 1
	}
	for i, a := range e.args[1:] {
		x := v.eval(a)
		if i < sig.Params().Len() {
			pt := sig.Params().At(i).Type()
			if x.t == nil {
				x = v.coerce(x, pt)
			} else if _, isI := pt.Underlying().(*types.Interface); isI {
				x = v.coerce(x, pt)
			}
		}
		args = append(args, x)
	}
	_ = off
	var as []*Term
	for _, a := range args {
		as = append(as, v.pureArg(a)...)
	}
	base := "pure." + sanitize(ct.Name)
	if ct.PureName != "" {
		base = ct.PureName
	}
	if sig.Results().Len() > 1 {
		base = fmt.Sprintf("%s.%d", base, idx)
	}
	rt := sig.Results().At(idx).Type()
	s := sortOf(rt)
	if isByteSlice(rt) {
		return V(App(base, SStr, as...), stringT)
	}
	return V(App(base, s, as...), rt)
}

// pureArg: like Exec.pureArg; byte strings given as strings are accepted
func (v *specEnv) pureArg(a Val) []*Term {
	if a.t.hasBV {
		if isByteSlice(a.ty) {
			row := v.st.sel(v.st.get(kElem(types.Typ[types.Uint8])), SArr(a.t))
			return []*Term{App("bsub", SStr, row, SOff(a.t), SLen(a.t))}
		}
		if a.t.S == SIface && a.t.kind == 'f' && strings.HasPrefix(a.t.Op, "box.") {
			if bt := boxType[a.t.Op[4:]]; bt != nil && isByteSlice(bt) {
				b := V(a.t.Args[0], bt)
				return []*Term{Box("bytes", v.pureArg(b)[0])}
			}
		}
		if a.t.S != SSlice {
			return []*Term{a.t}
		}
	}
	return v.ex.pureArg(v.st, a)
}

func (v *specEnv) isPkg(n string) bool {
	if _, ok := v.vars[n]; ok {
		return false
	}
	return v.ex.eng.pkgByName(n) != nil
}
func pkgOfType(t types.Type) *types.Package {
	if n, ok := types.Unalias(derefT(t)).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// ---------- modifies targets ----------
func (v *specEnv) targets(e *Expr) []loc {
	ex := v.ex
	if m := ex.eng.spec.macros[e.s]; m != nil && (e.op == "ident" || e.op == "call") {
		if e.op == "ident" {
			return v.targets(m.body)
		}
	}
	switch e.op {
	case "ident":
		if e.s == "everything" {
			return []loc{{key: "*"}}
		}
		if e.s == "nothing" {
			return nil
		}
		if e.s == "anysyncmap" {
			kd, kv := smKeys()
			return []loc{{key: kd}, {key: kv}}
		}
	case "un":
		if e.s == "*" {
			x := v.eval(e.args[0])
			return structLocs(x.t, derefT(x.ty))
		}
	case "sel":
		if e.args[0].op == "ident" && v.isPkg(e.args[0].s) {
			p := ex.eng.pkgByName(e.args[0].s)
			g := ex.eng.global(p, e.s)
			if g == nil {
				v.fail("unknown global %s", e.s)
			}
			pv := ex.globalPtr(g)
			return []loc{{key: pv.pl.key, ty: derefT(g.Type())}}
		}
		x := v.eval(e.args[0])
		_, index, _ := types.LookupFieldOrMethod(x.ty, true, pkgOfType(x.ty), e.s)
		if len(index) == 0 {
			v.fail("no field %s", e.s)
		}
		cur, cty := x.t, derefT(x.ty)
		for j, i := range index {
			s := cty.Underlying().(*types.Struct)
			ft := s.Field(i).Type()
			if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
				cur, cty = subRef(cty, i, cur), ft
				if j == len(index)-1 {
					return structLocs(cur, ft)
				}
				continue
			}
			if j == len(index)-1 {
				return []loc{{key: kField(cty, i), ref: cur, ty: ft}}
			}
			cur = v.st.sel(v.st.get(kField(cty, i)), cur)
			cty = derefT(ft)
		}
	case "call":
		switch e.s {
		case "anyof":
			// anyof(pkg.T): every field of every T ; anyof(pkg.T.f): that field
			n := e.ty.name
			i := strings.LastIndexByte(n, '.')
			if strings.Count(n, ".") == 2 {
				ty := ex.eng.typeOf(&TypeX{kind: "named", name: n[:i]})
				s := ty.Underlying().(*types.Struct)
				for j := 0; j < s.NumFields(); j++ {
					if s.Field(j).Name() == n[i+1:] {
						return []loc{{key: kField(ty, j)}}
					}
				}
				v.fail("anyof %s", n)
			}
			ty := ex.eng.typeOf(e.ty)
			s := ty.Underlying().(*types.Struct)
			var out []loc
			for j := 0; j < s.NumFields(); j++ {
				ft := s.Field(j).Type()
				if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
					continue
				}
				out = append(out, loc{key: kField(ty, j)})
			}
			return out
		case "anymap":
			ty := ex.eng.typeOf(e.ty)
			return []loc{{key: kMD(ty)}, {key: kMV(ty)}}
		case "anyelems":
			ty := ex.eng.typeOf(e.ty)
			return []loc{{key: kElem(ty)}}
		case "anycell":
			ty := ex.eng.typeOf(e.ty)
			return []loc{{key: kCell(ty)}}
		case "anyghost":
			g, ok := ex.eng.spec.ghosts[e.args[1].s]
			if !ok {
				v.fail("unknown ghost %s", e.args[1].s)
			}
			return []loc{{key: kGhost(g.name, sortOf(ex.eng.typeOf(g.ty)))}}
		case "ghost":
			g, ok := ex.eng.spec.ghosts[e.args[1].s]
			if !ok {
				v.fail("unknown ghost %s", e.args[1].s)
			}
			r := Int(0)
			if len(e.args) > 2 {
				r, _ = v.addr(e.args[2])
			}
			ty := ex.eng.typeOf(g.ty)
			return []loc{{key: kGhost(g.name, sortOf(ty)), ref: r, ty: ty}}
		case "elems":
			x := v.eval(e.args[1])
			if p, ok := x.ty.Underlying().(*types.Pointer); ok && typePath(p.Elem()) == "sync.Map" {
				kd, kv := smKeys()
				return []loc{{key: kd, ref: x.t}, {key: kv, ref: x.t}}
			}
			switch u := x.ty.Underlying().(type) {
			case *types.Map:
				return []loc{{key: kMD(x.ty), ref: x.t}, {key: kMV(x.ty), ref: x.t}}
			case *types.Slice:
				return []loc{{key: kElem(u.Elem()), ref: SArr(x.t)}}
			}
		case "chan":
			x := v.eval(e.args[1])
			et := x.ty.Underlying().(*types.Chan).Elem()
			lk := regKey("H|chan.last."+tagOfType(et), ArrS(SInt, sortOf(et)))
			return []loc{{key: kGhost("chan.closed", SBool), ref: x.t}, {key: kGhost("chan.sent", SInt), ref: x.t}, {key: kGhost("chan.recvd", SInt), ref: x.t}, {key: lk, ref: x.t}}
		case "sends":
			// values may be sent, but the channel is not closed
			x := v.eval(e.args[1])
			et := x.ty.Underlying().(*types.Chan).Elem()
			lk := regKey("H|chan.last."+tagOfType(et), ArrS(SInt, sortOf(et)))
			return []loc{{key: kGhost("chan.sent", SInt), ref: x.t}, {key: kGhost("chan.recvd", SInt), ref: x.t}, {key: lk, ref: x.t}}
		case "anychan":
			ty := ex.eng.typeOf(e.ty)
			_ = ty
		}
	}
	v.fail("bad modifies target %s", e)
	return nil
}

func structLocs(ref *Term, ty types.Type) []loc {
	if s, ok := isStruct(ty); ok {
		var out []loc
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, ok := isStruct(ft); ok || isOpaqueStruct(ft) {
				out = append(out, structLocs(subRef(ty, i, ref), ft)...)
				continue
			}
			out = append(out, loc{key: kField(ty, i), ref: ref, ty: ft})
		}
		return out
	}
	if at, ok := ty.Underlying().(*types.Array); ok {
		return []loc{{key: kElem(at.Elem()), ref: ref}}
	}
	return []loc{{key: kCell(ty), ref: ref, ty: ty}}
}

// chanParams: (v) or (c, v), the channel and the value
func chanParams(s string) []string {
	l := splitList(s)
	if len(l) == 1 {
		l = append([]string{"_"}, l...)
	}
	return l
}
