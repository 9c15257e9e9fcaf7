package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

type externFn func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont)

var builtinExterns map[string]externFn

func one(k cont, st *State, fr *Frame, t *Term, ty types.Type) { k(st, fr, []Val{V(t, ty)}) }

func (ex *Exec) errFresh(st *State, hint string) *Term {
	e := Fresh(hint, SIface)
	st.assume(Ne(e, NilI))
	st.assume(Gt(ITag(e), Int(0)))
	st.assume(Lt(App("eid", SInt, e), Int(0)))
	return e
}

func nop(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
	k(st, fr, ex.freshResults(st, results, "r"))
}

func lockFn(op string) externFn {
	return func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		ex.nonNil(st, args[0], "lock", pos)
		ex.lockOp(st, ex.termOf(st, args[0]), op, pos)
		k(st, fr, nil)
	}
}

// sliceArgs: the elements of a slice of literal length
func (st *State) sliceElems(t *Term, et types.Type) ([]*Term, bool) {
	l := SLen(t)
	if l.kind != 'i' {
		return nil, false
	}
	var out []*Term
	row := st.row(et, t)
	for i := int64(0); i < l.big.Int64(); i++ {
		out = append(out, Select(row, Add(SOff(t), Int(i))))
	}
	return out, true
}

var anyT = types.NewInterfaceType(nil, nil)

// sprintf: literal formats are expanded
func (ex *Exec) sprintf(st *State, f *Term, args *Term) (*Term, int) {
	wIdx := -1
	elems, ok := st.sliceElems(args, anyT)
	if args == NilSlice {
		elems, ok = nil, true
	}
	if !isStrLit(f) || !ok {
		return Fresh("sprintf", SStr), -1
	}
	s := strLitVal[f]
	var parts []*Term
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			parts = append(parts, StrLit(string(s[i])))
			continue
		}
		i++
		v := "%"
		for i < len(s) && strings.ContainsRune("+-# 0123456789.", rune(s[i])) {
			v += string(s[i])
			i++
		}
		if i >= len(s) {
			break
		}
		v += string(s[i])
		if s[i] == '%' {
			parts = append(parts, StrLit("%"))
			continue
		}
		if ai >= len(elems) {
			parts = append(parts, StrLit("%!"+v))
			continue
		}
		a := elems[ai]
		if s[i] == 'w' {
			wIdx = ai
		}
		ai++
		parts = append(parts, ex.fmtArg(st, v, a))
	}
	return Cat(parts...), wIdx
}
func (ex *Exec) fmtArg(st *State, verb string, a *Term) *Term {
	if a.kind == 'f' && strings.HasPrefix(a.Op, "box.") {
		x := a.Args[0]
		bt := boxType[a.Op[4:]]
		if b, ok := bt.(*types.Basic); ok {
			switch {
			case b.Kind() == types.String && (verb == "%s" || verb == "%v"):
				return x
			case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
				return App("itoa", SStr, x)
			}
		}
		if isByteSlice(bt) && verb == "%s" {
			return st.bytesOf(x)
		}
		if isByteSlice(bt) && verb == "%x" {
			return App("hexenc", SStr, st.bytesOf(x))
		}
	}
	return App("fmtv."+sanitize(verb), SStr, ex.pureIface(st, a))
}

// wrapFacts: what errors.Is finds in an error made by fmt.Errorf
func (ex *Exec) wrapFacts(st *State, e *Term, wrapped *Term) {
	x := BVar("x", SIface)
	is := App("errIs", SBool, e, x)
	rhs := Eq(e, x)
	if wrapped != nil {
		rhs = Or(rhs, App("errIs", SBool, wrapped, x))
	}
	st.assume(Forall([]*Term{x}, [][]*Term{{is}}, Iff(is, rhs)))
}

func init() {
	ex := map[string]externFn{}
	builtinExterns = ex
	for _, t := range []string{"sync.Mutex", "sync.RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			ex[t+"."+op] = lockFn(op)
		}
	}
	for _, n := range []string{"sync.WaitGroup.Add", "sync.WaitGroup.Done"} {
		ex[n] = nop
	}
	ex["sync.WaitGroup.Wait"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		st.set(spawnKey, Store(st.get(spawnKey), ex.termOf(st, args[0]), False))
		ex.await(st)
		k(st, fr, nil)
	}
	ex["errors.New"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		e := ex.errFresh(st, "errnew")
		ex.wrapFacts(st, e, nil)
		st.assume(Eq(App("errtext", SStr, e), args[0].t))
		one(k, st, fr, e, results.At(0).Type())
	}
	ex["fmt.Errorf"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		e := ex.errFresh(st, "errorf")
		txt, w := ex.sprintf(st, args[0].t, args[1].t)
		var wr *Term
		if w >= 0 {
			es, _ := st.sliceElems(args[1].t, anyT)
			wr = es[w]
		}
		ex.wrapFacts(st, e, wr)
		st.assume(Eq(App("errtext", SStr, e), txt))
		one(k, st, fr, e, results.At(0).Type())
	}
	ex["errors.Is"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		one(k, st, fr, App("errIs", SBool, args[0].t, args[1].t), boolT)
	}
	x := BVar("x", SIface)
	y := BVar("y", SIface)
	extraAxioms["errIs"] = []*Term{
		Forall([]*Term{x}, [][]*Term{{App("errIs", SBool, x, x)}}, App("errIs", SBool, x, x)),
		Forall([]*Term{y}, [][]*Term{{App("errIs", SBool, NilI, y)}}, Iff(App("errIs", SBool, NilI, y), Eq(NilI, y))),
		Forall([]*Term{y}, [][]*Term{{App("errIs", SBool, y, NilI)}}, Iff(App("errIs", SBool, y, NilI), Eq(y, NilI))),
	}
	// sentinel errors are created by errors.New
	symAxiom["errIs"] = func(t *Term) []*Term { return nil }
	ex["fmt.Sprintf"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		t, _ := ex.sprintf(st, args[0].t, args[1].t)
		one(k, st, fr, t, stringT)
	}
	ex["fmt.Sprint"] = nop
	ex["sort.Strings"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		ex.sortRow(st, args[0].t, stringT, func(a, b *Term) *Term { return Not(SLt(b, a)) }, "sorted", pos)
		k(st, fr, nil)
	}
	ex["slices.Sort<[]string,string>"] = ex["sort.Strings"]
	sortAny := func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		t := args[0].t
		if t.kind == 'f' && strings.HasPrefix(t.Op, "box.") {
			bt := boxType[t.Op[4:]]
			if s, ok := bt.Underlying().(*types.Slice); ok && !isByteT(s.Elem()) {
				ex.sortRow(st, t.Args[0], s.Elem(), nil, "perm", pos)
				k(st, fr, nil)
				return
			}
		}
		unsup("sort of unknown slice at %s", ex.eng.pos(pos))
	}
	ex["sort.Slice"] = sortAny
	ex["sort.SliceStable"] = sortAny
	ex["sort.Sort"] = sortAny
	ex["strings.Join"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		s := args[0].t
		one(k, st, fr, App("strjoin", SStr, mkseq(st.row(stringT, s), SOff(s), SLen(s)), args[1].t), stringT)
	}
	// buffers and running digests: the text written so far
	bufKey := func() string { return kGhost("buf", SStr) }
	write := func(ex *Exec, st *State, args []Val, piece *Term) {
		b := ex.termOf(st, args[0])
		if b.S == SIface {
			b = ibox(b)
		}
		k := bufKey()
		st.set(k, Store(st.get(k), b, Cat(st.sel(st.get(k), b), piece)))
	}
	for _, t := range []string{"bytes.Buffer", "strings.Builder", "hash.Hash"} {
		ex[t+".Write"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			d := st.bytesOf(args[1].t)
			write(ex, st, args, d)
			k(st, fr, []Val{V(StrLen(d), intT), V(NilI, results.At(1).Type())})
		}
		ex[t+".WriteString"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			write(ex, st, args, args[1].t)
			k(st, fr, []Val{V(StrLen(args[1].t), intT), V(NilI, results.At(1).Type())})
		}
		ex[t+".String"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			one(k, st, fr, st.sel(st.get(bufKey()), ex.termOf(st, args[0])), stringT)
		}
		ex[t+".Reset"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			b := ex.termOf(st, args[0])
			if b.S == SIface {
				b = ibox(b)
			}
			st.set(bufKey(), Store(st.get(bufKey()), b, StrLit("")))
			k(st, fr, nil)
		}
		ex[t+".Len"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			one(k, st, fr, StrLen(st.sel(st.get(bufKey()), ex.termOf(st, args[0]))), intT)
		}
		ex[t+".Grow"] = nop
	}
	ex["bytes.Buffer.Bytes"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		one(k, st, fr, st.newBytes(st.sel(st.get(bufKey()), ex.termOf(st, args[0]))), results.At(0).Type())
	}
	ex["crypto/sha256.New"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		r := st.newRef()
		st.set(bufKey(), Store(st.get(bufKey()), r, StrLit("")))
		one(k, st, fr, Box("sha256digest", r), results.At(0).Type())
	}
	ex["hash.Hash.Sum"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		d := App("pure.crypto_sha256.Sum256", SStr, st.sel(st.get(bufKey()), ibox(args[0].t)))
		if args[0].t.Op != "box.sha256digest" {
			d = App("hashsum", SStr, args[0].t, st.sel(st.get(bufKey()), ibox(args[0].t)))
		}
		one(k, st, fr, st.newBytes(Cat(st.bytesOf(args[1].t), d)), results.At(0).Type())
	}
	symAxiom["strjoin"] = func(*Term) []*Term {
		r, o, l, p := BVar("r", ArrS(SInt, SStr)), BVar("o", SInt), BVar("l", SInt), BVar("p", SStr)
		j := App("strjoin", SStr, mkseq(r, o, l), p)
		return []*Term{
			Forall([]*Term{r, o, l, p}, [][]*Term{{j}}, Implies(Le(l, Int(0)), Eq(j, StrLit("")))),
			Forall([]*Term{r, o, l, p}, [][]*Term{{j}}, Implies(Eq(l, Int(1)), Eq(j, Select(r, o)))),
		}
	}
	symAxiom["bsub"] = func(*Term) []*Term {
		r, o, l := BVar("r", SStr), BVar("o", SInt), BVar("l", SInt)
		j := App("bsub", SStr, r, o, l)
		p, m := BVar("p", SInt), BVar("m", SInt)
		jj := App("bsub", SStr, j, p, m)
		return []*Term{
			Forall([]*Term{r, o, l}, [][]*Term{{j}}, And(Implies(And(Eq(o, Int(0)), Eq(l, StrLen(r))), Eq(j, r)),
				Implies(And(Ge(o, Int(0)), Ge(l, Int(0)), Le(Add(o, l), StrLen(r))), Eq(StrLen(j), l)))),
			Forall([]*Term{r, o, l, p, m}, [][]*Term{{jj}}, Implies(And(Ge(o, Int(0)), Ge(p, Int(0)), Ge(m, Int(0)), Le(Add(p, m), l), Le(Add(o, l), StrLen(r))),
				App("=", SBool, jj, App("bsub", SStr, r, Add(o, p), m)))),
		}
	}
	symAxiom["seqat"] = func(t *Term) []*Term {
		r, o, l, i := BVar("r", ArrS(SInt, SStr)), BVar("o", SInt), BVar("l", SInt), BVar("i", SInt)
		j := App("seqat", SStr, mkseq(r, o, l), i)
		return []*Term{Forall([]*Term{r, o, l, i}, [][]*Term{{j}}, Eq(j, Select(r, Add(o, i))))}
	}
	symAxiom["sortseq"] = func(t *Term) []*Term {
		// sequences with the same elements are the same sequence
		S := t.S
		r, q, o, p, l := BVar("r", ArrS(SInt, SStr)), BVar("q", ArrS(SInt, SStr)), BVar("o", SInt), BVar("p", SInt), BVar("l", SInt)
		a, b := mkseq(r, o, l), mkseq(q, p, l)
		d := App("seqdiff", SInt, a, b)
		return []*Term{Forall([]*Term{r, q, o, p, l}, [][]*Term{{App("sortseq", S, a), App("sortseq", S, b)}},
			Or(Eq(a, b), And(Le(Int(0), d), Lt(d, l), Ne(Select(r, Add(o, d)), Select(q, Add(p, d))))))}
	}
	ex["sync.Map.Store"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		m := ex.termOf(st, args[0])
		kd, kv := smKeys()
		d, v := st.sel(st.get(kd), m), st.sel(st.get(kv), m)
		st.set(kd, Store(st.get(kd), m, Store(d, args[1].t, True)))
		st.set(kv, Store(st.get(kv), m, Store(v, args[1].t, args[2].t)))
		k(st, fr, nil)
	}
	ex["sync.Map.Load"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		m := ex.termOf(st, args[0])
		kd, kv := smKeys()
		has := Select(st.sel(st.get(kd), m), args[1].t)
		v := Select(st.sel(st.get(kv), m), args[1].t)
		k(st, fr, []Val{V(Ite(has, v, NilI), results.At(0).Type()), V(has, boolT)})
	}
	ex["sync.Map.Delete"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		m := ex.termOf(st, args[0])
		kd, _ := smKeys()
		st.set(kd, Store(st.get(kd), m, Store(st.sel(st.get(kd), m), args[1].t, False)))
		k(st, fr, nil)
	}
	// Range: a loop over an enumeration of the keys at its start; a key which is gone
	// when its turn comes is skipped, a key added meanwhile is not visited
	ex["sync.Map.Range"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		m := ex.termOf(st, args[0])
		clo := args[1].clo
		if clo == nil && args[1].t != nil {
			clo = closByTerm[args[1].t]
		}
		if clo == nil || len(clo.fn.Blocks) == 0 {
			unsup("sync.Map.Range over an unknown function")
		}
		ex.used["sync.Map.Range visits the entries present at its start, each once, in any order"] = true
		kd, kv := smKeys()
		dom := st.sel(st.get(kd), m)
		st.get(kv)
		enumFacts(st, dom)
		anyT := types.NewInterfaceType(nil, nil)
		round := func(s *summary) func(st *State, fr *Frame, back, exit func(st *State, fr *Frame)) {
			return func(st *State, fr *Frame, back, exit func(st *State, fr *Frame)) {
				ex.branch(st, fr, Lt(s.n, card(dom)), func(st *State, fr *Frame) {
					key := mekey(dom, s.n)
					ex.branch(st, fr, Select(st.sel(st.get(kd), m), key), func(st *State, fr *Frame) {
						v := st.fix(Select(st.sel(st.get(kv), m), key), anyT)
						ex.callFn(st, fr, clo, []Val{V(st.fix(key, anyT), anyT), V(v, anyT)}, pos, func(st *State, fr *Frame, res []Val) {
							ex.branch(st, fr, res[0].t, back, exit)
						})
					}, back)
				}, exit)
			}
		}
		ex.repeat(st, fr, &loop{header: clo.fn.Blocks[0]}, round, func(st *State, fr *Frame) { k(st, fr, nil) })
	}
	ex["path/filepath.Join"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		es, ok := st.sliceElems(args[0].t, types.Typ[types.String])
		if !ok || len(es) == 0 {
			unsup("filepath.Join of an unknown list at %s", ex.eng.pos(pos))
		}
		t := es[0]
		for _, e := range es[1:] {
			t = App("spec.pathjoin", SStr, t, e)
		}
		one(k, st, fr, t, results.At(0).Type())
	}
	// encoders: the output is a function of the value; decoding gives values which
	// are functions of the input
	marshal := func(nm string) externFn {
		return func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			v := ex.pureIface(st, args[0].t)
			ok := App(strings.TrimSuffix(nm, "indent")+".ok", SBool, v)
			err := ex.freshVal(st, results.At(1).Type(), nm+".err").t
			st.assume(Iff(Eq(err, NilI), ok))
			s := st.clone()
			f := fr.clone()
			s.assume(Ne(err, NilI))
			if !s.dead && ex.eng.feasible(s) {
				k(s, f, []Val{V(NilSlice, results.At(0).Type()), V(err, results.At(1).Type())})
			}
			st.assume(Eq(err, NilI))
			if !st.dead {
				b := st.newBytes(App(nm+".enc", SStr, v))
				if nm == "proto" { // the encoding is limited to 2 GiB
					st.assume(Lt(SLen(b), Int(1<<31)))
				} else { // and one of 4 GiB is taken to be out of reach
					st.assume(Lt(SLen(b), Int(1<<32)))
				}
				k(st, fr, []Val{V(b, results.At(0).Type()), V(NilI, results.At(1).Type())})
			}
		}
	}
	ex["encoding/json.Marshal"] = marshal("json")
	ex["encoding/json.MarshalIndent"] = marshal("jsonindent")
	ex["github.com/golang/protobuf/proto.Marshal"] = marshal("proto")
	ex["google.golang.org/protobuf/proto.Marshal"] = marshal("proto")
	unmarshal := func(nm string) externFn {
		return func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
			data := st.bytesOf(args[0].t)
			p := args[1].t
			if !(p.kind == 'f' && strings.HasPrefix(p.Op, "box.")) {
				unsup("%s.Unmarshal into an unknown target at %s", nm, ex.eng.pos(pos))
			}
			bt := boxType[p.Op[4:]]
			pt, ok := bt.Underlying().(*types.Pointer)
			if !ok {
				unsup("%s.Unmarshal target %s", nm, bt)
			}
			tag := tagOfType(pt.Elem())
			good := App(nm+".dec."+tag+".ok", SBool, data)
			err := ex.freshVal(st, results.At(0).Type(), nm+".err").t
			st.assume(Iff(Eq(err, NilI), good))
			st.bumpAlloc()
			ref := p.Args[0]
			ex.decodeInto(st, nm+".dec."+tag, data, ref, pt.Elem())
			k(st, fr, []Val{V(err, results.At(0).Type())})
		}
	}
	// a decoder takes the first value of what it reads from
	ex["encoding/json.Decoder.Decode"] = func(ex *Exec, st *State, fr *Frame, args []Val, results *types.Tuple, pos token.Pos, k cont) {
		ex.used["encoding/json.Decoder.Decode: the decoded value is a function of the first value of the text read"] = true
		p := args[1].t
		if !(p.kind == 'f' && strings.HasPrefix(p.Op, "box.")) {
			unsup("Decode into an unknown target at %s", ex.eng.pos(pos))
		}
		pt, ok := boxType[p.Op[4:]].Underlying().(*types.Pointer)
		if !ok {
			unsup("Decode target %s", boxType[p.Op[4:]])
		}
		gk := kGhost("src", SStr)
		d := ex.termOf(st, args[0])
		src := st.sel(st.get(gk), d)
		data := App("spec.jsonfirst", SStr, src)
		st.set(gk, Store(st.get(gk), d, App("spec.jsonrest", SStr, src)))
		tag := tagOfType(pt.Elem())
		err := ex.freshVal(st, results.At(0).Type(), "json.err").t
		st.assume(Iff(Eq(err, NilI), App("json.dec."+tag+".ok", SBool, data)))
		st.bumpAlloc()
		ex.decodeInto(st, "json.dec."+tag, data, p.Args[0], pt.Elem())
		k(st, fr, []Val{V(err, results.At(0).Type())})
	}
	ex["encoding/json.Unmarshal"] = unmarshal("json")
	ex["github.com/golang/protobuf/proto.Unmarshal"] = unmarshal("proto")
	ex["google.golang.org/protobuf/proto.Unmarshal"] = unmarshal("proto")
}

// ibox: the object an interface value points to
func ibox(t *Term) *Term {
	if t.kind == 'f' && strings.HasPrefix(t.Op, "box.") && t.Args[0].S == SInt {
		return t.Args[0]
	}
	return App("iref", SInt, t)
}

func smKeys() (string, string) {
	return regKey("H|syncmap.dom", ArrS(SInt, ArrS(SIface, SBool))), regKey("H|syncmap.val", ArrS(SInt, ArrS(SIface, SIface)))
}

// decodeInto: every scalar and byte-string part is a function of the data; other
// references are unknown (possibly nil) new objects
func (ex *Exec) decodeInto(st *State, nm string, data, ref *Term, ty types.Type) {
	if s, ok := isStruct(ty); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if _, ok := isStruct(ft); ok {
				ex.decodeInto(st, nm+"."+s.Field(i).Name(), data, subRef(ty, i, ref), ft)
				continue
			}
			if isOpaqueStruct(ft) {
				continue
			}
			st.storeField(ref, ty, i, ex.decoded(st, nm+"."+fieldName(s, i), data, ft))
		}
		return
	}
	st.storePtr(ref, ty, ex.decoded(st, nm, data, ty))
}
func (ex *Exec) decoded(st *State, nm string, data *Term, ty types.Type) *Term {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return st.fix(App(nm, sortOf(ty), data), ty)
	case *types.Slice:
		if isByteT(u.Elem()) {
			t := Fresh("dec", SInt)
			_ = t
			return st.newBytes(App(nm, SStr, data))
		}
		l := App(nm+".len", SInt, data)
		st.assume(Ge(l, Int(0)))
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b != nil {
			row := App(nm, elemRowSort(u.Elem()), data)
			return st.newSlice(u.Elem(), row, l)
		}
		row := Fresh("decrow", elemRowSort(u.Elem()))
		envConst[row] = true
		envAlloc[row] = st.alloc
		return st.newSlice(u.Elem(), row, l)
	case *types.Pointer:
		t := Fresh("dec."+lastName(nm), SInt)
		st.assume(Ge(t, Int(0)))
		st.assume(Lt(t, st.alloc))
		if s, ok := isStruct(u.Elem()); ok && s != nil {
			nilq := App(nm+".nil", SBool, data)
			st.assume(Iff(Eq(t, Int(0)), nilq))
		}
		// a new object: distinct from everything that existed before
		return t
	}
	v := ex.freshVal(st, ty, "dec."+lastName(nm))
	return v.t
}

// sortRow sorts (or permutes) the elements of a slice in place
func (ex *Exec) sortRow(st *State, s *Term, et types.Type, le func(a, b *Term) *Term, kind string, pos token.Pos) {
	ex.derivedGuard(st, SArr(s), true, pos)
	kk := kElem(et)
	row := st.row(et, s)
	es := sortOf(et)
	off, l := SOff(s), SLen(s)
	var nrow, pi, inv *Term
	mk := func(n string, so Sort) *Term {
		return App(n+"."+sanitize(string(es)), so, row, off, l)
	}
	if le != nil {
		nrow, pi, inv = mk("sortrow", row.S), mk("sortpi", ArrS(SInt, SInt)), mk("sortinv", ArrS(SInt, SInt))
	} else {
		nrow, pi, inv = Fresh("permrow", row.S), Fresh("perm", ArrS(SInt, SInt)), Fresh("perminv", ArrS(SInt, SInt))
	}
	if l.kind == 'i' && l.big.Sign() == 0 {
		return
	}
	in := func(i *Term) *Term { return And(Le(off, i), Lt(i, Add(off, l))) }
	i := BVar("i", SInt)
	ni := App("select", es, nrow, i)
	p := App("select", SInt, pi, i)
	st.assume(Forall([]*Term{i}, [][]*Term{{ni}}, Implies(in(i), And(in(p), Eq(ni, Select(row, p)), Eq(App("select", SInt, inv, p), i)))))
	st.assume(Forall([]*Term{i}, [][]*Term{{ni}}, Implies(Not(in(i)), Eq(ni, Select(row, i)))))
	j := BVar("j", SInt)
	q := App("select", SInt, inv, j)
	st.assume(Forall([]*Term{j}, [][]*Term{{App("select", es, row, j)}}, Implies(in(j), And(in(q), Eq(App("select", es, nrow, q), Select(row, j)), Eq(App("select", SInt, pi, q), j)))))
	if le != nil {
		a, b := BVar("a", SInt), BVar("b", SInt)
		ra, rb := App("select", es, nrow, a), App("select", es, nrow, b)
		st.assume(Forall([]*Term{a, b}, [][]*Term{{ra, rb}}, Implies(And(Le(off, a), Le(a, b), Lt(b, Add(off, l))), le(ra, rb))))
	}
	if le != nil && es == SStr {
		q := mkseq(row, off, l)
		st.assume(Eq(mkseq(nrow, off, l), App("sortseq", q.S, q)))
	}
	st.set(kk, Store(st.get(kk), SArr(s), nrow))
	_ = fmt.Sprint
}
