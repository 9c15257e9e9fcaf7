package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---------- Go types -> sorts ----------

var opaquePkgs = map[string]bool{
	"github.com/rs/zerolog": true, "sync": true, "time": true, "bytes": true, "strings": true,
	"math/big": true, "bufio": true, "crypto/elliptic": true, "net/http": true, "context": true,
	"github.com/binance-chain/tss-lib/ecdsa/keygen": true, "github.com/binance-chain/tss-lib/ecdsa/signing": true,
	"go.uber.org/atomic": true, "os": true, "net/url": true, "crypto/tls": true,
	"github.com/prometheus/client_golang/prometheus": true, "google.golang.org/protobuf/internal/impl": true,
	"github.com/libp2p/go-libp2p": true, "sync/atomic": true, "google.golang.org/protobuf/runtime/protoimpl": true,
	"github.com/gorilla/mux": true, "internal/sync": true,
}

// transparent types of otherwise opaque packages
var transparentTypes = map[string]bool{}

func typePath(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		o := u.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			s = shortPkg(o.Pkg().Path()) + "." + s
		}
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, typePath(ta.At(i)))
			}
			s += "<" + strings.Join(as, ",") + ">"
		}
		return s
	case *types.Basic:
		return u.Name()
	case *types.Pointer:
		return "*" + typePath(u.Elem())
	case *types.Slice:
		return "[]" + typePath(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typePath(u.Elem()))
	case *types.Map:
		return "map<" + typePath(u.Key()) + "," + typePath(u.Elem()) + ">"
	case *types.Chan:
		return "chan<" + typePath(u.Elem()) + ">"
	case *types.Interface:
		if u.Empty() {
			return "any"
		}
		return "iface{" + fmt.Sprint(u.NumMethods()) + "}"
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i).Name()+":"+typePath(u.Field(i).Type()))
		}
		return "struct{" + strings.Join(fs, ";") + "}"
	case *types.Signature:
		return "func"
	case *types.Tuple:
		return "tuple"
	}
	return t.String()
}

// shortPkg keeps package identity readable: the repository's own packages by
// last element, everything else by last two path elements.
func shortPkg(p string) string {
	if strings.HasPrefix(p, repoModule) {
		return strings.TrimPrefix(strings.TrimPrefix(p, repoModule), "/")
	}
	return p
}

const repoModule = "gitlab.com/thorchain/tss/go-tss"

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}
func isByteArray(t types.Type) bool {
	s, ok := t.Underlying().(*types.Array)
	return ok && isByteT(s.Elem())
}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	return opaquePkgs[p.Path()] && !transparentTypes[p.Path()+"."+n.Obj().Name()]
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if isOpaqueStruct(t) {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

var opaqueSorts = map[Sort]bool{}
var sortBusy = map[string]bool{}

// SetType is the type of ghost sets: set[T]
type SetType struct{ elem types.Type }

func (s *SetType) Underlying() types.Type { return s }
func (s *SetType) String() string         { return "set[" + s.elem.String() + "]" }

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *SetType:
		return ArrS(sortOf(u.elem), SBool)
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
		return SInt
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		if isByteT(u.Elem()) {
			return SStr
		}
		return ArrS(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if isOpaqueStruct(t) {
			s := Sort("O." + sanitize(typePath(t)))
			opaqueSorts[s] = true
			return s
		}
		nm := Sort(sanitize("S." + typePath(t)))
		if _, ok := dts[nm]; ok {
			return nm
		}
		var fs []dtField
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, dtField{fieldName(u, i), sortOf(u.Field(i).Type())})
		}
		declDT(nm, fs)
		return nm
	case *types.Tuple:
		return SInt
	}
	panic("sortOf: " + t.String())
}
func fieldName(s *types.Struct, i int) string {
	n := s.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return n
}

func isRefT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *SetType:
		return ConstArr(sortOf(t), False)
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return False
		case SStr:
			return StrLit("")
		case SReal:
			return App("real", SReal, Int(0))
		}
		return Int(0)
	case *types.Slice:
		return NilSlice
	case *types.Interface:
		return NilI
	case *types.Array:
		if isByteT(u.Elem()) {
			return App("zeros", SStr, Int(u.Len()))
		}
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		if isOpaqueStruct(t) {
			return Const("zero."+string(sortOf(t)), sortOf(t))
		}
		s := sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return Mk(s, as...)
	}
	return Int(0)
}

func tagOfType(t types.Type) string { return sanitize(typePath(t)) }

// memory keys
func keyField(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return "F|" + typePath(st) + "|" + fieldName(s, i)
}
func keyElem(t types.Type) string { return "E|" + typePath(t) }
func keyCell(t types.Type) string { return "C|" + typePath(t) }
func keyMD(t types.Type) string   { return "MD|" + mapTypeName(t) }
func keyMV(t types.Type) string   { return "MV|" + mapTypeName(t) }
func mapTypeName(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "map<" + typePath(m.Key()) + "," + typePath(m.Elem()) + ">"
}

// keySort: sort of the memory array for a key (registered on first use)
var keySorts = map[string]Sort{}

func regKey(k string, s Sort) string {
	if o, ok := keySorts[k]; ok {
		if o != s {
			panic("key sort clash " + k + " " + string(o) + " vs " + string(s))
		}
		return k
	}
	keySorts[k] = s
	return k
}
func elemRowSort(t types.Type) Sort {
	if isByteT(t) {
		return SStr
	}
	return ArrS(SInt, sortOf(t))
}
func kElem(t types.Type) string {
	if isByteT(t) {
		return regKey("E|uint8", ArrS(SInt, SStr))
	}
	k := regKey(keyElem(t), ArrS(SInt, ArrS(SInt, sortOf(t))))
	keyGoType[k] = t
	return k
}
func kField(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	k := regKey(keyField(st, i), ArrS(SInt, sortOf(s.Field(i).Type())))
	keyGoType[k] = s.Field(i).Type()
	return k
}
func kCell(t types.Type) string {
	k := regKey(keyCell(t), ArrS(SInt, sortOf(t)))
	keyGoType[k] = t
	return k
}
func kMD(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return regKey(keyMD(t), ArrS(SInt, ArrS(sortOf(m.Key()), SBool)))
}
func kMV(t types.Type) string {
	m := t.Underlying().(*types.Map)
	k := regKey(keyMV(t), ArrS(SInt, ArrS(sortOf(m.Key()), sortOf(m.Elem()))))
	keyGoType[k] = m.Elem()
	return k
}
func kGhost(name string, s Sort) string { return regKey("H|"+name, ArrS(SInt, s)) }

// subRef: address of a by-value struct field nested in another object
func subRef(st types.Type, i int, ref *Term) *Term {
	s := st.Underlying().(*types.Struct)
	nm := "sub." + sanitize(typePath(st)) + "." + fieldName(s, i)
	subFuncs[nm] = true
	return App(nm, SInt, ref)
}

var subFuncs = map[string]bool{}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
