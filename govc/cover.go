package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// uncovered: every function of the repository which touches a guarded field or takes a lock must have been checked
// for the property of the guards, by its own contract or inside a caller
func (e *Engine) uncovered(prop string, done map[string]*FnResult) []string {
	any := false
	for _, g := range e.guards {
		for _, t := range g.Tags {
			any = any || t == prop
		}
	}
	if !any {
		return nil
	}
	ok := map[string]bool{}
	for n := range done {
		ct := e.contracts[n]
		for _, t := range ct.LockTags {
			if t == prop {
				ok[n] = true
				for i := range e.inlined[n] {
					ok[i] = true
				}
			}
		}
	}
	var out []string
	for n, fn := range e.fns {
		if ok[n] {
			continue
		}
		what := ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if _, local := x.X.(*ssa.Alloc); local {
						continue
					}
					if g := e.guards[kField(derefT(x.X.Type()), x.Field)]; g != nil && !g.none {
						what = "reaches " + strings.TrimPrefix(g.Field, "F|")
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && (f.Name() == "Lock" || f.Name() == "RLock") {
						what = "takes a lock"
					}
				}
			}
		}
		if what != "" {
			out = append(out, n+" ("+e.pos(fn.Pos())+"): "+what+", and no contract checks its locking")
		}
	}
	sort.Strings(out)
	return out
}
