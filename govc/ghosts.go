package main

import "go/types"

// initGhosts gives the ghost state of a zero value its initial contents
func initGhosts(st *State, ref *Term, ty types.Type) {
	for _, g := range theEngine.ghostsOf(typePath(ty)) {
		gt := theEngine.typeOf(g.ty)
		k := kGhost(g.name, sortOf(gt))
		st.set(k, Store(st.get(k), ref, zeroOf(gt)))
	}
}
