package blame

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func TestVerifReplayBlame(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	defer func() {
		if x := recover(); x != nil {
			bad("the blame record panics: %v", x)
		}
	}()
	by := func() []byte {
		if r.Intn(4) == 0 {
			return nil
		}
		b := make([]byte, r.Intn(3))
		r.Read(b)
		for i := range b {
			b[i] %= 3
		}
		return b
	}
	node := func() Node {
		return NewNode("pk"+strconv.Itoa(r.Intn(3)), by(), by())
	}
	eq := func(a, b Node) bool { return a.Pubkey == b.Pubkey && bytes.Equal(a.BlameSignature, b.BlameSignature) }
	same := func(a, b Node) bool { return eq(a, b) && bytes.Equal(a.BlameData, b.BlameData) }
	for it := 0; it < 20000; it++ {
		pk, d, s := "k"+strconv.Itoa(r.Intn(3)), by(), by()
		if n := NewNode(pk, d, s); n.Pubkey != pk || !bytes.Equal(n.BlameData, d) || !bytes.Equal(n.BlameSignature, s) {
			bad("NewNode(%q,%v,%v) = %v", pk, d, s, n)
			return
		}
		a, c := node(), node()
		if a.Equal(c) != eq(a, c) {
			bad("(%v).Equal(%v) = %v", a, c, a.Equal(c))
			return
		}
		var init []Node
		for i := r.Intn(3); i > 0; i-- {
			init = append(init, node())
		}
		b := NewBlame("first", append([]Node{}, init...))
		if b.FailReason != "first" || len(b.BlameNodes) != len(init) {
			bad("NewBlame(first,%v) = %v", init, b)
			return
		}
		for k := 0; k < 4; k++ {
			before := append([]Node{}, b.BlameNodes...)
			var add []Node
			for i := r.Intn(5); i > 0; i-- {
				if len(before) > 0 && r.Intn(3) == 0 {
					add = append(add, before[r.Intn(len(before))])
				} else {
					add = append(add, node())
				}
			}
			if r.Intn(2) == 0 {
				reason, uni := "r"+strconv.Itoa(r.Intn(3)), r.Intn(2) == 0
				b.SetBlame(reason, add, uni)
				want := append(append([]Node{}, before...), add...)
				ok := b.FailReason == reason && b.IsUnicast == uni && len(b.BlameNodes) == len(want)
				for i := 0; ok && i < len(want); i++ {
					ok = same(b.BlameNodes[i], want[i])
				}
				if !ok {
					bad("SetBlame(%q,%v,%v) after %v gives %v", reason, add, uni, before, b)
					return
				}
			} else {
				fr, un := b.FailReason, b.IsUnicast
				b.AddBlameNodes(add...)
				got := b.BlameNodes
				ok := len(got) >= len(before) && b.FailReason == fr && b.IsUnicast == un
				for i := 0; ok && i < len(before); i++ {
					ok = same(got[i], before[i])
				}
				for i := len(before); ok && i < len(got); i++ {
					in := false
					for _, x := range add {
						in = in || same(x, got[i])
					}
					ok = in
					for j := 0; j < i; j++ {
						ok = ok && !eq(got[i], got[j])
					}
				}
				for _, x := range add {
					in := false
					for _, y := range got {
						in = in || eq(x, y)
					}
					ok = ok && in
				}
				if !ok {
					bad("AddBlameNodes(%v) after %v gives %v", add, before, got)
					return
				}
			}
			if b.AlreadyBlame() != (len(b.BlameNodes) > 0) {
				bad("AlreadyBlame() = %v with %d nodes", b.AlreadyBlame(), len(b.BlameNodes))
				return
			}
		}
	}
}
