package p2p

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
)

func TestVerifReplayPeerStatus(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	done := make(chan struct{})
	step := "start"
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				bad("%s panics: %v", step, x)
			}
		}()
		for it := 0; it < 20000; it++ {
			var in []peer.ID
			for i := r.Intn(6); i > 0; i-- {
				in = append(in, peer.ID("p"+strconv.Itoa(r.Intn(6))))
			}
			me := peer.ID("p" + strconv.Itoa(r.Intn(6)))
			leader := []string{"NONE", "L", ""}[r.Intn(3)]
			th := r.Intn(5) - 1
			step = fmt.Sprintf("NewPeerStatus(%q,%q,%q,%d)", in, me, leader, th)
			ps := NewPeerStatus(in, me, leader, th)
			on := map[peer.ID]bool{}
			for _, p := range in {
				if p != me {
					on[p] = false
				}
			}
			cnt := 0
			hist := step
			for k := 0; k < 12; k++ {
				p := peer.ID("p" + strconv.Itoa(r.Intn(7)))
				step = hist + fmt.Sprintf(" updatePeer(%q)", p)
				hist = step
				got, err := ps.updatePeer(p)
				v, ok := on[p]
				want, wantErr := false, !ok
				if ok && leader == "NONE" {
					want = !v
					on[p] = true
				} else if ok && cnt < th && !v {
					on[p] = true
					cnt++
					want = cnt >= th
				}
				if got != want || (err != nil) != wantErr {
					bad("%s = %v, %v; want %v, error %v", step, got, err, want, wantErr)
					return
				}
				o, f := ps.getPeersStatus()
				seen := map[peer.ID]bool{}
				for i, x := range append(append([]peer.ID{}, o...), f...) {
					st, tracked := on[x]
					if seen[x] || !tracked || st != (i < len(o)) {
						bad("after %s: online %q offline %q; want %v", step, o, f, on)
						return
					}
					seen[x] = true
				}
				off := 0
				for _, v := range on {
					if !v {
						off++
					}
				}
				if len(seen) != len(on) || ps.getCoordinationStatus() != (off == 0) {
					bad("after %s: online %q offline %q complete %v; want %v", step, o, f, ps.getCoordinationStatus(), on)
					return
				}
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		bad("no return from %s", step)
	}
}
