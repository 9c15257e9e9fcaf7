package p2p

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/messages"
)

func TestVerifReplaySubscribers(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	hist := ""
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				bad("%s panics: %v", hist, x)
			}
		}()
		for it := 0; it < 3000; it++ {
			c, err := NewCommunication("rv", nil, 1000, "")
			if err != nil {
				return
			}
			hist = ""
			type pair struct {
				t messages.THORChainTSSMessageType
				m string
			}
			want := map[pair]chan *Message{}
			for k := 0; k < 14; k++ {
				p := pair{messages.THORChainTSSMessageType(r.Intn(3)), "m" + strconv.Itoa(r.Intn(3))}
				if r.Intn(2) == 0 {
					ch := make(chan *Message)
					hist += fmt.Sprintf(" subscribe(%d,%s)", p.t, p.m)
					c.SetSubscribe(p.t, p.m, ch)
					want[p] = ch
				} else {
					hist += fmt.Sprintf(" cancel(%d,%s)", p.t, p.m)
					c.CancelSubscribe(p.t, p.m)
					delete(want, p)
				}
				for a := 0; a < 4; a++ {
					for b := 0; b < 4; b++ {
						q := pair{messages.THORChainTSSMessageType(a), "m" + strconv.Itoa(b)}
						if c.getSubscriber(q.t, q.m) != want[q] {
							bad("after%s: the subscriber of (%d,%s) is not the last one subscribed", hist, q.t, q.m)
							return
						}
					}
				}
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		bad("no return after%s", hist)
	}
}
