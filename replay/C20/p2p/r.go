package p2p

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
)

type vrParked struct {
	network.Stream
	n   int
	err error
	on  func()
}

func (s *vrParked) Reset() error {
	s.n++
	if s.on != nil {
		f := s.on
		s.on = nil
		f()
	}
	return s.err
}

func TestVerifReplayStreams(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	hist := ""
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				bad("%s panics: %v", hist, x)
			}
		}()
		for it := -1; it < 3000; it++ {
			sm := NewStreamMgr()
			if it == -1 {
				// a session with very many parked streams
				hist = " parking 70000 streams under one session and releasing it"
				var l []*vrParked
				for i := 0; i < 70000; i++ {
					l = append(l, &vrParked{})
					sm.AddStream("a", l[i])
				}
				sm.ReleaseStream("a")
				for i, s := range l {
					if s.n != 1 {
						bad("after%s: stream %d was reset %d times", hist, i, s.n)
						return
					}
				}
				continue
			}
			hist = ""
			ids := []string{"a", "b", "UNKNOWN", ""}
			parked := map[string][]*vrParked{}
			var all []*vrParked
			want := map[*vrParked]int{}
			for k := 0; k < 14; k++ {
				id := ids[r.Intn(len(ids))]
				if r.Intn(3) > 0 {
					s := &vrParked{}
					if r.Intn(3) == 0 {
						s.err = errors.New("reset failed")
					}
					if r.Intn(6) == 0 {
						// a stream is parked while the session is being released
						id2 := ids[r.Intn(len(ids))]
						s.on = func() {
							s2 := &vrParked{}
							hist += fmt.Sprintf(" (meanwhile park(%q))", id2)
							sm.AddStream(id2, s2)
							parked[id2] = append(parked[id2], s2)
							all = append(all, s2)
						}
					}
					hist += fmt.Sprintf(" park(%q)", id)
					sm.AddStream(id, s)
					parked[id] = append(parked[id], s)
					all = append(all, s)
				} else {
					hist += fmt.Sprintf(" release(%q)", id)
					rel := append([]*vrParked{}, parked[id]...)
					if id != "UNKNOWN" {
						rel = append(rel, parked["UNKNOWN"]...)
					}
					for _, s := range rel {
						want[s]++
					}
					delete(parked, id)
					delete(parked, "UNKNOWN")
					sm.ReleaseStream(id)
				}
				for i, s := range all {
					if s.n != want[s] {
						bad("after%s: stream %d was reset %d times, want %d", hist, i, s.n, want[s])
						return
					}
				}
				for _, x := range ids {
					if len(sm.unusedStreams[x]) != len(parked[x]) {
						bad("after%s: %d streams are parked under %q, want %d", hist, len(sm.unusedStreams[x]), x, len(parked[x]))
						return
					}
					for i, s := range sm.unusedStreams[x] {
						if s != network.Stream(parked[x][i]) {
							bad("after%s: stream %d parked under %q is another one", hist, i, x)
							return
						}
					}
				}
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		bad("no return after%s", hist)
	}
}
