package keysign

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

func vrStream(b []byte) *vStream {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return &vStream{in: append(h, b...)}
}

func TestVerifReplayRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	p2p.ApplyDeadline = false
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r0 := rand.New(rand.NewSource(int64(seed)))
	s := &SignatureNotifier{notifierLock: &sync.Mutex{}, notifiers: map[string]*Notifier{}, streamMgr: p2p.NewStreamMgr()}
	priv, pool := vKey(r0)
	msg := []byte("message")
	good := vSign(priv, msg)
	sess := func(r *rand.Rand) string { return []string{"a", "b", "c"}[r.Intn(3)] }
	vRaces(int64(seed), 400, map[string]vLock{"notifierLock": s.notifierLock}, []vOp{
		{"addToNotifiers, removeNotifier", func(r *rand.Rand) {
			n, err := NewNotifier(sess(r), [][]byte{msg}, pool)
			if err != nil {
				panic(err)
			}
			s.addToNotifiers(n)
			if r.Intn(2) == 0 {
				s.removeNotifier(n)
			}
		}},
		{"a notice", func(r *rand.Rand) {
			m := &messages.KeysignSignature{ID: sess(r), KeysignStatus: messages.KeysignSignature_Success}
			sig, _ := proto.Marshal(good)
			switch r.Intn(4) {
			case 0:
				sig = []byte("junk")
			case 1:
				m.KeysignStatus = messages.KeysignSignature_Failed
			case 2:
				m.Signatures = append(m.Signatures, sig)
			}
			m.Signatures = append(m.Signatures, sig)
			b, _ := proto.Marshal(m)
			s.handleStream(vrStream(b))
		}},
		{"junk", func(r *rand.Rand) { s.handleStream(vrStream([]byte("junk"))) }},
		{"WaitForSignature", func(r *rand.Rand) {
			s.WaitForSignature(sess(r), [][]byte{msg}, pool, time.Millisecond, make(chan string))
		}},
	})
}

// vOp: one operation on the shared structures; every operation makes its own private arguments
type vOp struct {
	name string
	f    func(r *rand.Rand)
}
type vLock interface {
	TryLock() bool
	Unlock()
}

// vRaces: first one operation at a time, after which every lock must be free; then all of them at once, under the
// race detector
func vRaces(seed int64, rounds int, locks map[string]vLock, ops []vOp) {
	wait := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
			fmt.Printf("REPLAY-FAIL: %s: does not end, a lock was not released\n", what)
			return false
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < rounds; i++ {
		op := ops[r.Intn(len(ops))]
		if !wait(op.name, func() { op.f(r) }) {
			return
		}
		for n, l := range locks {
			if !l.TryLock() {
				fmt.Printf("REPLAY-FAIL: after %s the lock %s is still held\n", op.name, n)
				return
			}
			l.Unlock()
		}
	}
	wait("operations on the shared structures at once", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed*100 + int64(g)))
				for i := 0; i < rounds; i++ {
					ops[r.Intn(len(ops))].f(r)
				}
			}(g)
		}
		wg.Wait()
	})
}
