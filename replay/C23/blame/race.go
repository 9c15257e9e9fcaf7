package blame

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/messages"
)

func TestVerifReplayRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	m := NewBlameManager()
	m.partyInfo = &PartyInfo{PartyMap: &sync.Map{}, PartyIDMap: map[string]*btss.PartyID{}}
	b := m.GetBlame()
	rm, sm := m.GetRoundMgr(), m.GetShareMgr()
	key := func(r *rand.Rand) string { return fmt.Sprintf("session-%d-%s", r.Intn(4), messages.KEYGEN1) }
	node := func(r *rand.Rand) Node { return NewNode(key(r), []byte("d"), nil) }
	vRaces(int64(seed), 2000, map[string]vLock{"blameLock": b.blameLock, "lastMsgLocker": m.lastMsgLocker, "acceptShareLocker": m.acceptShareLocker, "storeLocker": rm.storeLocker, "reqLocker": sm.reqLocker}, []vOp{
		{"SetBlame", func(r *rand.Rand) {
			if r.Intn(40) == 0 {
				b.SetBlame(key(r), []Node{node(r)}, r.Intn(2) == 0)
			}
		}},
		{"SetUnicast", func(r *rand.Rand) { b.SetUnicast(r.Intn(2) == 0) }},
		{"Snapshot", func(r *rand.Rand) { b.Snapshot() }},
		{"AlreadyBlame", func(r *rand.Rand) { b.AlreadyBlame() }},
		{"AddBlameNodes", func(r *rand.Rand) { b.AddBlameNodes(node(r), node(r)) }},
		{"UpdateAcceptShare", func(r *rand.Rand) {
			m.UpdateAcceptShare(RoundInfo{RoundMsg: key(r), MsgIdentifier: strconv.Itoa(r.Intn(50))}, key(r))
		}},
		{"CheckMsgDuplication", func(r *rand.Rand) {
			m.CheckMsgDuplication(RoundInfo{RoundMsg: key(r), MsgIdentifier: strconv.Itoa(r.Intn(50))}, key(r))
		}},
		{"SetLastMsg", func(r *rand.Rand) { m.SetLastMsg(&btss.MessageImpl{}) }},
		{"GetLastMsg", func(r *rand.Rand) { m.GetLastMsg() }},
		{"SetLastUnicastPeer", func(r *rand.Rand) {
			m.SetLastUnicastPeer(peer.ID(key(r)), []string{messages.KEYGEN2aUnicast, messages.KEYSIGN1aUnicast}[r.Intn(2)])
		}},
		{"GetUnicastBlame", func(r *rand.Rand) {
			m.GetUnicastBlame([]string{messages.KEYGEN2aUnicast, messages.KEYSIGN1aUnicast, "no such round"}[r.Intn(3)])
		}},
		{"RoundMgr.Set", func(r *rand.Rand) {
			rm.Set(key(r), &messages.WireMessage{Routing: &btss.MessageRouting{From: btss.NewPartyID("1", "", big.NewInt(1))}})
		}},
		{"RoundMgr.Get", func(r *rand.Rand) { rm.Get(key(r)) }},
		{"RoundMgr.GetByRound", func(r *rand.Rand) { rm.GetByRound(messages.KEYGEN1) }},
		{"ShareMgr.Set", func(r *rand.Rand) { sm.Set(key(r)) }},
		{"ShareMgr.QueryAndDelete", func(r *rand.Rand) { sm.QueryAndDelete(key(r)) }},
	})
}

// vOp: one operation on the shared structures; every operation makes its own private arguments
type vOp struct {
	name string
	f    func(r *rand.Rand)
}
type vLock interface {
	TryLock() bool
	Unlock()
}

// vRaces: first one operation at a time, after which every lock must be free; then all of them at once, under the
// race detector
func vRaces(seed int64, rounds int, locks map[string]vLock, ops []vOp) {
	wait := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
			fmt.Printf("REPLAY-FAIL: %s: does not end, a lock was not released\n", what)
			return false
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < rounds; i++ {
		op := ops[r.Intn(len(ops))]
		if !wait(op.name, func() { op.f(r) }) {
			return
		}
		for n, l := range locks {
			if !l.TryLock() {
				fmt.Printf("REPLAY-FAIL: after %s the lock %s is still held\n", op.name, n)
				return
			}
			l.Unlock()
		}
	}
	wait("operations on the shared structures at once", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed*100 + int64(g)))
				for i := 0; i < rounds; i++ {
					ops[r.Intn(len(ops))].f(r)
				}
			}(g)
		}
		wg.Wait()
	})
}
