package common

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func TestVerifReplayRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	w := newVWorld(rand.New(rand.NewSource(int64(seed))), "", func(p, f string, a ...interface{}) {})
	tc := w.t
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-w.out:
			case <-stop:
				return
			}
		}
	}()
	pm := &sync.Map{}
	for _, id := range []string{"m0", "m1"} {
		pm.Store(id, &vEngine{id: id, self: w.members[0].party, call: func(e *vEngine, b []byte, from *btss.PartyID, bc bool) (bool, *btss.Error) {
			if len(b)%2 == 0 {
				return false, btss.NewError(errors.New("bad share"), "", 1, e.self, from)
			}
			return true, nil
		}})
	}
	tc.SetPartyInfo(&PartyInfo{PartyMap: pm, PartyIDMap: tc.getPartyInfo().PartyIDMap})
	var envs []*messages.WireMessage
	for i := 0; i < 300; i++ {
		envs = append(envs, w.envelope(w.members[1+i%(len(w.members)-1)]))
	}
	msgOf := func(r *rand.Rand) *messages.WireMessage {
		m := w.members[r.Intn(len(w.members))]
		b, rt, name := w.share(r.Intn(4), 0, m.party, w.members[0].party)
		return &messages.WireMessage{Routing: rt, RoundInfo: name, Message: b}
	}
	items := []*LocalCacheItem{NewLocalCacheItem(msgOf(rand.New(rand.NewSource(1))), "h0"), NewLocalCacheItem(msgOf(rand.New(rand.NewSource(2))), "h1")}
	var once sync.Once
	key := func(r *rand.Rand) string { return []string{"k0", "k1", "k2"}[r.Intn(3)] }
	peerOf := func(r *rand.Rand) string { return w.members[r.Intn(len(w.members))].pid.String() }
	hash := func(r *rand.Rand) string { return []string{"h0", "h1"}[r.Intn(2)] }
	item := func(r *rand.Rand) *LocalCacheItem { return items[r.Intn(2)] }
	locks := map[string]vLock{"partyLock": tc.partyLock, "culpritsLock": tc.culpritsLock, "P2PPeersLock": tc.P2PPeersLock, "unConfirmedMsgLock": tc.unConfirmedMsgLock, "the lock of a cache entry": items[0].lock, "the lock of another cache entry": items[1].lock}
	vRaces(int64(seed), 1500, locks, []vOp{
		{"SetPartyInfo", func(r *rand.Rand) {
			tc.SetPartyInfo(&PartyInfo{PartyMap: tc.getPartyInfo().PartyMap, PartyIDMap: tc.getPartyInfo().PartyIDMap})
		}},
		{"getPartyInfo", func(r *rand.Rand) { tc.getPartyInfo() }},
		{"isPartyPeer", func(r *rand.Rand) { tc.isPartyPeer(peerOf(r)) }},
		{"the peers are set up", func(r *rand.Rand) {
			tc.P2PPeersLock.Lock()
			tc.P2PPeers = append([]peer.ID{}, tc.P2PPeers...)
			tc.P2PPeersLock.Unlock()
		}},
		{"NotifyTaskDone", func(r *rand.Rand) { tc.NotifyTaskDone() }},
		{"sendBulkMsg", func(r *rand.Rand) {
			_, rt, name := w.share(0, 0, w.members[0].party, w.members[0].party)
			tc.sendBulkMsg(name, messages.TSSKeyGenMsg, []BulkWireMsg{NewBulkWireMsg([]byte("b"), "m0", rt)})
		}},
		{"receiverBroadcastHashToPeers", func(r *rand.Rand) { tc.receiverBroadcastHashToPeers(msgOf(r), messages.TSSKeyGenVerMsg) }},
		{"UpdateConfirmList", func(r *rand.Rand) { item(r).UpdateConfirmList(peerOf(r), hash(r)) }},
		{"TotalConfirmParty", func(r *rand.Rand) { item(r).TotalConfirmParty() }},
		{"GetPeers", func(r *rand.Rand) { item(r).GetPeers() }},
		{"hashCheck", func(r *rand.Rand) { tc.hashCheck(item(r), r.Intn(4)) }},
		{"requestShareFromPeer", func(r *rand.Rand) { tc.requestShareFromPeer(item(r), r.Intn(4), key(r), messages.TSSKeyGenVerMsg) }},
		{"requestShareFromPeer, a vote from nobody", func(r *rand.Rand) {
			it := NewLocalCacheItem(nil, "")
			it.UpdateConfirmList("not a peer", "h0")
			tc.requestShareFromPeer(it, 1, key(r), messages.TSSKeyGenVerMsg)
			if !it.lock.TryLock() {
				once.Do(func() {
					fmt.Println("REPLAY-FAIL: a request for a share whose voter is not a peer leaves the lock of the cache entry held")
				})
			}
		}},
		{"TryGetLocalCacheItem", func(r *rand.Rand) { tc.TryGetLocalCacheItem(key(r)) }},
		{"TryGetAllLocalCached", func(r *rand.Rand) { tc.TryGetAllLocalCached() }},
		{"updateLocalUnconfirmedMessages", func(r *rand.Rand) { tc.updateLocalUnconfirmedMessages(key(r), item(r)) }},
		{"removeKey", func(r *rand.Rand) { tc.removeKey(key(r)) }},
		{"checkDupAndUpdateVerMsg", func(r *rand.Rand) {
			tc.checkDupAndUpdateVerMsg(&messages.BroadcastConfirmMessage{P2PID: peerOf(r), Key: key(r), Hash: hash(r)}, peerOf(r))
		}},
		{"updateLocal", func(r *rand.Rand) { tc.updateLocal(envs[r.Intn(len(envs))]) }},
	})
}

// vOp: one operation on the shared structures; every operation makes its own private arguments
type vOp struct {
	name string
	f    func(r *rand.Rand)
}
type vLock interface {
	TryLock() bool
	Unlock()
}

// vRaces: first one operation at a time, after which every lock must be free; then all of them at once, under the
// race detector
func vRaces(seed int64, rounds int, locks map[string]vLock, ops []vOp) {
	wait := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
			fmt.Printf("REPLAY-FAIL: %s: does not end, a lock was not released\n", what)
			return false
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < rounds; i++ {
		op := ops[r.Intn(len(ops))]
		if !wait(op.name, func() { op.f(r) }) {
			return
		}
		for n, l := range locks {
			if !l.TryLock() {
				fmt.Printf("REPLAY-FAIL: after %s the lock %s is still held\n", op.name, n)
				return
			}
			l.Unlock()
		}
	}
	wait("operations on the shared structures at once", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed*100 + int64(g)))
				for i := 0; i < rounds; i++ {
					ops[r.Intn(len(ops))].f(r)
				}
			}(g)
		}
		wg.Wait()
	})
}
