package p2p

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/messages"
)

func TestVerifReplayRace(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	ApplyDeadline = false
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r0 := rand.New(rand.NewSource(int64(seed)))
	var ids []string
	for i := 0; i < 5; i++ {
		b := make([]byte, 34)
		r0.Read(b)
		b[0], b[1] = 0x12, 0x20
		ids = append(ids, peer.ID(b).Pretty())
	}
	pids := func(l []string) (o []peer.ID) {
		for _, s := range l {
			p, err := peer.Decode(s)
			if err != nil {
				t.Fatal(err)
			}
			o = append(o, p)
		}
		return
	}
	all := pids(ids)
	pc := NewPartyCoordinator(&vHost{id: all[0]}, time.Second)
	for i := 0; i < 3; i++ {
		ps, err := pc.createJoinPartyGroups("kept"+strconv.Itoa(i), ids[1], ids, 2)
		if err != nil {
			t.Fatal(err)
		}
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for {
				select {
				case <-ps.notify:
				case <-ps.newFound:
				case <-stop:
					return
				}
			}
		}()
	}
	var single *PeerStatus = NewPeerStatus(all, all[0], ids[1], 2)
	c := &Communication{subscribers: map[messages.THORChainTSSMessageType]*MessageIDSubscriber{}, subscriberLocker: &sync.Mutex{}}
	ms := NewMessageIDSubscriber()
	kind := func(r *rand.Rand) messages.THORChainTSSMessageType {
		return []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeySignMsg}[r.Intn(2)]
	}
	sess := func(r *rand.Rand) string { return []string{"a", "b", "UNKNOWN"}[r.Intn(3)] }
	msgOf := func(r *rand.Rand) (*messages.JoinPartyLeaderComm, *vStream) {
		m := &messages.JoinPartyLeaderComm{ID: []string{"kept0", "kept1", "kept2", "none"}[r.Intn(4)], MsgType: []string{"request", "response"}[r.Intn(2)]}
		b, _ := proto.Marshal(m)
		return m, &vStream{p: all[r.Intn(5)], in: vFrame(b)}
	}
	vRaces(int64(seed), 800, map[string]vLock{"joinPartyGroupLock": pc.joinPartyGroupLock, "streamLocker": pc.streamMgr.streamLocker, "peerStatusLock": single.peerStatusLock, "leaderResponseLock": single.leaderResponseLock, "subscriberLocker": c.subscriberLocker, "MessageIDSubscriber.lock": ms.lock}, []vOp{
		{"createJoinPartyGroups", func(r *rand.Rand) { pc.createJoinPartyGroups(sess(r), ids[1], ids, 2) }},
		{"createJoinPartyGroups of a bad peer", func(r *rand.Rand) { pc.createJoinPartyGroups(sess(r), ids[1], []string{"junk"}, 2) }},
		{"removePeerGroup", func(r *rand.Rand) { pc.removePeerGroup(sess(r)) }},
		{"HandleStreamWithLeader", func(r *rand.Rand) { _, s := msgOf(r); pc.HandleStreamWithLeader(s) }},
		{"HandleStream", func(r *rand.Rand) { _, s := msgOf(r); pc.HandleStream(s) }},
		{"getPeersStatus", func(r *rand.Rand) { single.getPeersStatus() }},
		{"getCoordinationStatus", func(r *rand.Rand) { single.getCoordinationStatus() }},
		{"updatePeer", func(r *rand.Rand) { single.updatePeer(all[r.Intn(5)]) }},
		{"updatePeer of a stranger", func(r *rand.Rand) { single.updatePeer("stranger") }},
		{"setLeaderResponse", func(r *rand.Rand) { m, _ := msgOf(r); single.setLeaderResponse(m) }},
		{"getLeaderResponse", func(r *rand.Rand) { single.getLeaderResponse() }},
		{"AddStream", func(r *rand.Rand) { _, s := msgOf(r); pc.streamMgr.AddStream(sess(r), s) }},
		{"AddStream of nothing", func(r *rand.Rand) { pc.streamMgr.AddStream(sess(r), nil) }},
		{"ReleaseStream", func(r *rand.Rand) { pc.streamMgr.ReleaseStream(sess(r)) }},
		{"SetSubscribe", func(r *rand.Rand) { c.SetSubscribe(kind(r), sess(r), make(chan *Message)) }},
		{"getSubscriber", func(r *rand.Rand) { c.getSubscriber(kind(r), sess(r)) }},
		{"CancelSubscribe", func(r *rand.Rand) { c.CancelSubscribe(kind(r), sess(r)) }},
		{"Subscribe", func(r *rand.Rand) { ms.Subscribe(sess(r), make(chan *Message)) }},
		{"UnSubscribe", func(r *rand.Rand) { ms.UnSubscribe(sess(r)) }},
		{"GetSubscriber", func(r *rand.Rand) { ms.GetSubscriber(sess(r)) }},
		{"IsEmpty", func(r *rand.Rand) { ms.IsEmpty() }},
	})
}

// vOp: one operation on the shared structures; every operation makes its own private arguments
type vOp struct {
	name string
	f    func(r *rand.Rand)
}
type vLock interface {
	TryLock() bool
	Unlock()
}

// vRaces: first one operation at a time, after which every lock must be free; then all of them at once, under the
// race detector
func vRaces(seed int64, rounds int, locks map[string]vLock, ops []vOp) {
	wait := func(what string, f func()) bool {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		select {
		case <-done:
			return true
		case <-time.After(30 * time.Second):
			fmt.Printf("REPLAY-FAIL: %s: does not end, a lock was not released\n", what)
			return false
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < rounds; i++ {
		op := ops[r.Intn(len(ops))]
		if !wait(op.name, func() { op.f(r) }) {
			return
		}
		for n, l := range locks {
			if !l.TryLock() {
				fmt.Printf("REPLAY-FAIL: after %s the lock %s is still held\n", op.name, n)
				return
			}
			l.Unlock()
		}
	}
	wait("operations on the shared structures at once", func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed*100 + int64(g)))
				for i := 0; i < rounds; i++ {
					ops[r.Intn(len(ops))].f(r)
				}
			}(g)
		}
		wg.Wait()
	})
}
