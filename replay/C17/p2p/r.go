package p2p

// Party formation: random messages of several sessions against an oracle of the records, and joins which end in every way.

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/rs/zerolog"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

var vPeers = []string{
	"16Uiu2HAm4TmEzUqy3q3Dv7HvdoSboHk5sFj2FH3npiN5vDbJC6gh", "16Uiu2HAm2FzqoUdS6Y9Esg2EaGcAG5rVe1r6BFNnmmQr2H3bqafa",
	"16Uiu2HAmACG5DtqmQsHtXg4G2sLS65ttv84e7MrL4kapkjfmhxAp", "16Uiu2HAmAWKWf5vnpiAhfdSQebTbbB3Bg35qtyG7Hr4ce23VFA8V",
	"16Uiu2HAm8mPob1n1cFAd3gUTE5EGxqX7kh7HRSgrY5LmuBDzPoTL", "16Uiu2HAkzpY42oykrShRH42p63Dq4S3zTFYptaV4Jjh1H1dUrJ4U",
}

type vHost struct {
	host.Host
	id peer.ID
}

func (h *vHost) ID() peer.ID                                         { return h.id }
func (h *vHost) SetStreamHandler(protocol.ID, network.StreamHandler) {}
func (h *vHost) NewStream(context.Context, peer.ID, ...protocol.ID) (network.Stream, error) {
	return nil, errors.New("nobody answers")
}

type vConn struct {
	network.Conn
	p peer.ID
}

func (c vConn) RemotePeer() peer.ID { return c.p }

type vStream struct {
	network.Stream
	in []byte
	p  peer.ID
}

func (s *vStream) Conn() network.Conn { return vConn{p: s.p} }
func (s *vStream) Read(p []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.in)
	s.in = s.in[n:]
	return n, nil
}
func (s *vStream) Write(p []byte) (int, error)        { return len(p), nil }
func (s *vStream) SetReadDeadline(t time.Time) error  { return nil }
func (s *vStream) SetWriteDeadline(t time.Time) error { return nil }
func (s *vStream) Reset() error                       { return nil }
func (s *vStream) Close() error                       { return nil }

func vFrame(b []byte) []byte {
	h := make([]byte, 4)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	return append(h, b...)
}

func vDump(ps *PeerStatus) string {
	if ps == nil {
		return "none"
	}
	var l []string
	for p, v := range ps.peersResponse {
		l = append(l, fmt.Sprintf("%s=%v", p, v))
	}
	sort.Strings(l)
	resp := "none"
	if r := ps.getLeaderResponse(); r != nil {
		resp = fmt.Sprint(r.ID, r.PeerIDs)
	}
	return fmt.Sprint(l, ps.leader, ps.threshold, ps.reqCount, resp, len(ps.notify), len(ps.newFound))
}

func TestVerifReplayFormation(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	ApplyDeadline = false
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ids []peer.ID
	for _, s := range vPeers {
		p, err := peer.Decode(s)
		if err != nil {
			panic(err)
		}
		ids = append(ids, p)
	}
	for h := 0; h < 400; h++ {
		r := rand.New(rand.NewSource(int64(seed)*100000 + int64(h)))
		failed := false
		what := ""
		bad := func(f string, a ...interface{}) {
			if !failed {
				failed = true
				fmt.Printf("REPLAY-FAIL: "+f+" (history %d: %s)\n", append(a, h, what)...)
			}
		}
		self := r.Intn(len(ids))
		pc := NewPartyCoordinator(&vHost{id: ids[self]}, time.Second)
		sess := []string{"one", "two", "three", "o", "", "UNKNOWN"}
		for step := 0; step < 40 && !failed; step++ {
			before := map[string]string{}
			for m, g := range pc.peersGroup {
				before[m] = vDump(g)
			}
			id := sess[r.Intn(len(sess))]
			touched := id
			from := ids[r.Intn(len(ids))]
			var check func()
			switch k := r.Intn(8); k {
			case 0, 1: // a join begins
				var list []string
				for _, i := range r.Perm(len(ids))[:1+r.Intn(len(ids))] {
					list = append(list, vPeers[i])
				}
				broken := r.Intn(6) == 0
				if broken {
					list[r.Intn(len(list))] = "not a peer"
				}
				leader := "NONE"
				if r.Intn(2) == 0 {
					leader = vPeers[r.Intn(len(ids))]
				}
				th := 1 + r.Intn(4)
				what = fmt.Sprintf("join %q of %v, leader %s, threshold %d, local %s", id, list, leader, th, vPeers[self])
				old := pc.peersGroup[id]
				g, err := pc.createJoinPartyGroups(id, leader, list, th)
				if broken {
					touched = "nothing at all"
					if err == nil || g != nil || pc.peersGroup[id] != old {
						bad("a peer list which cannot be decoded is accepted")
					}
					break
				}
				if err != nil || g == nil || pc.peersGroup[id] != g || g == old {
					bad("the join has no record of its own")
					break
				}
				want := NewPeerStatus(nil, ids[self], leader, th)
				for _, s := range list {
					p, _ := peer.Decode(s)
					if p != ids[self] {
						want.peersResponse[p] = false
					}
				}
				if vDump(want) != vDump(g) {
					bad("the record of the join is %s", vDump(g))
				}
			case 2: // it ends
				what = fmt.Sprintf("the join of %q ends", id)
				pc.removePeerGroup(id)
				if _, ok := pc.peersGroup[id]; ok {
					bad("the record is still there")
				}
			default: // a message
				typ := []string{"request", "response", "other", ""}[r.Intn(4)]
				var b []byte
				leaderless := k < 5
				if leaderless {
					typ = "without leader"
					b, _ = proto.Marshal(&messages.JoinPartyRequest{ID: id})
				} else {
					b, _ = proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: typ, PeerIDs: []string{from.String()}})
				}
				if r.Intn(8) == 0 {
					b = b[:r.Intn(len(b)+1)]
					var q messages.JoinPartyRequest
					var q2 messages.JoinPartyLeaderComm
					if proto.Unmarshal(b, &q) != nil || proto.Unmarshal(b, &q2) != nil {
						touched = "nothing at all"
					} else {
						touched = q.ID
					}
				}
				what = fmt.Sprintf("message %q of session %q from %s", typ, id, from)
				st := &vStream{in: vFrame(b), p: from}
				g := pc.peersGroup[touched]
				full := g != nil && (len(g.notify) == cap(g.notify) || len(g.newFound) == cap(g.newFound))
				if full {
					continue // a signal would wait for the session to take it
				}
				if g != nil {
					var others []string
					for p, v := range g.peersResponse {
						if p != from {
							others = append(others, fmt.Sprint(p, v))
						}
					}
					sort.Strings(others)
					resp, leader, size := g.leaderResponse, g.leader, len(g.peersResponse)
					check = func() {
						var now []string
						for p, v := range g.peersResponse {
							if p != from {
								now = append(now, fmt.Sprint(p, v))
							}
						}
						sort.Strings(now)
						if fmt.Sprint(now) != fmt.Sprint(others) || len(g.peersResponse) != size {
							bad("the message changes the mark of other peers")
						}
						if g.leaderResponse != resp && (from.String() != leader || typ != "response") {
							bad("a peer which is not the leader answers for the session")
						}
					}
				}
				if leaderless {
					pc.HandleStream(st)
				} else {
					pc.HandleStreamWithLeader(st)
				}
				if pc.peersGroup[touched] != g {
					bad("a message replaces, creates or removes the record of the session")
				}
			}
			if check != nil {
				check()
			}
			for m, g := range pc.peersGroup {
				if m != touched && before[m] != vDump(g) {
					bad("the record of session %q changes from %s to %s", m, before[m], vDump(g))
				}
			}
			for m := range before {
				if _, ok := pc.peersGroup[m]; !ok && m != touched {
					bad("the record of session %q is gone", m)
				}
			}
		}
		if failed {
			return
		}
	}
	// joins which end by timeout, by signature and by a party: the record goes, those of others stay
	var wg sync.WaitGroup
	pc := NewPartyCoordinator(&vHost{id: ids[0]}, 300*time.Millisecond)
	if _, err := pc.createJoinPartyGroups("another", "NONE", vPeers, 2); err != nil {
		panic(err)
	}
	run := func(id string, join func(sig chan string), during func(g *PeerStatus, sig chan string)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sig := make(chan string, 1)
			end := make(chan struct{})
			go func() { join(sig); close(end) }()
			var g *PeerStatus
			for i := 0; i < 100 && g == nil; i++ {
				time.Sleep(5 * time.Millisecond)
				pc.joinPartyGroupLock.Lock()
				g = pc.peersGroup[id]
				pc.joinPartyGroupLock.Unlock()
			}
			if g == nil {
				fmt.Printf("REPLAY-FAIL: the join %q has no record\n", id)
				return
			}
			if during != nil {
				during(g, sig)
			}
			<-end
			pc.joinPartyGroupLock.Lock()
			_, left := pc.peersGroup[id]
			_, other := pc.peersGroup["another"]
			pc.joinPartyGroupLock.Unlock()
			if left {
				fmt.Printf("REPLAY-FAIL: the record of %q is still there after the join has ended\n", id)
			}
			if !other {
				fmt.Printf("REPLAY-FAIL: the join %q removed the record of another session\n", id)
			}
		}()
	}
	answer := func(typ messages.JoinPartyLeaderComm_ResponseType) func(*PeerStatus, chan string) {
		return func(g *PeerStatus, _ chan string) {
			g.setLeaderResponse(&messages.JoinPartyLeaderComm{PeerIDs: vPeers[:4], Type: typ})
			g.notify <- true
		}
	}
	member := func(id string) func(chan string) {
		return func(sig chan string) { _, _ = pc.joinPartyMember(id, vPeers[1], 2, sig) }
	}
	run("member, party formed", member("member, party formed"), answer(messages.JoinPartyLeaderComm_Success))
	run("member, no party", member("member, no party"), answer(messages.JoinPartyLeaderComm_Timeout))
	run("member, timeout", member("member, timeout"), nil)
	run("member, signature", member("member, signature"), func(_ *PeerStatus, sig chan string) { sig <- "signature received" })
	leader := func(id string) func(chan string) {
		return func(sig chan string) { _, _ = pc.joinPartyLeader(id, vPeers, 2, sig) }
	}
	run("leader, timeout", leader("leader, timeout"), nil)
	run("leader, party formed", leader("leader, party formed"), func(g *PeerStatus, _ chan string) {
		_, _ = g.updatePeer(ids[1])
		_, _ = g.updatePeer(ids[2])
		g.notify <- true
	})
	run("leader, signature", leader("leader, signature"), func(_ *PeerStatus, sig chan string) { sig <- "signature received" })
	run("everybody, timeout", func(chan string) { _, _ = pc.JoinPartyWithRetry("everybody, timeout", vPeers) }, nil)
	wg.Wait()
}
