package p2p

// Party formation: whatever number of peers answers, and whatever the leader says, a party is formed only with more
// members than the threshold.

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

var vPeers = []string{
	"16Uiu2HAm4TmEzUqy3q3Dv7HvdoSboHk5sFj2FH3npiN5vDbJC6gh", "16Uiu2HAm2FzqoUdS6Y9Esg2EaGcAG5rVe1r6BFNnmmQr2H3bqafa",
	"16Uiu2HAmACG5DtqmQsHtXg4G2sLS65ttv84e7MrL4kapkjfmhxAp", "16Uiu2HAmAWKWf5vnpiAhfdSQebTbbB3Bg35qtyG7Hr4ce23VFA8V",
	"16Uiu2HAm8mPob1n1cFAd3gUTE5EGxqX7kh7HRSgrY5LmuBDzPoTL", "16Uiu2HAkzpY42oykrShRH42p63Dq4S3zTFYptaV4Jjh1H1dUrJ4U",
}

type vHost struct {
	host.Host
	id peer.ID
}

func (h *vHost) ID() peer.ID                                         { return h.id }
func (h *vHost) SetStreamHandler(protocol.ID, network.StreamHandler) {}
func (h *vHost) NewStream(context.Context, peer.ID, ...protocol.ID) (network.Stream, error) {
	return nil, errors.New("no peer here")
}

func TestVerifReplayPartySize(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	ApplyDeadline = false
	var ids []peer.ID
	for _, s := range vPeers {
		p, err := peer.Decode(s)
		if err != nil {
			panic(err)
		}
		ids = append(ids, p)
	}
	pc := NewPartyCoordinator(&vHost{id: ids[0]}, 700*time.Millisecond)
	var wg sync.WaitGroup
	record := func(id string) *PeerStatus {
		for i := 0; i < 100; i++ {
			pc.joinPartyGroupLock.Lock()
			g := pc.peersGroup[id]
			pc.joinPartyGroupLock.Unlock()
			if g != nil {
				return g
			}
			time.Sleep(3 * time.Millisecond)
		}
		return nil
	}
	verdict := func(what string, threshold int, r []peer.ID, err error) {
		if err == nil && len(r) <= threshold {
			fmt.Printf("REPLAY-FAIL: %s, threshold %d: a party of %d is formed\n", what, threshold, len(r))
		}
	}
	for threshold := 1; threshold <= 4; threshold++ {
		for n := 0; n <= 5; n++ {
			for _, typ := range []messages.JoinPartyLeaderComm_ResponseType{messages.JoinPartyLeaderComm_Success, messages.JoinPartyLeaderComm_Timeout, messages.JoinPartyLeaderComm_Unknown} {
				threshold, n, typ := threshold, n, typ
				what := fmt.Sprintf("the leader answers %v with %d peers", typ, n)
				wg.Add(2)
				id := fmt.Sprint("member", threshold, n, typ)
				go func() {
					defer wg.Done()
					r, err := pc.joinPartyMember(id, vPeers[1], threshold, make(chan string, 1))
					verdict(what, threshold, r, err)
				}()
				go func() {
					defer wg.Done()
					if g := record(id); g != nil {
						g.setLeaderResponse(&messages.JoinPartyLeaderComm{PeerIDs: vPeers[:n], Type: typ})
						g.notify <- true
					}
				}()
			}
			threshold, n := threshold, n
			what := fmt.Sprintf("%d of %d peers (%s) answer the leader", n, len(vPeers)-1, strings.Join(vPeers[1:n+1], ","))
			wg.Add(2)
			id := fmt.Sprint("leader", threshold, n)
			go func() {
				defer wg.Done()
				r, err := pc.joinPartyLeader(id, vPeers, threshold, make(chan string, 1))
				verdict(what, threshold, r, err)
			}()
			go func() {
				defer wg.Done()
				g := record(id)
				if g == nil {
					return
				}
				for i := 1; i <= n; i++ {
					if ok, err := g.updatePeer(ids[i]); err == nil && ok {
						g.notify <- true
						return
					}
				}
				if n%2 == 0 {
					g.notify <- true // an end for another reason
				}
			}()
		}
	}
	wg.Wait()
}
