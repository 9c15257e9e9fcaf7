package blame

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"

	btss "github.com/binance-chain/tss-lib/tss"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

type verifNode struct {
	text string
	id   peer.ID
}

func verifPool(seed, n int) []verifNode {
	conversion.SetupBech32Prefix()
	var pool []verifNode
	for i := 0; i < n; i++ {
		sk := secp256k1.GenPrivKeySecp256k1([]byte(fmt.Sprintf("blamed node %d %d", seed, i)))
		text, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: sk.PubKey().Bytes()})
		if err != nil {
			panic(err)
		}
		id, err := conversion.GetPeerIDFromPubKey(text)
		if err != nil {
			panic(err)
		}
		pool = append(pool, verifNode{text, id})
	}
	return pool
}

func verifBad(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }

func verifRand() (*rand.Rand, int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed))), seed
}

func verifSkip(t *testing.T, id string) {
	if p := os.Getenv("VERIF_PROP"); p != "" && p != id {
		t.Skip()
	}
}

func TestVerifReplaySyncBlame(t *testing.T) {
	verifSkip(t, "C08")
	r, seed := verifRand()
	defer func() {
		if x := recover(); x != nil {
			verifBad("the formation blame panics: %v", x)
		}
	}()
	pool := verifPool(seed, 16)
	for it := 0; it < 3000; it++ {
		n := r.Intn(len(pool) + 1)
		var keys []string
		var nodes []verifNode
		for _, i := range r.Perm(len(pool))[:n] {
			nodes = append(nodes, pool[i])
			if r.Intn(8) == 0 {
				nodes = append(nodes, pool[r.Intn(len(pool))])
			}
		}
		broken := false
		for _, x := range nodes {
			k := x.text
			if r.Intn(60) == 0 {
				k = []string{"", "thorpub1xx", k[:len(k)-1] + "q", x.id.String()}[r.Intn(4)]
				if _, err := conversion.GetPeerIDFromPubKey(k); err == nil {
					k = ""
				}
				broken = true
			}
			keys = append(keys, k)
		}
		var online []peer.ID
		up := map[peer.ID]bool{}
		p := r.Intn(5)
		for _, i := range r.Perm(len(pool)) {
			if r.Intn(4) < p {
				online = append(online, pool[i].id)
				up[pool[i].id] = true
			}
		}
		b, err := NewBlameManager().NodeSyncBlame(keys, online)
		if broken {
			if err == nil {
				verifBad("keys %q with an unusable one: no error, blame %v", keys, b.BlameNodes)
				return
			}
			continue
		}
		if err != nil {
			verifBad("keys %q: %v", keys, err)
			return
		}
		var want []string
		for _, x := range nodes {
			if !up[x.id] {
				want = append(want, x.text)
			}
		}
		var got []string
		for _, x := range b.BlameNodes {
			got = append(got, x.Pubkey)
		}
		if b.FailReason != TssSyncFail || fmt.Sprint(got) != fmt.Sprint(want) {
			verifBad("requested %q, online %v: reason %q, blamed %q instead of %q", keys, online, b.FailReason, got, want)
			return
		}
	}
}

func TestVerifReplayTimeoutBlame(t *testing.T) {
	verifSkip(t, "C09")
	r, seed := verifRand()
	defer func() {
		if x := recover(); x != nil {
			verifBad("the timeout blame panics: %v", x)
		}
	}()
	pool := verifPool(seed, 8)
	rounds := []string{messages.KEYGEN1, messages.KEYGEN2aUnicast, messages.KEYGEN2b, messages.KEYGEN3, messages.KEYSIGN1aUnicast, messages.KEYSIGN5}
	for it := 0; it < 600; it++ {
		n := 2 + r.Intn(len(pool)-1)
		var keys []string
		for _, i := range r.Perm(len(pool))[:n] {
			keys = append(keys, pool[i].text)
		}
		parties, local, err := conversion.GetParties(keys, keys[r.Intn(n)])
		if err != nil {
			panic(err)
		}
		table := conversion.SetupPartyIDMap(parties)
		m := NewBlameManager()
		if err := conversion.SetupIDMaps(table, m.PartyIDtoP2PID); err != nil {
			panic(err)
		}
		m.partyInfo = &PartyInfo{PartyMap: &sync.Map{}, PartyIDMap: table}
		m.localPartyID = local.Id
		key := map[string]string{}
		for _, p := range parties {
			k, err := conversion.PartyIDtoPubKey(p)
			if err != nil {
				panic(err)
			}
			key[p.Id] = k
		}
		stored, seen := map[string]map[string]bool{}, map[string]map[string]bool{}
		for _, rd := range rounds {
			stored[rd], seen[rd] = map[string]bool{}, map[string]bool{}
		}
		anySeen := false
		for s := r.Intn(4 * n); s > 0; s-- {
			p := parties[r.Intn(n)]
			rd := rounds[r.Intn(len(rounds))]
			if r.Intn(3) > 0 {
				rd = rounds[0]
			}
			m.GetRoundMgr().Set(p.Id+"-"+rd+strconv.Itoa(r.Intn(2)), &messages.WireMessage{
				Routing:   &btss.MessageRouting{From: p},
				RoundInfo: rd,
				Message:   []byte{byte(s)},
			})
			stored[rd][p.Id] = true
			if p.Id != local.Id && r.Intn(2) == 0 {
				m.SetLastUnicastPeer(m.PartyIDtoP2PID[p.Id], rd)
				seen[rd][p.Id] = true
				anySeen = true
			}
		}
		check := func(what, rd string, nodes []Node, err error, got map[string]bool, nobody bool) bool {
			if err != nil {
				verifBad("%s of %s: %v", what, rd, err)
				return false
			}
			want := map[string]bool{}
			if !nobody {
				for _, p := range parties {
					if p.Id != local.Id && !got[p.Id] {
						want[key[p.Id]] = true
					}
				}
			}
			have := map[string]bool{}
			for _, x := range nodes {
				have[x.Pubkey] = true
			}
			if fmt.Sprint(have) != fmt.Sprint(want) {
				verifBad("%s of %s in a party of %d, local %s, delivered by %d: blamed %v instead of %v", what, rd, n, key[local.Id], len(got), have, want)
				return false
			}
			return true
		}
		for _, rd := range rounds {
			ns, err := m.GetBroadcastBlame(rd)
			if !check("broadcast blame", rd, ns, err, stored[rd], len(stored[rd]) == 0) {
				return
			}
			ns, err = m.GetUnicastBlame(rd)
			if anySeen && len(seen[rd]) == 0 {
				if err == nil && len(ns) != 0 {
					verifBad("unicast blame of %s without any share of it: %v", rd, ns)
					return
				}
				continue
			}
			if !check("unicast blame", rd, ns, err, seen[rd], !anySeen) {
				return
			}
		}
	}
}
