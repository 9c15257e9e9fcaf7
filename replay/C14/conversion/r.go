package conversion

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"

	btss "github.com/binance-chain/tss-lib/tss"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	crypto2 "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"
)

func TestVerifReplayCommittee(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	defer func() {
		if x := recover(); x != nil {
			bad("the committee code panics: %v", x)
		}
	}()
	SetupBech32Prefix()
	type node struct {
		text string
		raw  []byte
		id   peer.ID
	}
	var pool []node
	for i := 0; i < 24; i++ {
		sk := secp256k1.GenPrivKeySecp256k1([]byte(fmt.Sprintf("node %d %d", seed, i)))
		raw := sk.PubKey().Bytes()
		text, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: raw})
		if err != nil {
			panic(err)
		}
		pk, err := crypto2.UnmarshalSecp256k1PublicKey(raw)
		if err != nil {
			panic(err)
		}
		id, err := peer.IDFromPublicKey(pk)
		if err != nil {
			panic(err)
		}
		pool = append(pool, node{text, raw, id})
	}
	for it := 0; it < 300; it++ {
		n := 1 + r.Intn(len(pool))
		var nodes []node
		for _, i := range r.Perm(len(pool))[:n] {
			nodes = append(nodes, pool[i])
		}
		var keys []string
		for _, x := range nodes {
			keys = append(keys, x.text)
		}
		local := nodes[r.Intn(n)]
		sorted := append([]node{}, nodes...)
		sort.Slice(sorted, func(i, j int) bool { return sorted[i].text < sorted[j].text })
		all, lp, err := GetParties(append([]string{}, keys...), local.text)
		if err != nil || len(all) != n || lp == nil {
			bad("GetParties of %d keys: %d parties, local %v, error %v", n, len(all), lp, err)
			return
		}
		if !bytes.Equal(lp.Key, local.raw) {
			bad("the local party %v is not the one of the local key", lp)
			return
		}
		found := false
		byID := map[string]*btss.PartyID{}
		for j, p := range all {
			found = found || p == lp
			byID[p.Id] = p
			if p.Index != j {
				bad("party %d of the list has the index %d", j, p.Index)
				return
			}
		}
		if !found {
			bad("the local party is not in the committee")
			return
		}
		for i, x := range sorted {
			p := byID[strconv.Itoa(i)]
			if p == nil || !bytes.Equal(p.Key, x.raw) || new(big.Int).SetBytes(x.raw).Cmp(p.KeyInt()) != 0 {
				bad("party %d of %d is %v, not the one of the key %s", i, n, p, x.text)
				return
			}
		}
		// refusals
		if a, l, err := GetParties(append([]string{}, keys...), "someone else"); err == nil || len(a) != 0 || l != nil {
			bad("GetParties without the local key: %v %v %v", a, l, err)
			return
		}
		broken := append([]string{}, keys...)
		k := r.Intn(n)
		broken[k] = []string{"", "x", "thorpub1", keys[k][:len(keys[k])-1] + "b", keys[k] + "q"}[r.Intn(5)]
		if sdkBad(broken[k]) {
			if a, l, err := GetParties(broken, local.text); err == nil || len(a) != 0 || l != nil {
				bad("GetParties with the undecodable key %q: %v %v %v", broken[k], a, l, err)
				return
			}
		}
		// the tables
		m := SetupPartyIDMap(all)
		if len(m) != n {
			bad("SetupPartyIDMap of %d parties has %d entries", n, len(m))
			return
		}
		for _, p := range all {
			if m[p.Id] != p {
				bad("SetupPartyIDMap maps %s to %v", p.Id, m[p.Id])
				return
			}
		}
		tab := map[string]peer.ID{"other": "kept", strconv.Itoa(r.Intn(n)): "stale"}
		if err := SetupIDMaps(m, tab); err != nil {
			bad("SetupIDMaps: %v", err)
			return
		}
		if len(tab) != n+1 || tab["other"] != "kept" {
			bad("SetupIDMaps leaves %d entries for %d parties", len(tab), n)
			return
		}
		delete(tab, "other")
		want := map[peer.ID]bool{}
		for i, x := range sorted {
			if tab[strconv.Itoa(i)] != x.id {
				bad("party %d of %d is mapped to the peer %s, its key belongs to %s", i, n, tab[strconv.Itoa(i)], x.id)
				return
			}
			if x.text != local.text {
				want[x.id] = true
			}
		}
		if n > 1 {
			ps := GetPeersID(tab, local.id.String())
			got := map[peer.ID]bool{}
			for _, p := range ps {
				got[p] = true
			}
			ok := len(ps) == n-1 && len(got) == len(want)
			for p := range want {
				ok = ok && got[p]
			}
			if !ok {
				bad("the remote peers of a committee of %d: %d of them, %d distinct, want all but the local one", n, len(ps), len(got))
				return
			}
			if ps := GetPeersID(tab, "no such peer"); len(ps) != n {
				bad("the peers of a committee of %d without any local peer: %d", n, len(ps))
				return
			}
		}
		// a party which has no peer identity
		for _, p := range []*btss.PartyID{nil, btss.NewPartyID("z", "", big.NewInt(5)), {MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "z"}, Index: 1}} {
			m["z"] = p
			if err := SetupIDMaps(m, map[string]peer.ID{}); err == nil {
				bad("SetupIDMaps accepts the party %v", p)
				return
			}
		}
	}
}

func sdkBad(k string) bool {
	_, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, k)
	return err != nil
}
