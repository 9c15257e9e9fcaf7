package conversion

import (
	"bytes"
	"crypto/elliptic"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/binance-chain/tss-lib/crypto"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	crypto2 "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"
)

func TestVerifReplayConversions(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	defer func() {
		if x := recover(); x != nil {
			bad("a conversion panics: %v", x)
		}
	}()
	SetupBech32Prefix()
	type node struct {
		text  string
		raw   []byte
		id    peer.ID
		party *btss.PartyID
	}
	var pool []node
	for i := 0; i < 24; i++ {
		sk := secp256k1.GenPrivKeySecp256k1([]byte(fmt.Sprintf("node %d %d", seed, i)))
		raw := sk.PubKey().Bytes()
		text, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: raw})
		if err != nil {
			panic(err)
		}
		pk, err := crypto2.UnmarshalSecp256k1PublicKey(raw)
		if err != nil {
			panic(err)
		}
		id, err := peer.IDFromPublicKey(pk)
		if err != nil {
			panic(err)
		}
		p := btss.NewPartyID(strconv.Itoa(i), "", new(big.Int).SetBytes(raw))
		p.Index = i
		pool = append(pool, node{text, raw, id, p})
	}
	same := func(what string, got, want []string, err error) bool {
		if err != nil || len(got) != len(want) {
			bad("%s of %d elements: %d, %v", what, len(want), len(got), err)
			return false
		}
		for i := range got {
			if got[i] != want[i] {
				bad("%s: element %d is %s, want %s", what, i, got[i], want[i])
				return false
			}
		}
		return true
	}
	strs := func(l []peer.ID) (o []string) {
		for _, x := range l {
			o = append(o, string(x))
		}
		return
	}
	rsaPub := func() string { // an identity which does not contain its key
		return "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N"
	}
	for it := 0; it < 200; it++ {
		n := r.Intn(12)
		var texts, ids, raws, pids []string
		m := map[string]*btss.PartyID{}
		for ; n > 0; n-- {
			x := pool[r.Intn(len(pool))]
			texts = append(texts, x.text)
			ids = append(ids, x.id.String())
			raws = append(raws, string(x.id))
			pids = append(pids, x.party.Id)
			m[x.party.Id] = x.party
		}
		a, err := GetPeerIDsFromPubKeys(texts)
		if !same("GetPeerIDsFromPubKeys", strs(a), raws, err) {
			return
		}
		a, err = GetPeerIDs(texts)
		if !same("GetPeerIDs", strs(a), raws, err) {
			return
		}
		b, err := GetPubKeysFromPeerIDs(ids)
		if !same("GetPubKeysFromPeerIDs", b, texts, err) {
			return
		}
		b, err = AccPubKeysFromPartyIDs(pids, m)
		if !same("AccPubKeysFromPartyIDs", b, texts, err) {
			return
		}
		if len(texts) == 0 {
			continue
		}
		// one element which can not be converted
		k := r.Intn(len(texts))
		withAt := func(l []string, x string) []string {
			c := append([]string{}, l...)
			c[k] = x
			return c
		}
		for _, x := range []string{"", "bogus", texts[k] + "q", "thorpub1addwnpepq"} {
			c := withAt(texts, x)
			if a, err := GetPeerIDsFromPubKeys(c); err == nil {
				bad("GetPeerIDsFromPubKeys accepts %q: %v", x, a)
				return
			}
			if a, err := GetPeerIDs(c); err == nil {
				bad("GetPeerIDs accepts %q: %v", x, a)
				return
			}
			if _, err := GetPeerIDFromPubKey(x); err == nil {
				bad("GetPeerIDFromPubKey accepts %q", x)
				return
			}
		}
		for _, x := range []string{"", "bogus", ids[k] + "0", rsaPub()} {
			if b, err := GetPubKeysFromPeerIDs(withAt(ids, x)); err == nil {
				bad("GetPubKeysFromPeerIDs accepts %q: %v", x, b)
				return
			}
		}
		m["nil"], m["unnumbered"], m["keyless"] = nil, btss.NewPartyID("u", "", big.NewInt(7)), &btss.PartyID{MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "k"}, Index: 1}
		for _, x := range []string{"missing", "nil", "unnumbered", "keyless"} {
			if b, err := AccPubKeysFromPartyIDs(withAt(pids, x), m); err == nil {
				bad("AccPubKeysFromPartyIDs accepts a %s party: %v", x, b)
				return
			}
		}
	}
	for _, x := range pool {
		if id, err := GetPeerIDFromPubKey(x.text); err != nil || id != x.id {
			bad("GetPeerIDFromPubKey(%s) = %s, %v", x.text, id, err)
			return
		}
		if id, err := GetPeerIDFromSecp256PubKey(x.raw); err != nil || id != x.id {
			bad("GetPeerIDFromSecp256PubKey(%x) = %s, %v", x.raw, id, err)
			return
		}
		if id, err := GetPeerIDFromPartyID(x.party); err != nil || id != x.id {
			bad("GetPeerIDFromPartyID(%v) = %s, %v", x.party, id, err)
			return
		}
		if k, err := PartyIDtoPubKey(x.party); err != nil || k != x.text {
			bad("PartyIDtoPubKey(%v) = %s, %v", x.party, k, err)
			return
		}
		if ok, err := CheckKeyOnCurve(x.text); err != nil || !ok {
			bad("CheckKeyOnCurve(%s) = %v, %v", x.text, ok, err)
			return
		}
		pk, err := btcec.ParsePubKey(x.raw, btcec.S256())
		if err != nil {
			panic(err)
		}
		pt, err := crypto.NewECPoint(btcec.S256(), pk.X, pk.Y)
		if err != nil {
			panic(err)
		}
		k, addr, err := GetTssPubKey(pt)
		if err != nil || k != x.text || !bytes.Equal(addr, (&coskey.PubKey{Key: x.raw}).Address().Bytes()) {
			bad("GetTssPubKey of the key %s = %s, %x, %v", x.text, k, []byte(addr), err)
			return
		}
		off := crypto.NewECPointNoCurveCheck(btcec.S256(), pk.X, new(big.Int).Add(pk.Y, big.NewInt(1)))
		if k, addr, err := GetTssPubKey(off); err == nil || k != "" || len(addr) != 0 {
			bad("GetTssPubKey of a point off the curve = %s, %x, %v", k, []byte(addr), err)
			return
		}
	}
	for _, b := range [][]byte{nil, {}, {1, 2, 3}, make([]byte, 33)} {
		if id, err := GetPeerIDFromSecp256PubKey(b); err == nil {
			bad("GetPeerIDFromSecp256PubKey(%x) = %s", b, id)
			return
		}
	}
	other := elliptic.P256()
	if k, addr, err := GetTssPubKey(crypto.NewECPointNoCurveCheck(other, other.Params().Gx, other.Params().Gy)); err == nil {
		bad("GetTssPubKey of a point of another curve = %s, %x", k, []byte(addr))
		return
	}
	if _, _, err := GetTssPubKey(nil); err == nil {
		bad("GetTssPubKey(nil) is accepted")
		return
	}
	for _, p := range []*btss.PartyID{nil, btss.NewPartyID("u", "", big.NewInt(7)), {MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "k"}, Index: 1}} {
		if _, err := GetPeerIDFromPartyID(p); err == nil {
			bad("GetPeerIDFromPartyID accepts %v", p)
			return
		}
		if _, err := PartyIDtoPubKey(p); err == nil {
			bad("PartyIDtoPubKey accepts %v", p)
			return
		}
	}
	for _, k := range []string{"", "x"} {
		if ok, err := CheckKeyOnCurve(k); err == nil || ok {
			bad("CheckKeyOnCurve(%q) = %v, %v", k, ok, err)
			return
		}
	}
}
