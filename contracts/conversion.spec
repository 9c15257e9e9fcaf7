import crypto2 github.com/libp2p/go-libp2p-core/crypto
import sdk github.com/cosmos/cosmos-sdk/types
import coskey github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1
import btcec github.com/btcsuite/btcd/btcec
import tcrypto github.com/binance-chain/tss-lib/crypto
import cryptotypes github.com/cosmos/cosmos-sdk/crypto/types

func conversion.GetThreshold(value) (t, err) [C01]
  nopanic [C07]
  ensures value < 0 ==> err != nil
  ensures value >= 0 ==> err == nil && 3*(t+1) >= 2*value && 3*(t+1) < 2*value + 3

// ---- keys and identities (C15): dependencies are functions of the values given ----
extern pure github.com/cosmos/cosmos-sdk/types.GetPubKeyFromBech32(t, s) (pk, err)
  nopanic
  ensures err == nil ==> pk != nil
extern pure github.com/cosmos/cosmos-sdk/types.Bech32ifyPubKey(t, pk) (r, err)
  nopanic
extern pure github.com/cosmos/cosmos-sdk/crypto/types.PubKey.Bytes(pk) (r)
  nopanic
extern pure github.com/libp2p/go-libp2p-core/crypto.UnmarshalSecp256k1PublicKey(b) (pk, err)
  nopanic
  ensures err == nil ==> pk != nil
extern pure github.com/libp2p/go-libp2p-core/crypto.PubKey.Raw(pk) (r, err)
  nopanic
extern pure github.com/libp2p/go-libp2p-core/peer.IDFromPublicKey(pk) (id, err)
  nopanic
extern pure github.com/libp2p/go-libp2p-core/peer.ID.ExtractPublicKey(id) (pk, err)
  nopanic
  ensures err == nil ==> pk != nil

define decodes(s) = res1(sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, s)) == nil
define keyOf(s) = string(res0(sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, s)).Bytes())
define rawPeerOk(b) = res1(crypto2.UnmarshalSecp256k1PublicKey(b)) == nil && res1(peer.IDFromPublicKey(res0(crypto2.UnmarshalSecp256k1PublicKey(b)))) == nil
define rawPeer(b) = res0(peer.IDFromPublicKey(res0(crypto2.UnmarshalSecp256k1PublicKey(b))))
define peerOk(s) = decodes(s) && rawPeerOk(res0(sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, s)).Bytes())
define peerOf(s) = rawPeer(res0(sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, s)).Bytes())

func conversion.GetPeerIDFromPubKey(pubkey) (id, err) [C15]
  nopanic [C07]
  ensures err == nil <==> peerOk(pubkey)
  ensures err == nil ==> id == peerOf(pubkey)

func conversion.GetPeerIDFromSecp256PubKey(pk) (id, err) [C15]
  nopanic [C07]
  ensures err == nil <==> len(pk) > 0 && rawPeerOk(pk)
  ensures err == nil ==> id == rawPeer(pk)

func conversion.GetPeerIDsFromPubKeys(pubkeys) (ids, err) [C15]
  nopanic [C07]
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(pubkeys) ==> peerOk(pubkeys[i]))
  ensures err == nil ==> len(ids) == len(pubkeys) && (forall i int :: 0 <= i && i < len(pubkeys) ==> ids[i] == peerOf(pubkeys[i]))

func conversion.GetPeerIDs(pubkeys) (ids, err) [C15]
  nopanic [C07]
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(pubkeys) ==> peerOk(pubkeys[i]))
  ensures err == nil ==> len(ids) == len(pubkeys) && (forall i int :: 0 <= i && i < len(pubkeys) ==> ids[i] == peerOf(pubkeys[i]))

// the bech32 text of a raw key
define textOk(b) = res1(sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, mk(coskey.PubKey, b))) == nil
define textOf(b) = res0(sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, mk(coskey.PubKey, b)))
define idKeyOk(p) = res1(peer.Decode(p)) == nil && res1(res0(peer.Decode(p)).ExtractPublicKey()) == nil && res1(res0(res0(peer.Decode(p)).ExtractPublicKey()).Raw()) == nil
define idKey(p) = res0(res0(res0(peer.Decode(p)).ExtractPublicKey()).Raw())

func conversion.GetPubKeyFromPeerID(pID) (k, err) [C15]
  nopanic [C07]
  ensures err == nil <==> idKeyOk(pID) && textOk(idKey(pID))
  ensures err == nil ==> k == textOf(idKey(pID))

func conversion.GetPubKeysFromPeerIDs(peers) (ks, err) [C15]
  nopanic [C07]
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(peers) ==> idKeyOk(peers[i]) && textOk(idKey(peers[i])))
  ensures err == nil ==> len(ks) == len(peers) && (forall i int :: 0 <= i && i < len(peers) ==> ks[i] == textOf(idKey(peers[i])))

// ---- natural numbers as canonical big endian strings ----
declare strip0(string) string
ghost nat math/big.Int string
extern math/big.Int.SetBytes(z, b) (r)
  modifies ghost(nat, z)
  nopanic
  ensures r == z && ghost(nat, z) == strip0(string(b))
extern math/big.Int.Bytes(z) (r)
  nopanic
  ensures string(r) == ghost(nat, z)
extern github.com/binance-chain/tss-lib/tss.PartyID.ValidateBasic(p) (r)
  requires p != nil ==> p.MessageWrapper_PartyID != nil
  nopanic
  ensures r <==> p != nil && p.Key != nil && p.Index >= 0
extern github.com/binance-chain/tss-lib/tss.MessageWrapper_PartyID.KeyInt(p) (r)
  requires p != nil
  nopanic
  ensures fresh(r) && ghost(nat, r) == strip0(string(p.Key))
extern github.com/binance-chain/tss-lib/tss.MessageWrapper_PartyID.GetKey(p) (r)
  nopanic
  ensures p != nil ==> r == p.Key
define partyOk(p) = p != nil && p.MessageWrapper_PartyID != nil

func conversion.GetPeerIDFromPartyID(partyID) (id, err) [C14, C15]
  requires partyID != nil ==> partyID.MessageWrapper_PartyID != nil
  nopanic [C07]
  ensures err == nil <==> partyID != nil && partyID.Key != nil && partyID.Index >= 0 && strip0(string(partyID.Key)) != "" && rawPeerOk(strip0(string(partyID.Key)))
  ensures err == nil ==> id == rawPeer(strip0(string(partyID.Key)))

func conversion.PartyIDtoPubKey(party) (k, err) [C15]
  requires party != nil ==> party.MessageWrapper_PartyID != nil
  nopanic [C07]
  ensures err == nil <==> party != nil && party.Key != nil && party.Index >= 0 && textOk(party.Key)
  ensures err == nil ==> k == textOf(party.Key)

func conversion.AccPubKeysFromPartyIDs(partyIDs, partyIDMap) (ks, err) [C15]
  requires forall p string :: p in partyIDMap && partyIDMap[p] != nil ==> partyIDMap[p].MessageWrapper_PartyID != nil
  nopanic [C07]
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(partyIDs) ==> partyIDs[i] in partyIDMap && partyIDMap[partyIDs[i]] != nil && partyIDMap[partyIDs[i]].Key != nil && partyIDMap[partyIDs[i]].Index >= 0 && textOk(partyIDMap[partyIDs[i]].Key))
  ensures err == nil ==> len(ks) == len(partyIDs) && (forall i int :: 0 <= i && i < len(partyIDs) ==> ks[i] == textOf(partyIDMap[partyIDs[i]].Key))

// ---- group public keys ----
extern pure github.com/binance-chain/tss-lib/crypto.ECPoint.X(p) (r)
  nopanic
  ensures r != nil
extern pure github.com/binance-chain/tss-lib/crypto.ECPoint.Y(p) (r)
  nopanic
  ensures r != nil
extern pure github.com/btcsuite/btcd/btcec.S256() (r)
  nopanic
extern pure github.com/btcsuite/btcd/btcec.KoblitzCurve.IsOnCurve(c, x, y) (r)
  nopanic
extern pure github.com/btcsuite/btcd/btcec.PublicKey.SerializeCompressed(k) (r)
  nopanic
extern pure github.com/btcsuite/btcd/btcec.ParsePubKey(b, c) (k, err)
  nopanic
  ensures err == nil ==> k != nil && k.X != nil && k.Y != nil
extern pure github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1.PubKey.Address(k) (r)
  nopanic
extern pure gitlab.com/thorchain/binance-sdk/common/types.AccAddress.String(a) (r)
  nopanic
valueptr github.com/btcsuite/btcd/btcec.PublicKey github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1.PubKey
extern github.com/tendermint/tendermint/libs/bytes.HexBytes.Bytes(b) (r)
  nopanic
  ensures r == b
define pointKey(p) = mk(btcec.PublicKey, btcec.S256(), p.X(), p.Y()).SerializeCompressed()
define onCurve(p) = btcec.S256().IsOnCurve(p.X(), p.Y())

func conversion.GetTssPubKey(pubKeyPoint) (k, addr, err) [C15]
  nopanic [C07]
  ensures pubKeyPoint == nil || !onCurve(pubKeyPoint) ==> err != nil && k == "" && len(addr) == 0
  ensures pubKeyPoint != nil && onCurve(pubKeyPoint) ==> k == textOf(pointKey(pubKeyPoint)) && string(addr) == string(mk(coskey.PubKey, pointKey(pubKeyPoint)).Address())
  ensures pubKeyPoint != nil && onCurve(pubKeyPoint) ==> (err == nil <==> textOk(pointKey(pubKeyPoint)))

define parsed(pk) = btcec.ParsePubKey(res0(sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, pk)).Bytes(), btcec.S256())
func conversion.CheckKeyOnCurve(pk) (r, err) [C15]
  nopanic [C07]
  ensures err == nil <==> decodes(pk) && res1(parsed(pk)) == nil
  ensures r <==> err == nil && btcec.S256().IsOnCurve(res0(parsed(pk)).X, res0(parsed(pk)).Y)

func conversion.BytesToHashString(msg) (h, err) [C13, C04]
  nopanic [C07]
  ensures err == nil && h == hexsha(string(msg))

// ---- the committee (C14) ----
extern pure strconv.Itoa(i) (r)
  nopanic
axiom forall i int {strconv.Itoa(i)} :: unitoa(strconv.Itoa(i)) == i
extern github.com/binance-chain/tss-lib/tss.NewPartyID(id, moniker, key) (r)
  requires key != nil
  nopanic
  ensures fresh(r) && fresh(r.MessageWrapper_PartyID) && fresh(r.Key)
  ensures r.Id == id && r.Moniker == moniker && string(r.Key) == ghost(nat, key) && r.Key != nil && r.Index == -1
// sorting by key and numbering: the same parties
extern github.com/binance-chain/tss-lib/tss.SortPartyIDs(ids, startAt) (r)
  requires forall i int :: 0 <= i && i < len(ids) ==> partyOk(ids[i])
  modifies anyof(btss.PartyID.Index)
  nopanic
  ensures len(r) == len(ids)
  ensures fresh(r)
  ensures permutation(r, ids)
  ensures len(startAt) == 0 ==> (forall i int {r[i]} :: 0 <= i && i < len(r) ==> r[i].Index == i)

func conversion.GetParties(keys, localPartyKey) (all, local, err) [C14]
  modifies elems(keys), anyof(btss.PartyID.Index)
  nopanic [C07]
  ensures err == nil <==> old(forall i int :: 0 <= i && i < len(keys) ==> decodes(keys[i])) && old(exists i int :: 0 <= i && i < len(keys) && keys[i] == localPartyKey)
  ensures err != nil ==> len(all) == 0 && local == nil
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(all) ==> partyOk(all[j]))
  ensures err == nil && len(all) >= 2 ==> (exists i int, j int :: 0 <= i && i < len(all) && 0 <= j && j < len(all) && all[i].Id != all[j].Id)
  // one party per key, numbered by the position of the key
  ensures err == nil ==> len(all) == old(len(keys))
  ensures err == nil ==> (forall i int :: 0 <= i && i < len(all) ==> (exists j int :: 0 <= j && j < len(all) && partyOk(all[j]) && all[j].Id == strconv.Itoa(i) && string(all[j].Key) == strip0(keyOf(old(sortedat(keys, i))))))
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(all) ==> (exists i int :: 0 <= i && i < len(all) && all[j].Id == strconv.Itoa(i) && string(all[j].Key) == strip0(keyOf(old(sortedat(keys, i))))))
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(all) ==> all[j].Index == j && all[j].Key != nil)
  ensures err == nil ==> (exists j int :: 0 <= j && j < len(all) && all[j] == local)
  ensures err == nil ==> (exists i int :: 0 <= i && i < len(all) && old(sortedat(keys, i)) == localPartyKey && local.Id == strconv.Itoa(i))

func conversion.SetupPartyIDMap(partiesID) (m) [C14]
  requires forall i int :: 0 <= i && i < len(partiesID) ==> partyOk(partiesID[i])
  nopanic [C07]
  ensures fresh(m)
  ensures forall k string :: k in m ==> (exists i int :: 0 <= i && i < len(partiesID) && partiesID[i].Id == k && m[k] == partiesID[i])
  ensures forall i int :: 0 <= i && i < len(partiesID) ==> partiesID[i].Id in m
  ensures forall i int, j int :: 0 <= i && i < len(partiesID) && 0 <= j && j < len(partiesID) && partiesID[i].Id != partiesID[j].Id ==> len(m) >= 2

define partyPeerOk(p) = p != nil && p.Key != nil && p.Index >= 0 && strip0(string(p.Key)) != "" && rawPeerOk(strip0(string(p.Key)))
func conversion.SetupIDMaps(parties, partyIDtoP2PID) (err) [C14]
  requires partyIDtoP2PID != nil
  requires forall k string :: k in parties && parties[k] != nil ==> parties[k].MessageWrapper_PartyID != nil
  modifies elems(partyIDtoP2PID)
  nopanic [C07]
  ensures err == nil <==> (forall k string :: k in parties ==> partyPeerOk(parties[k]))
  ensures err == nil ==> (forall k string :: k in parties ==> k in partyIDtoP2PID && partyIDtoP2PID[k] == rawPeer(strip0(string(parties[k].Key))))
  ensures forall k string :: !(k in parties) ==> (k in partyIDtoP2PID) == old(k in partyIDtoP2PID) && partyIDtoP2PID[k] == old(partyIDtoP2PID[k])

func conversion.GetPeersID(partyIDtoP2PID, localPeerID) (ps) [C14]
  requires len(partyIDtoP2PID) > 0
  nopanic [C07]
  ensures forall i int :: 0 <= i && i < len(ps) ==> ps[i].String() != localPeerID && (exists k string :: k in partyIDtoP2PID && partyIDtoP2PID[k] == ps[i])
  ensures forall k string :: k in partyIDtoP2PID && partyIDtoP2PID[k].String() != localPeerID ==> (exists i int :: 0 <= i && i < len(ps) && ps[i] == partyIDtoP2PID[k])
