import mapset github.com/deckarep/golang-set
// ---- who is blamed for a party that does not form and for a session that stalls (C08, C09) ----
define offline(key, online) = !(peerOf(key) in online)

func blame.Manager.NodeSyncBlame(m, keys, onlinePeers) (b, err) [C08]
  nopanic [C07]
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(keys) ==> peerOk(keys[i]))
  ensures b.FailReason == blame.TssSyncFail && !b.IsUnicast && b.blameLock != nil
  // only those that are offline, every one of them, in the order of the request
  ensures forall j int :: 0 <= j && j < len(b.BlameNodes) ==> len(b.BlameNodes[j].BlameData) == 0 && len(b.BlameNodes[j].BlameSignature) == 0
  ensures forall j int :: 0 <= j && j < len(b.BlameNodes) ==> (exists i int :: 0 <= i && i < len(keys) && keys[i] == b.BlameNodes[j].Pubkey && peerOk(keys[i]) && offline(keys[i], onlinePeers))
  ensures err == nil ==> (forall i int :: 0 <= i && i < len(keys) && offline(keys[i], onlinePeers) ==> (exists j int :: 0 <= j && j < len(b.BlameNodes) && b.BlameNodes[j].Pubkey == keys[i]))
  ensures err == nil ==> (forall i int, j int :: 0 <= i && i < j && j < len(keys) && offline(keys[i], onlinePeers) && offline(keys[j], onlinePeers) ==> (exists a int, c int :: 0 <= a && a < c && c < len(b.BlameNodes) && b.BlameNodes[a].Pubkey == keys[i] && b.BlameNodes[c].Pubkey == keys[j]))
  ensures len(b.BlameNodes) <= len(keys)
  ensures forall a int, c int :: 0 <= a && a < c && c < len(b.BlameNodes) ==> (exists i int, j int :: 0 <= i && i < j && j < len(keys) && keys[i] == b.BlameNodes[a].Pubkey && keys[j] == b.BlameNodes[c].Pubkey)

// sets (github.com/deckarep/golang-set)
ghost elts mapset.Set set[any]
extern github.com/deckarep/golang-set.NewSet(s) (r)
  nopanic
  ensures fresh(r) && (forall x any :: x in ghost(elts, r) <==> x in s)
extern github.com/deckarep/golang-set.NewSetFromSlice(s) (r)
  nopanic
  ensures fresh(r) && (forall x any :: x in ghost(elts, r) <==> x in s)
extern github.com/deckarep/golang-set.Set.Add(s, i) (r)
  modifies ghost(elts, s)
  nopanic
  ensures ghost(elts, s) == upd(old(ghost(elts, s)), i, true)
extern github.com/deckarep/golang-set.Set.Contains(s, i) (r)
  nopanic
  ensures r <==> (forall k int :: 0 <= k && k < len(i) ==> i[k] in ghost(elts, s))
extern github.com/deckarep/golang-set.Set.Difference(s, o) (r)
  nopanic
  ensures fresh(r) && (forall x any :: x in ghost(elts, r) <==> x in ghost(elts, s) && !(x in ghost(elts, o)))
extern github.com/deckarep/golang-set.Set.ToSlice(s) (r)
  nopanic
  ensures forall j int :: 0 <= j && j < len(r) ==> r[j] in ghost(elts, s)
  ensures forall x any :: x in ghost(elts, s) ==> x in r
  ensures forall i int, j int :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]

// the tables of a session: each party under its own identifier
define tableOK(tb) = forall k string :: k in tb ==> tb[k] != nil && tb[k].MessageWrapper_PartyID != nil && tb[k].Id == k
define delivered(m, round, id) = exists k string :: k in m.roundMgr.storedMsg && m.roundMgr.storedMsg[k].RoundInfo == round && m.roundMgr.storedMsg[k].Routing.From.Id == id
define anyStored(m, round) = exists k string :: k in m.roundMgr.storedMsg && m.roundMgr.storedMsg[k].RoundInfo == round
define missing(m, tb, round, id) = id in tb && id != m.localPartyID && !delivered(m, round, id)

func blame.Manager.tssTimeoutBlame(m, lastMessageType, partyIDMap) (r, err) [C09]
  requires m.roundMgr != nil && m.roundMgr.storeLocker != nil && storedOk(m) && m.partyInfo != nil
  requires tableOK(partyIDMap) && tableOK(m.partyInfo.PartyIDMap)
  nopanic [C07]
  ensures !anyStored(m, lastMessageType) ==> err == nil && len(r) == 0
  ensures err == nil && anyStored(m, lastMessageType) ==> (forall i int :: 0 <= i && i < len(r) ==> (exists k string :: missing(m, partyIDMap, lastMessageType, k) && k in m.partyInfo.PartyIDMap && r[i] == textOf(m.partyInfo.PartyIDMap[k].Key)))
  ensures err == nil && anyStored(m, lastMessageType) ==> (forall k string :: missing(m, partyIDMap, lastMessageType, k) ==> (exists i int :: 0 <= i && i < len(r) && r[i] == textOf(m.partyInfo.PartyIDMap[k].Key)))

define bareNode(n) = n.BlameData == nil && n.BlameSignature == nil
func blame.Manager.GetBroadcastBlame(m, lastMessageType) (r, err) [C09]
  requires m.roundMgr != nil && m.roundMgr.storeLocker != nil && storedOk(m) && m.partyInfo != nil
  requires tableOK(m.partyInfo.PartyIDMap)
  nopanic [C07]
  ensures !anyStored(m, lastMessageType) ==> err == nil && len(r) == 0
  ensures err == nil ==> (forall i int :: 0 <= i && i < len(r) ==> bareNode(r[i]) && (exists k string :: missing(m, m.partyInfo.PartyIDMap, lastMessageType, k) && r[i].Pubkey == textOf(m.partyInfo.PartyIDMap[k].Key)))
  ensures err == nil && anyStored(m, lastMessageType) ==> (forall k string :: missing(m, m.partyInfo.PartyIDMap, lastMessageType, k) ==> (exists i int :: 0 <= i && i < len(r) && r[i].Pubkey == textOf(m.partyInfo.PartyIDMap[k].Key)))

define inPeers(m, id, peers) = m.PartyIDtoP2PID[id].String() in peers
func blame.Manager.getBlamePubKeysInList(m, peers) (r, err) [C09]
  requires m.partyInfo != nil && tableOK(m.partyInfo.PartyIDMap)
  nopanic [C07]
define notIn(m, id, peers) = id in m.PartyIDtoP2PID && id != m.localPartyID && !inPeers(m, id, peers)
func blame.Manager.getBlamePubKeysNotInList(m, peers) (r, err) [C09]
  requires m.partyInfo != nil && tableOK(m.partyInfo.PartyIDMap)
  nopanic [C07]
  ensures err == nil ==> (forall i int :: 0 <= i && i < len(r) ==> (exists k string :: notIn(m, k, peers) && k in m.partyInfo.PartyIDMap && r[i] == textOf(m.partyInfo.PartyIDMap[k].Key)))
  ensures err == nil ==> (forall k string :: notIn(m, k, peers) ==> (exists i int :: 0 <= i && i < len(r) && r[i] == textOf(m.partyInfo.PartyIDMap[k].Key)))
func blame.Manager.GetBlamePubKeysLists(m, peer) (in, out, err) [C09]
  requires m.partyInfo != nil && tableOK(m.partyInfo.PartyIDMap)
  nopanic [C07]
  ensures err == nil ==> (forall i int :: 0 <= i && i < len(out) ==> (exists k string :: notIn(m, k, peer) && k in m.partyInfo.PartyIDMap && out[i] == textOf(m.partyInfo.PartyIDMap[k].Key)))
  ensures err == nil ==> (forall k string :: notIn(m, k, peer) ==> (exists i int :: 0 <= i && i < len(out) && out[i] == textOf(m.partyInfo.PartyIDMap[k].Key)))

define seenFrom(m, round, id) = exists i int :: 0 <= i && i < len(m.lastUnicastPeer[round]) && m.lastUnicastPeer[round][i].String() == m.PartyIDtoP2PID[id].String()
define silent(m, round, id) = id in m.PartyIDtoP2PID && id != m.localPartyID && !seenFrom(m, round, id)
func blame.Manager.GetUnicastBlame(m, lastMsgType) (r, err) [C09]
  requires m.lastMsgLocker != nil && m.partyInfo != nil && tableOK(m.partyInfo.PartyIDMap)
  nopanic [C07]
  locks [C23]
  ensures len(m.lastUnicastPeer) == 0 ==> err == nil && len(r) == 0
  ensures len(m.lastUnicastPeer) != 0 && !(lastMsgType in m.lastUnicastPeer) ==> err != nil
  ensures forall i int :: 0 <= i && i < len(r) ==> err == nil && bareNode(r[i]) && (exists k string :: silent(m, lastMsgType, k) && k in m.partyInfo.PartyIDMap && r[i].Pubkey == textOf(m.partyInfo.PartyIDMap[k].Key))
  ensures err == nil && lastMsgType in m.lastUnicastPeer ==> (forall k string :: silent(m, lastMsgType, k) ==> (exists i int :: 0 <= i && i < len(r) && r[i].Pubkey == textOf(m.partyInfo.PartyIDMap[k].Key)))

// nodes whose share of a round is missing although the round's other shares arrived
define another(m, pk) = exists k string :: k in m.PartyIDtoP2PID && k != m.localPartyID && k in m.partyInfo.PartyIDMap && pk == textOf(m.partyInfo.PartyIDMap[k].Key)
define roundsOk(m, rounds) = forall r blame.RoundInfo :: r in m.acceptedShares ==> 0 <= r.Index && r.Index < rounds
func blame.Manager.TssMissingShareBlame(m, rounds) (r, isUnicast, err) [C09]
  requires m.acceptShareLocker != nil && m.partyInfo != nil && tableOK(m.partyInfo.PartyIDMap) && rounds >= 0 && roundsOk(m, rounds)
  modifies anyelems([]string)
  nopanic [C07]
  locks [C23]
  ensures len(m.acceptedShares) == 0 ==> err == nil && len(r) == 0
  // members of the party only, never the local node, each once
  ensures forall i int :: 0 <= i && i < len(r) ==> bareNode(r[i]) && another(m, r[i].Pubkey)
  loopvar []blame.Node (l) forall i int :: 0 <= i && i < len(l) ==> bareNode(l[i]) && another(m, l[i].Pubkey)
