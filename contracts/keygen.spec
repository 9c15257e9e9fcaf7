// ---- key generation: constructors and the protocol loop (C30; the invariants of a session hold from the start) ----
import keygen gitlab.com/thorchain/tss/go-tss/keygen

func blame.NewTssRoundMgr() (r) [C26]
  nopanic [C07]
  ensures fresh(r) && fresh(r.storeLocker) && fresh(r.storedMsg) && len(r.storedMsg) == 0
func blame.NewTssShareMgr() (r) [C26]
  nopanic [C07]
  ensures fresh(r) && fresh(r.reqLocker) && fresh(r.requested) && len(r.requested) == 0
func blame.NewBlameManager() (m) [C06, C26]
  nopanic [C07]
  ensures fresh(m) && mgrOK(m) && fresh(m.blame) && fresh(m.acceptedShares) && fresh(m.lastUnicastPeer) && fresh(m.PartyIDtoP2PID) && fresh(m.roundMgr) && fresh(m.shareMgr) && fresh(m.roundMgr.storedMsg) && fresh(m.shareMgr.requested)
  ensures len(m.acceptedShares) == 0 && len(m.roundMgr.storedMsg) == 0 && len(m.shareMgr.requested) == 0 && len(m.lastUnicastPeer) == 0 && m.partyInfo == nil && len(m.PartyIDtoP2PID) == 0
  ensures len(m.blame.BlameNodes) == 0

// a new session is in a sound state: nothing confirmed, nothing accepted, nobody finished
func common.NewTssCommon(peerID, broadcastChannel, conf, msgID, privKey, msgNum) (t) [C05, C06, C24, C26]
  requires msgNum >= 0
  requires broadcastChannel != nil ==> !chanclosed(broadcastChannel)
  nopanic [C07]
  ensures fresh(t) && tssOK(t) && infoOK(t.partyInfo) && partyKnown(t)
  ensures storedOk(t.blameMgr)
  ensures itemsOk(t)
  ensures doneOk(t)
  ensures outOk(t)
  ensures t.msgID == msgID && t.localPeerID == peerID && t.broadcastChannel == broadcastChannel && t.msgNum == msgNum && t.partyInfo == nil && t.privateKey == privKey
  ensures len(t.unConfirmedMessages) == 0 && len(t.finishedPeers) == 0 && len(t.culprits) == 0 && len(t.PartyIDtoP2PID) == 0 && !chanclosed(t.taskDone)
  ensures fresh(t.blameMgr) && fresh(t.blameMgr.blame) && fresh(t.PartyIDtoP2PID) && fresh(t.blameMgr.PartyIDtoP2PID) && t.blameMgr.partyInfo == nil && len(t.blameMgr.acceptedShares) == 0

// the group keys whose share the store has saved
ghost stored global set[any]
extern storage.LocalStateManager.SaveLocalState(m, state) (err)
  modifies ghost(stored)
  nopanic
  ensures err == nil ==> ghost(stored) == upd(old(ghost(stored)), iface(state.LocalData.ECDSAPub), true)
  ensures err != nil ==> ghost(stored) == old(ghost(stored))
extern storage.LocalStateManager.SaveAddressBook(m, book) (err)
  nopanic
chaninv lkeygen.LocalPartySaveData (v) v.ECDSAPub != nil
chaninv btss.Message (m) m != nil

// the engine's view of the session: what blame needs
define blamable(t) = t.blameMgr != nil && mgrOK(t.blameMgr) && storedOk(t.blameMgr) && t.blameMgr.partyInfo != nil && tableOK(t.blameMgr.partyInfo.PartyIDMap)
define running(t) = t != nil && blamable(t) && outOk(t) && t.P2PPeersLock != nil && t.privateKey != nil && (t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel))

func common.TssCommon.NotifyTaskDone(t) (err) [C24]
  requires t.P2PPeersLock != nil && (t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel))
  modifies sends(t.broadcastChannel)
  nopanic [C07]
  locks [C23]

func keygen.TssKeyGen.processKeyGen(k, errChan, outCh, endCh, item) (r, err) [C30]
  requires mgrOK(k.tssCommonStruct.blameMgr)
  requires storedOk(k.tssCommonStruct.blameMgr)
  requires k.tssCommonStruct.blameMgr.partyInfo != nil && tableOK(k.tssCommonStruct.blameMgr.partyInfo.PartyIDMap)
  requires outOk(k.tssCommonStruct)
  requires running(k.tssCommonStruct) && k.stateManager != nil && k.p2pComm != nil && k.p2pComm.host != nil
  // meanwhile the inbound side updates the session's records; the engine accepts shares of its own rounds only
  awaits anymap(map[string]string), elems(k.tssCommonStruct.blameMgr.roundMgr.storedMsg), elems(k.tssCommonStruct.blameMgr.lastUnicastPeer), elems(k.tssCommonStruct.blameMgr.acceptedShares), k.tssCommonStruct.blameMgr.blame.FailReason, k.tssCommonStruct.blameMgr.blame.IsUnicast, k.tssCommonStruct.blameMgr.blame.BlameNodes
  rely running(k.tssCommonStruct) && roundsOk(k.tssCommonStruct.blameMgr, messages.TSSKEYGENROUNDS)
  modifies anyelems([]string), anymap(map[string]string), elems(k.tssCommonStruct.blameMgr.roundMgr.storedMsg), elems(k.tssCommonStruct.blameMgr.lastUnicastPeer), elems(k.tssCommonStruct.blameMgr.acceptedShares), sends(k.tssCommonStruct.broadcastChannel), elems(k.tssCommonStruct.cachedWireBroadcastMsgLists), elems(k.tssCommonStruct.cachedWireUnicastMsgLists), k.tssCommonStruct.blameMgr.lastMsg, k.tssCommonStruct.blameMgr.blame.FailReason, k.tssCommonStruct.blameMgr.blame.IsUnicast, k.tssCommonStruct.blameMgr.blame.BlameNodes, ghost(stored)
  nopanic [C07]
  locks [C23]
  loopinv running(k.tssCommonStruct) && ghost(stored) == old(ghost(stored))
  // completion is announced when the share has been saved
  atcall common.TssCommon.NotifyTaskDone(t) t == k.tssCommonStruct && iface(lastrecv(lkeygen.LocalPartySaveData).ECDSAPub) in ghost(stored)
  // the share is saved under the group key, with the request's participants
  atcall storage.LocalStateManager.SaveLocalState(m, s) m == k.stateManager && sameList(s.ParticipantKeys, item.ParticipantKeys) && s.LocalPartyKey == item.LocalPartyKey && s.LocalData.ECDSAPub == lastrecv(lkeygen.LocalPartySaveData).ECDSAPub && (onCurve(s.LocalData.ECDSAPub) ==> s.PubKey == textOf(pointKey(s.LocalData.ECDSAPub)))
  ensures err == nil ==> r != nil && iface(r) in ghost(stored)
  ensures err != nil ==> r == nil
extern pure github.com/binance-chain/tss-lib/tss.Message.String(m) (r)
  nopanic
import pstore github.com/libp2p/go-libp2p-core/peerstore
extern github.com/libp2p/go-libp2p-core/host.Host.Peerstore(h) (s)
  nopanic
  ensures s != nil
extern github.com/libp2p/go-libp2p-core/peerstore.Peerstore.Peers(s) (ps)
  nopanic
extern github.com/libp2p/go-libp2p-core/peerstore.AddrBook.Addrs(s, p) (r)
  nopanic
func p2p.Communication.ExportPeerAddress(c) (r) [C30]
  requires c.host != nil
  nopanic
transparent github.com/binance-chain/tss-lib/ecdsa/keygen.LocalPartySaveData github.com/binance-chain/tss-lib/ecdsa/keygen.LocalPreParams github.com/binance-chain/tss-lib/ecdsa/keygen.LocalSecrets
extern math/big.Int.String(x) (r)
  nopanic

extern github.com/binance-chain/tss-lib/tss.NewPeerContext(parties) (c)
  nopanic
  ensures fresh(c)
extern github.com/binance-chain/tss-lib/tss.NewParameters(ctx, id, n, t, opt) (p)
  nopanic
  ensures fresh(p)
extern github.com/binance-chain/tss-lib/ecdsa/keygen.NewLocalParty(params, out, end, pre) (p)
  nopanic
  ensures is(p, btss.Party)
extern github.com/binance-chain/tss-lib/tss.Party.Start(p) (err)
  nopanic
define aParty(pm) = exists k any :: smhas(pm, k)
func blame.Manager.SetPartyInfo(m, partyMap, partyIDMap) () [C09]
  requires partyMap != nil && aParty(partyMap) && (forall k any :: smhas(partyMap, k) ==> is(smval(partyMap, k), btss.Party))
  modifies m.partyInfo, m.localPartyID
  nopanic [C07]
  ensures fresh(m.partyInfo) && m.partyInfo.PartyMap == partyMap && m.partyInfo.PartyIDMap == partyIDMap
  // the local node is who the parties run for
  ensures exists k any :: smhas(partyMap, k) && m.localPartyID == as(smval(partyMap, k), btss.Party).PartyID().Id

func keygen.NewTssKeyGen(localP2PID, conf, localNodePubKey, broadcastChan, stopChan, preParam, msgID, stateManager, privateKey, p2pComm) (k) [C30]
  requires broadcastChan != nil ==> !chanclosed(broadcastChan)
  nopanic [C07]
  ensures fresh(k) && k.preParams == preParam && k.localNodePubKey == localNodePubKey && k.stateManager == stateManager && k.p2pComm == p2pComm && k.stopChan == stopChan
  ensures fresh(k.tssCommonStruct) && sound(k.tssCommonStruct) && doneOk(k.tssCommonStruct) && outOk(k.tssCommonStruct) && k.tssCommonStruct.partyInfo == nil && k.tssCommonStruct.msgID == msgID && k.tssCommonStruct.localPeerID == localP2PID && k.tssCommonStruct.broadcastChannel == broadcastChan && k.tssCommonStruct.privateKey == privateKey
  ensures k.tssCommonStruct.PartyIDtoP2PID != nil && k.tssCommonStruct.blameMgr.PartyIDtoP2PID != nil && len(k.tssCommonStruct.unConfirmedMessages) == 0 && len(k.tssCommonStruct.finishedPeers) == 0 && !chanclosed(k.tssCommonStruct.taskDone)
  ensures len(k.tssCommonStruct.blameMgr.acceptedShares) == 0 && fresh(k.commStopChan) && !chanclosed(k.commStopChan) && k.commStopChan != k.tssCommonStruct.taskDone && k.commStopChan != broadcastChan

define committeeThreshold(n) = (2 * n + 2) / 3 - 1
func keygen.TssKeyGen.GenerateNewKey(k, req) (r, err) [C30]
  requires k.tssCommonStruct != nil && sound(k.tssCommonStruct) && doneOk(k.tssCommonStruct) && outOk(k.tssCommonStruct) && k.tssCommonStruct.partyInfo == nil && k.tssCommonStruct.privateKey != nil
  requires k.tssCommonStruct.PartyIDtoP2PID != nil && k.tssCommonStruct.blameMgr.PartyIDtoP2PID != nil
  requires len(k.tssCommonStruct.blameMgr.acceptedShares) == 0
  requires k.commStopChan != nil && k.commStopChan != k.tssCommonStruct.taskDone && k.commStopChan != k.tssCommonStruct.broadcastChannel && !chanclosed(k.commStopChan) && k.stateManager != nil && k.p2pComm != nil && k.p2pComm.host != nil
  requires len(k.tssCommonStruct.unConfirmedMessages) == 0
  requires len(k.tssCommonStruct.finishedPeers) == 0
  requires !chanclosed(k.tssCommonStruct.taskDone)
  modifies k.tssCommonStruct.partyInfo, k.tssCommonStruct.P2PPeers, chan(k.commStopChan), chan(k.tssCommonStruct.taskDone), sends(k.tssCommonStruct.broadcastChannel)
  modifies anyelems(string), anyelems([]string), anysyncmap, anyof(btss.PartyID.Index), anymap(map[string]peer.ID), anymap(map[string][]peer.ID), anymap(map[string]string), anymap(map[string]bool), anymap(map[string]*messages.WireMessage), anymap(map[string]*common.LocalCacheItem), anymap(map[blame.RoundInfo][]string)
  modifies anyof(blame.Blame.BlameNodes), anyof(blame.Blame.FailReason), anyof(blame.Blame.IsUnicast), anyof(blame.Manager.lastMsg), anyof(blame.Manager.localPartyID), anyof(blame.Manager.partyInfo), anyof(common.LocalCacheItem), anyof(common.TssCommon.culprits), ghost(stored), anyghost(updFrom), anyghost(updOk), anyghost(updParty), anyghost(updWire)
  nopanic [C07]
  locks [C23]
  // the engine is given the whole committee and its two-thirds threshold
  atcall github.com/binance-chain/tss-lib/tss.NewParameters(ctx, id, n, t, opt) [C01] n == len(req.Keys) && t == committeeThreshold(n)
  ensures err == nil ==> r != nil && iface(r) in ghost(stored)
