import btss github.com/binance-chain/tss-lib/tss
import bkeygen github.com/binance-chain/tss-lib/ecdsa/keygen
import bsigning github.com/binance-chain/tss-lib/ecdsa/signing
// ---- records of what has been received, requested and accepted (C06, C26, C23) ----
guard blame.Manager.acceptedShares by blame.Manager.acceptShareLocker [C23]
guard blame.Manager.lastMsg by blame.Manager.lastMsgLocker [C23]
guard blame.Manager.lastUnicastPeer by blame.Manager.lastMsgLocker [C23]
guard blame.RoundMgr.storedMsg by blame.RoundMgr.storeLocker [C23]
guard blame.ShareMgr.requested by blame.ShareMgr.reqLocker [C23]

define accepted(m, round, id) = id in m.acceptedShares[round]

func blame.Manager.UpdateAcceptShare(m, round, id) () [C06]
  requires m.acceptShareLocker != nil && m.acceptedShares != nil
  modifies elems(m.acceptedShares)
  nopanic [C07]
  locks [C23]
  ensures round in m.acceptedShares && len(m.acceptedShares[round]) == old(len(m.acceptedShares[round])) + 1 && m.acceptedShares[round][old(len(m.acceptedShares[round]))] == id
  ensures forall i int :: 0 <= i && i < old(len(m.acceptedShares[round])) ==> m.acceptedShares[round][i] == old(m.acceptedShares[round][i])
  ensures forall r blame.RoundInfo :: r != round ==> (r in m.acceptedShares) == old(r in m.acceptedShares) && m.acceptedShares[r] == old(m.acceptedShares[r])

func blame.Manager.CheckMsgDuplication(m, round, id) (r) [C06]
  requires m.acceptShareLocker != nil
  nopanic [C07]
  locks [C23]
  ensures r <==> accepted(m, round, id)

func blame.Manager.SetLastMsg(m, lastMsg) () [C09]
  requires m.lastMsgLocker != nil
  modifies m.lastMsg
  nopanic [C07]
  locks [C23]
  ensures m.lastMsg == lastMsg
func blame.Manager.GetLastMsg(m) (r) [C09]
  requires m.lastMsgLocker != nil
  nopanic [C07]
  locks [C23]
  ensures r == m.lastMsg

func blame.Manager.SetLastUnicastPeer(m, peerID, roundInfo) () [C09]
  requires m.lastMsgLocker != nil && m.lastUnicastPeer != nil
  modifies elems(m.lastUnicastPeer)
  nopanic [C07]
  locks [C23]
  ensures roundInfo in m.lastUnicastPeer && len(m.lastUnicastPeer[roundInfo]) == old(len(m.lastUnicastPeer[roundInfo])) + 1 && m.lastUnicastPeer[roundInfo][old(len(m.lastUnicastPeer[roundInfo]))] == peerID
  ensures forall i int :: 0 <= i && i < old(len(m.lastUnicastPeer[roundInfo])) ==> m.lastUnicastPeer[roundInfo][i] == old(m.lastUnicastPeer[roundInfo][i])
  ensures forall r string :: r != roundInfo ==> (r in m.lastUnicastPeer) == old(r in m.lastUnicastPeer) && m.lastUnicastPeer[r] == old(m.lastUnicastPeer[r])

func blame.Manager.GetBlame(m) (r)
  nopanic [C07]
  ensures r == m.blame
func blame.Manager.GetShareMgr(m) (r)
  nopanic [C07]
  ensures r == m.shareMgr
func blame.Manager.GetRoundMgr(m) (r)
  nopanic [C07]
  ensures r == m.roundMgr

func blame.RoundMgr.Get(tr, key) (r) [C26]
  requires tr.storeLocker != nil
  nopanic [C07]
  locks [C23]
  ensures r == ite(key in tr.storedMsg, tr.storedMsg[key], nil)
func blame.RoundMgr.Set(tr, key, msg) () [C26]
  requires tr.storeLocker != nil && tr.storedMsg != nil
  modifies elems(tr.storedMsg)
  nopanic [C07]
  locks [C23]
  ensures key in tr.storedMsg && tr.storedMsg[key] == msg
  ensures forall k string :: k != key ==> (k in tr.storedMsg) == old(k in tr.storedMsg) && tr.storedMsg[k] == old(tr.storedMsg[k])
func blame.ShareMgr.Set(sm, key) () [C26]
  requires sm.reqLocker != nil && sm.requested != nil
  modifies elems(sm.requested)
  nopanic [C07]
  locks [C23]
  ensures key in sm.requested && sm.requested[key]
  ensures forall k string :: k != key ==> (k in sm.requested) == old(k in sm.requested) && sm.requested[k] == old(sm.requested[k])
func blame.ShareMgr.QueryAndDelete(sm, key) (r) [C26]
  requires sm.reqLocker != nil
  modifies elems(sm.requested)
  nopanic [C07]
  locks [C23]
  // asked for, and not twice
  ensures r <==> old(sm.requested[key])
  ensures !(key in sm.requested) && !sm.requested[key]
  ensures forall k string :: k != key ==> (k in sm.requested) == old(k in sm.requested) && sm.requested[k] == old(sm.requested[k])
func blame.RoundMgr.GetByRound(tr, roundInfo) (r) [C09]
  requires tr.storeLocker != nil
  requires forall k string :: k in tr.storedMsg ==> msgOK(tr.storedMsg[k])
  nopanic [C07]
  locks [C23]
  // the origins of the stored messages of the round
  ensures forall i int :: 0 <= i && i < len(r) ==> (exists k string :: k in tr.storedMsg && tr.storedMsg[k].RoundInfo == roundInfo && tr.storedMsg[k].Routing.From.Id == r[i])
  ensures forall k string :: k in tr.storedMsg && tr.storedMsg[k].RoundInfo == roundInfo ==> (exists i int :: 0 <= i && i < len(r) && r[i] == tr.storedMsg[k].Routing.From.Id)

define routingOK(r) = r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
define msgOK(m) = m != nil && routingOK(m.Routing)

func common.isRoutingComplete(r) (ok) [C07]
  nopanic [C07]
  ensures ok <==> routingOK(r)
