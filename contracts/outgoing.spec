// ---- outgoing shares (C22) ----
define wireOf(t, ty, l) = jsonenc(mk(messages.WireMessage, l[0].Routing, ty, jsonenc(l), res0(t.privateKey.Sign(jsonenc(l) + t.msgID))))
define sameList(a, b) = len(a) == len(b) && (forall i int :: 0 <= i && i < len(a) ==> a[i] == b[i])
func common.TssCommon.sendBulkMsg(t, wiredMsgType, tssMsgType, wiredMsgList) (err) [C22]
  requires t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel)
  requires t.P2PPeersLock != nil && t.privateKey != nil
  requires len(wiredMsgList) > 0 && wiredMsgList[0].Routing != nil
  requires forall i int :: 0 <= i && i < len(wiredMsgList[0].Routing.To) ==> wiredMsgList[0].Routing.To[i] != nil && wiredMsgList[0].Routing.To[i].MessageWrapper_PartyID != nil
  modifies sends(t.broadcastChannel)
  nopanic [C07]
  locks [C23]
  // exactly the given shares, signed by this node for this session
  atcall common.TssCommon.renderToP2P(t2, b) t2 == t && b.WrappedMessage.MessageType == tssMsgType && b.WrappedMessage.MsgID == t.msgID && string(b.WrappedMessage.Payload) == wireOf(t, wiredMsgType, wiredMsgList)
  // a share for everybody goes to every remote peer
  atcall common.TssCommon.renderToP2P(t2, b) len(wiredMsgList[0].Routing.To) == 0 ==> sameList(b.PeersID, t.P2PPeers)
  // and any other exactly to the peers of the named recipients
  atcall common.TssCommon.renderToP2P(t2, b) len(wiredMsgList[0].Routing.To) != 0 ==> (forall i int :: 0 <= i && i < len(b.PeersID) ==> (exists j int :: 0 <= j && j < len(wiredMsgList[0].Routing.To) && wiredMsgList[0].Routing.To[j].Id in t.PartyIDtoP2PID && t.PartyIDtoP2PID[wiredMsgList[0].Routing.To[j].Id] == b.PeersID[i]))
  atcall common.TssCommon.renderToP2P(t2, b) len(wiredMsgList[0].Routing.To) != 0 ==> (forall j int :: 0 <= j && j < len(wiredMsgList[0].Routing.To) && wiredMsgList[0].Routing.To[j].Id in t.PartyIDtoP2PID ==> (exists i int :: 0 <= i && i < len(b.PeersID) && t.PartyIDtoP2PID[wiredMsgList[0].Routing.To[j].Id] == b.PeersID[i]))
  ensures err == nil ==> t.broadcastChannel != nil ==> chansent(t.broadcastChannel) == old(chansent(t.broadcastChannel)) + 1

// the text before the first separator
declare firstPiece(string, string) string
axiom forall a string, b string, c string {firstPiece(a + b + c, b)} :: !hasPiece(a, b) ==> firstPiece(a + b + c, b) == a
declare hasPiece(string, string) bool
extern strings.Split(s, sep) (r)
  nopanic
  ensures sep != "" ==> len(r) > 0 && r[0] == firstPiece(s, sep)

// what the engine hands out
extern pure github.com/binance-chain/tss-lib/tss.Message.Type(m) (r)
  nopanic
extern pure github.com/binance-chain/tss-lib/tss.Message.GetFrom(m) (r)
  nopanic
  ensures r != nil && r.MessageWrapper_PartyID != nil
extern pure github.com/binance-chain/tss-lib/tss.Message.WireBytes(m) (b, r, err)
  nopanic
  ensures err == nil ==> r != nil && (!r.IsBroadcast ==> len(r.To) > 0) && (forall i int :: 0 <= i && i < len(r.To) ==> r.To[i] != nil && r.To[i].MessageWrapper_PartyID != nil)
extern pure github.com/binance-chain/tss-lib/tss.PartyID.String(p) (r)
  nopanic

define routeOk(r) = r != nil && (forall i int :: 0 <= i && i < len(r.To) ==> r.To[i] != nil && r.To[i].MessageWrapper_PartyID != nil)
define listOk(m, k) = is(k, string) && is(smval(m, k), []common.BulkWireMsg) && len(as(smval(m, k), []common.BulkWireMsg)) > 0 && routeOk(as(smval(m, k), []common.BulkWireMsg)[0].Routing)
define listsOk(m) = forall k any :: smhas(m, k) ==> listOk(m, k)
define outOk(t) = t.cachedWireBroadcastMsgLists != nil && t.cachedWireUnicastMsgLists != nil && t.cachedWireBroadcastMsgLists != t.cachedWireUnicastMsgLists && listsOk(t.cachedWireBroadcastMsgLists) && listsOk(t.cachedWireUnicastMsgLists)
define listAt(m, k) = as(smval(m, k), []common.BulkWireMsg)
define grown(m, k, msg) = smhas(m, k) ==> len(listAt(m, k)) == old(ite(smhas(m, k), len(listAt(m, k)), 0)) + 1 && string(listAt(m, k)[len(listAt(m, k)) - 1].WiredBulkMsgs) == string(res0(msg.WireBytes())) && listAt(m, k)[len(listAt(m, k)) - 1].Routing == res1(msg.WireBytes())
define kept(m, k) = smhas(m, k) ==> old(smhas(m, k)) && smval(m, k) == old(smval(m, k))
define uniKey(msg) = iface(msg.Type() + ":" + res1(msg.WireBytes()).To[0].String())
func common.TssCommon.ProcessOutCh(t, msg, msgType) (err) [C22]
  requires t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel)
  requires t.P2PPeersLock != nil && t.privateKey != nil && msg != nil && outOk(t)
  modifies sends(t.broadcastChannel), elems(t.cachedWireBroadcastMsgLists), elems(t.cachedWireUnicastMsgLists)
  nopanic [C07]
  locks [C23]
  atcall common.TssCommon.sendBulkMsg(t2, ty, mt, l) t2 == t && mt == msgType && len(l) == t.msgNum
  atcall common.TssCommon.sendBulkMsg(t2, ty, mt, l) exists k string :: (smhas(t.cachedWireBroadcastMsgLists, iface(k)) && smval(t.cachedWireBroadcastMsgLists, iface(k)) == iface(l) && ty == k) || (smhas(t.cachedWireUnicastMsgLists, iface(k)) && smval(t.cachedWireUnicastMsgLists, iface(k)) == iface(l) && ty == firstPiece(k, ":"))
  loopinv outOk(t)
  ensures outOk(t)
  // the share joins the batch of its type (and recipient); no other batch changes, and none is dropped unless it was complete and sent
  ensures err == nil && res1(msg.WireBytes()).IsBroadcast ==> grown(t.cachedWireBroadcastMsgLists, iface(msg.Type()), msg)
  ensures err == nil && !res1(msg.WireBytes()).IsBroadcast ==> grown(t.cachedWireUnicastMsgLists, uniKey(msg), msg)
  ensures forall k any :: !(err == nil && res1(msg.WireBytes()).IsBroadcast && k == iface(msg.Type())) ==> kept(t.cachedWireBroadcastMsgLists, k)
  ensures forall k any :: !(err == nil && !res1(msg.WireBytes()).IsBroadcast && k == uniKey(msg)) ==> kept(t.cachedWireUnicastMsgLists, k)
