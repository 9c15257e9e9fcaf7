// ---- the cache of broadcast shares of a session (C03, C04, C05, C26) ----
func common.TssCommon.TryGetLocalCacheItem(t, key) (r) [C05]
  requires t.unConfirmedMsgLock != nil
  nopanic [C07]
  locks [C23]
  ensures r == ite(key in t.unConfirmedMessages, t.unConfirmedMessages[key], nil)
func common.TssCommon.TryGetAllLocalCached(t) (r) [C05]
  requires t.unConfirmedMsgLock != nil
  nopanic [C07]
  locks [C23]
  ensures len(r) == len(t.unConfirmedMessages)
  ensures forall i int :: 0 <= i && i < len(r) ==> (exists k string :: k in t.unConfirmedMessages && t.unConfirmedMessages[k] == r[i])
func common.TssCommon.updateLocalUnconfirmedMessages(t, key, cacheItem) () [C05]
  requires t.unConfirmedMsgLock != nil && t.unConfirmedMessages != nil
  modifies elems(t.unConfirmedMessages)
  nopanic [C07]
  locks [C23]
  ensures key in t.unConfirmedMessages && t.unConfirmedMessages[key] == cacheItem
  ensures forall k string :: k != key ==> (k in t.unConfirmedMessages) == old(k in t.unConfirmedMessages) && t.unConfirmedMessages[k] == old(t.unConfirmedMessages[k])
func common.TssCommon.removeKey(t, key) () [C05]
  requires t.unConfirmedMsgLock != nil
  modifies elems(t.unConfirmedMessages)
  nopanic [C07]
  locks [C23]
  ensures !(key in t.unConfirmedMessages)
  ensures forall k string :: k != key ==> (k in t.unConfirmedMessages) == old(k in t.unConfirmedMessages) && t.unConfirmedMessages[k] == old(t.unConfirmedMessages[k])

// an item holds nothing but a broadcast message its owner signed, and the hash of that message
define itemOk(t, it) = it != nil && it.lock != nil && it.ConfirmedList != nil && (it.Msg != nil ==> routingOK(it.Msg.Routing) && it.Msg.Routing.IsBroadcast && (t.partyInfo != nil ==> sigok(t, it.Msg)) && it.Hash == hexsha(string(it.Msg.Message)))
// each share has an item of its own
define itemsOk(t) = (forall k string :: k in t.unConfirmedMessages ==> itemOk(t, t.unConfirmedMessages[k])) && (forall k string, l string :: k in t.unConfirmedMessages && l in t.unConfirmedMessages && k != l ==> t.unConfirmedMessages[k] != t.unConfirmedMessages[l] && t.unConfirmedMessages[k].ConfirmedList != t.unConfirmedMessages[l].ConfirmedList)
define storedOk(m) = forall k string :: k in m.roundMgr.storedMsg ==> msgOK(m.roundMgr.storedMsg[k])
define partyKnown(t) = t.partyInfo != nil ==> t.blameMgr.partyInfo != nil && t.blameMgr.partyInfo.PartyIDMap == t.partyInfo.PartyIDMap

func common.generateSignature(msg, msgID, privKey) (sig, err) [C22]
  requires privKey != nil
  nopanic [C07]
  ensures err == res1(privKey.Sign(string(msg) + msgID)) && string(sig) == res0(privKey.Sign(string(msg) + msgID))
func common.verifySignature(pubKey, message, sig, msgID) (ok) [C03]
  requires pubKey != nil
  nopanic [C07]
  ensures ok <==> pubKey.VerifySignature(string(message) + msgID, sig)

func blame.Manager.TssWrongShareBlame(m, wiredMsg) (pk, err) [C04]
  requires m.partyInfo != nil && partiesOK(m.partyInfo.PartyIDMap) && msgOK(wiredMsg)
  nopanic [C07]
  // the owner of the message
  ensures err == nil ==> wiredMsg.Routing.From.Id in m.partyInfo.PartyIDMap && pk == textOf(m.partyInfo.PartyIDMap[wiredMsg.Routing.From.Id].Key)

func common.TssCommon.renderToP2P(t, broadcastMsg) () [C22]
  requires broadcastMsg != nil
  requires t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel)
  modifies sends(t.broadcastChannel)
  nopanic [C07]
  onsend *messages.BroadcastMsgChan (m) m == broadcastMsg
  ensures t.broadcastChannel != nil ==> chansent(t.broadcastChannel) == old(chansent(t.broadcastChannel)) + 1

// ---- missing shares (C26) ----
func common.TssCommon.processRequestMsgFromPeer(t, peersID, msg, requester) (err) [C26]
  requires tssOK(t)
  modifies msg.Msg, sends(t.broadcastChannel)
  nopanic [C07]
  locks [C23]
  // what is sent is the request, or the stored share of the requested key, to the given peers only
  atcall common.TssCommon.renderToP2P(t2, b) t2 == t && sameList(b.PeersID, peersID) && b.WrappedMessage.MessageType == messages.TSSControlMsg && b.WrappedMessage.MsgID == t.msgID && string(b.WrappedMessage.Payload) == jsonenc(msg)
  atcall common.TssCommon.renderToP2P(t2, b) requester ==> msg.Msg == old(msg.Msg)
  atcall common.TssCommon.renderToP2P(t2, b) !requester ==> msg.Msg != nil && msg.ReqKey in t.blameMgr.roundMgr.storedMsg && msg.Msg == t.blameMgr.roundMgr.storedMsg[msg.ReqKey]

define plurality(item, h) = forall g string :: count(item.ConfirmedList, g) <= count(item.ConfirmedList, h)
func common.TssCommon.requestShareFromPeer(t, localCacheItem, threshold, key, msgType) (err) [C26]
  requires tssOK(t) && localCacheItem != nil && localCacheItem.lock != nil
  modifies elems(t.blameMgr.shareMgr.requested), sends(t.broadcastChannel)
  nopanic [C07]
  locks [C23]
  // the hash most members confirmed is asked for, and only what has been asked for is remembered
  atcall common.TssCommon.processRequestMsgFromPeer(t2, peers, m, req) t2 == t && req && m.Msg == nil && m.ReqKey == key && m.ReqHash in t.blameMgr.shareMgr.requested && t.blameMgr.shareMgr.requested[m.ReqHash]
  atcall common.TssCommon.processRequestMsgFromPeer(t2, peers, m, req) plurality(localCacheItem, m.ReqHash) && count(localCacheItem.ConfirmedList, m.ReqHash) >= threshold - 1
  atcall common.TssCommon.processRequestMsgFromPeer(t2, peers, m, req) m.RequestType == ite(msgType == messages.TSSKeyGenVerMsg || msgType == messages.TSSKeyGenMsg, messages.TSSKeyGenMsg, messages.TSSKeySignMsg)
  // of exactly the peers which confirmed it
  atcall common.TssCommon.processRequestMsgFromPeer(t2, peers, m, req) forall i int :: 0 <= i && i < len(peers) ==> (exists p string :: p in localCacheItem.ConfirmedList && localCacheItem.ConfirmedList[p] == m.ReqHash && peers[i] == res0(peer.Decode(p)))
  atcall common.TssCommon.processRequestMsgFromPeer(t2, peers, m, req) forall p string :: p in localCacheItem.ConfirmedList && localCacheItem.ConfirmedList[p] == m.ReqHash ==> res0(peer.Decode(p)) in peers
  ensures forall h string :: !old(t.blameMgr.shareMgr.requested[h]) && t.blameMgr.shareMgr.requested[h] ==> plurality(localCacheItem, h)
  ensures err == nil && (msgType == messages.TSSKeyGenVerMsg || msgType == messages.TSSKeySignVerMsg || msgType == messages.TSSKeyGenMsg || msgType == messages.TSSKeySignMsg) && len(localCacheItem.ConfirmedList) > 0 && (exists h string :: count(localCacheItem.ConfirmedList, h) >= threshold - 1) ==> (exists h string :: plurality(localCacheItem, h) && t.blameMgr.shareMgr.requested[h])

// ---- applying a confirmed share (C04) ----
define enough(t, item, threshold) = item.Msg != nil && item.Msg.Routing.From.Id in t.PartyIDtoP2PID && !(owner(t, item) in item.ConfirmedList) && len(item.ConfirmedList) >= threshold && count(item.ConfirmedList, hexsha(string(item.Msg.Message))) >= threshold - 1 && plurality(item, hexsha(string(item.Msg.Message)))
func common.TssCommon.applyShare(t, localCacheItem, threshold, key, msgType) (err) [C04]
  requires tssOK(t) && infoOK(t.partyInfo) && t.partyInfo != nil && partyKnown(t) && storedOk(t.blameMgr)
  requires localCacheItem != nil && localCacheItem.Msg != nil && itemOk(t, localCacheItem)
  requires [C01] 3 * (threshold + 1) >= 2 * len(t.partyInfo.PartyIDMap)
  modifies elems(localCacheItem.ConfirmedList), localCacheItem.Msg, elems(t.unConfirmedMessages), elems(t.blameMgr.roundMgr.storedMsg), elems(t.blameMgr.shareMgr.requested), sends(t.broadcastChannel)
  modifies elems(t.blameMgr.lastUnicastPeer), elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  nopanic [C07]
  locks [C23]
  // nothing but what the committee echoed
  atcall common.TssCommon.updateLocal(t2, w) t2 == t && w == localCacheItem.Msg && enough(t, localCacheItem, threshold)
  // served to others only when it has been confirmed
  atcall blame.RoundMgr.Set(rm, k, w) [C04, C26] w == localCacheItem.Msg && k == key && enough(t, localCacheItem, threshold)
  // a minority share is dropped and the right one asked for; a share which lost otherwise is blamed on its owner
  atcall common.TssCommon.requestShareFromPeer(t2, it, th, k, ty) [C04, C26] t2 == t && it == localCacheItem && th == threshold && k == key && ty == msgType && it.Msg == nil
  ensures err == nil && old(len(localCacheItem.ConfirmedList)) >= threshold ==> !(key in t.unConfirmedMessages) || localCacheItem.Msg == nil
  ensures err != nil && localCacheItem.Msg != nil ==> localCacheItem.Msg == old(localCacheItem.Msg)
  ensures err == blame.ErrHashCheck && localCacheItem.Msg != nil ==> t.blameMgr.blame.FailReason == blame.HashCheckFail && len(t.blameMgr.blame.BlameNodes) == old(len(t.blameMgr.blame.BlameNodes)) + 1
  ensures storedOk(t.blameMgr)
  ensures localCacheItem.Msg == nil || localCacheItem.Msg == old(localCacheItem.Msg)
  ensures forall k string :: k != key ==> (k in t.unConfirmedMessages) == old(k in t.unConfirmedMessages) && t.unConfirmedMessages[k] == old(t.unConfirmedMessages[k])
  ensures key in t.unConfirmedMessages ==> old(key in t.unConfirmedMessages) && t.unConfirmedMessages[key] == old(t.unConfirmedMessages[key])

define sound(t) = tssOK(t) && infoOK(t.partyInfo) && partyKnown(t) && storedOk(t.blameMgr) && itemsOk(t)

// ---- telling the others what was received (C22) ----
func common.getBroadcastMessageType(msgType) (r) [C22]
  nopanic [C07]
  ensures r == ite(msgType == messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg, ite(msgType == messages.TSSKeySignMsg, messages.TSSKeySignVerMsg, messages.Unknown))
func common.TssCommon.broadcastHashToPeers(t, key, msgHash, peerIDs, msgType) (err) [C22]
  requires t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel)
  modifies sends(t.broadcastChannel)
  nopanic [C07]
  ensures len(peerIDs) == 0 ==> err != nil
  atcall common.TssCommon.renderToP2P(t2, b) t2 == t && sameList(b.PeersID, peerIDs) && b.WrappedMessage.MessageType == msgType && b.WrappedMessage.MsgID == t.msgID && string(b.WrappedMessage.Payload) == jsonenc(mk(messages.BroadcastConfirmMessage, "", key, msgHash))
func common.TssCommon.receiverBroadcastHashToPeers(t, wireMsg, msgType) (err) [C22]
  requires tssOK(t) && msgOK(wireMsg)
  modifies sends(t.broadcastChannel)
  nopanic [C07]
  locks [C23]
  // every remote peer but the owner learns the hash of the bytes received
  atcall common.TssCommon.broadcastHashToPeers(t2, key, h, peers, ty) t2 == t && h == hexsha(string(wireMsg.Message)) && key == wireMsg.Routing.From.Id + "-" + wireMsg.RoundInfo
  atcall common.TssCommon.broadcastHashToPeers(t2, key, h, peers, ty) wireMsg.Routing.From.Id in t.PartyIDtoP2PID && (forall i int :: 0 <= i && i < len(peers) ==> peers[i] != t.PartyIDtoP2PID[wireMsg.Routing.From.Id] && peers[i] in t.P2PPeers)
  atcall common.TssCommon.broadcastHashToPeers(t2, key, h, peers, ty) forall i int :: 0 <= i && i < len(t.P2PPeers) && t.P2PPeers[i] != t.PartyIDtoP2PID[wireMsg.Routing.From.Id] ==> t.P2PPeers[i] in peers

// ---- one message of a peer (C03, C04, C05) ----
define cacheKey(w) = w.Routing.From.Id + "-" + w.RoundInfo
func common.TssCommon.processTSSMsg(t, wireMsg, msgType, forward) (err) [C03, C04]
  requires sound(t)
  modifies anymap(map[string]string), anyof(common.LocalCacheItem.Msg), anyof(common.LocalCacheItem.Hash), elems(t.unConfirmedMessages), elems(t.blameMgr.roundMgr.storedMsg), elems(t.blameMgr.shareMgr.requested), sends(t.broadcastChannel)
  modifies elems(t.blameMgr.lastUnicastPeer), elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  nopanic [C07]
  locks [C23]
  // only a unicast message goes to the engine without confirmations
  atcall common.TssCommon.updateLocal(t2, w) [C03, C04] t2 == t && w == wireMsg && !w.Routing.IsBroadcast
  // refused as long as the member it names has not signed it
  ensures [C03] !msgOK(wireMsg) || old(t.partyInfo) == nil || !old(sigok(t, wireMsg)) ==> err != nil && (forall k string :: (k in t.unConfirmedMessages) == old(k in t.unConfirmedMessages) && t.unConfirmedMessages[k] == old(t.unConfirmedMessages[k]))
  // this node votes for what it keeps
  atcall common.LocalCacheItem.UpdateConfirmList(l, p, h) [C04, C05] p == t.localPeerID && h == l.Hash && l.Msg != nil && h == hexsha(string(l.Msg.Message))
  atcall common.TssCommon.applyShare(t2, it, th, key, ty) [C04] key == cacheKey(wireMsg) && it == t.unConfirmedMessages[key] && ty == msgType
  atcall common.TssCommon.receiverBroadcastHashToPeers(t2, w, ty) [C22] w == wireMsg && ty == msgType && !forward
  ensures tssOK(t) && infoOK(t.partyInfo) && partyKnown(t)
  ensures storedOk(t.blameMgr)
  ensures itemsOk(t)
  // other shares are not affected
  ensures [C05] wireMsg != nil && routingOK(wireMsg.Routing) ==> (forall k string :: k != old(cacheKey(wireMsg)) ==> (k in t.unConfirmedMessages) == old(k in t.unConfirmedMessages) && t.unConfirmedMessages[k] == old(t.unConfirmedMessages[k]))
  ensures [C05] wireMsg != nil && routingOK(wireMsg.Routing) ==> (forall k string, p string :: k != old(cacheKey(wireMsg)) && k in t.unConfirmedMessages ==> (p in t.unConfirmedMessages[k].ConfirmedList) == old(p in t.unConfirmedMessages[k].ConfirmedList) && t.unConfirmedMessages[k].ConfirmedList[p] == old(t.unConfirmedMessages[k].ConfirmedList[p]))

func common.TssCommon.isPartyPeer(t, peerID) (r) [C05]
  nopanic [C07]
  ensures r <==> (exists k string :: k in t.PartyIDtoP2PID && t.PartyIDtoP2PID[k].String() == peerID)
define member(t, peerID) = exists k string :: k in t.PartyIDtoP2PID && t.PartyIDtoP2PID[k].String() == peerID
define voted(t, key, peerID) = key in t.unConfirmedMessages && peerID in t.unConfirmedMessages[key].ConfirmedList

// a vote counts once, and only that of a member
func common.TssCommon.checkDupAndUpdateVerMsg(t, bMsg, peerID) (r) [C05]
  requires t.unConfirmedMsgLock != nil && itemsOk(t) && bMsg != nil
  modifies bMsg.P2PID
  nopanic [C07]
  locks [C23]
  ensures r <==> member(t, peerID) && !voted(t, bMsg.Key, peerID)
  ensures r ==> bMsg.P2PID == peerID

func common.TssCommon.processVerMsg(t, broadcastConfirmMsg, msgType) (err) [C05, C04]
  requires sound(t)
  requires [C05] broadcastConfirmMsg != nil ==> member(t, broadcastConfirmMsg.P2PID) && !voted(t, broadcastConfirmMsg.Key, broadcastConfirmMsg.P2PID)
  modifies anymap(map[string]string), anyof(common.LocalCacheItem.Msg), elems(t.unConfirmedMessages), elems(t.blameMgr.roundMgr.storedMsg), elems(t.blameMgr.shareMgr.requested), sends(t.broadcastChannel)
  modifies elems(t.blameMgr.lastUnicastPeer), elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  nopanic [C07]
  locks [C23]
  // the vote of this peer for this share, and nothing else, is recorded
  atcall common.LocalCacheItem.UpdateConfirmList(l, p, h) [C05] l == t.unConfirmedMessages[broadcastConfirmMsg.Key] && p == broadcastConfirmMsg.P2PID && h == broadcastConfirmMsg.Hash && !(p in l.ConfirmedList)
  atcall common.TssCommon.applyShare(t2, it, th, key, ty) [C04] t2 == t && key == broadcastConfirmMsg.Key && it == t.unConfirmedMessages[key] && ty == msgType
  atcall common.TssCommon.requestShareFromPeer(t2, it, th, key, ty) [C26] t2 == t && key == broadcastConfirmMsg.Key && it == t.unConfirmedMessages[key] && it.Msg == nil && ty == msgType
  ensures tssOK(t) && infoOK(t.partyInfo) && partyKnown(t)
  ensures storedOk(t.blameMgr)
  ensures itemsOk(t)
  ensures [C05] broadcastConfirmMsg != nil ==> (forall k string :: k != old(broadcastConfirmMsg.Key) ==> (k in t.unConfirmedMessages) == old(k in t.unConfirmedMessages) && t.unConfirmedMessages[k] == old(t.unConfirmedMessages[k]))
  ensures [C05] broadcastConfirmMsg != nil ==> (forall k string, p string :: k != old(broadcastConfirmMsg.Key) && k in t.unConfirmedMessages ==> (p in t.unConfirmedMessages[k].ConfirmedList) == old(p in t.unConfirmedMessages[k].ConfirmedList) && t.unConfirmedMessages[k].ConfirmedList[p] == old(t.unConfirmedMessages[k].ConfirmedList[p]))

// ---- dispatching (C05, C07, C24, C26) ----
// the completion signal is up if and only if enough peers have finished
define doneOk(t) = (t.partyInfo != nil && len(t.partyInfo.PartyIDMap) >= 2 ==> (chanclosed(t.taskDone) <==> len(t.finishedPeers) >= len(t.partyInfo.PartyIDMap) - 1)) && (forall p string :: p in t.finishedPeers ==> t.finishedPeers[p])
define askedHash(data) = jsondec(messages.TssControl, ReqHash, data)
define answered(t, data) = old(t.blameMgr.shareMgr.requested[askedHash(data)]) && !t.blameMgr.shareMgr.requested[askedHash(data)]
define finished(w) = w != nil && w.MessageType == messages.TSSTaskDone && jsondec(messages.TssTaskNotifier, ok, w.Payload) && jsondec(messages.TssTaskNotifier, TaskDone, w.Payload)
func common.TssCommon.ProcessOneMessage(t, wrappedMsg, peerID) (err) [C07]
  requires sound(t) && doneOk(t)
  modifies anymap(map[string]string), anyof(common.LocalCacheItem.Msg), anyof(common.LocalCacheItem.Hash), elems(t.unConfirmedMessages), elems(t.blameMgr.roundMgr.storedMsg), elems(t.blameMgr.shareMgr.requested), sends(t.broadcastChannel)
  modifies elems(t.blameMgr.lastUnicastPeer), elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  modifies elems(t.finishedPeers), chan(t.taskDone)
  nopanic [C07]
  locks [C23]
  atcall common.TssCommon.processVerMsg(t2, m, ty) [C05] m.P2PID == peerID && member(t, peerID) && !voted(t, m.Key, peerID)
  // the completion signal is raised once, and only by a notice
  atcall close(ch) [C24] !chanclosed(ch) && ch == t.taskDone && finished(wrappedMsg) && !old(peerID in t.finishedPeers)
  // an answer is looked at only when it was asked for
  atcall common.TssCommon.processTSSMsg(t2, w, ty, fw) [C26] !fw && (wrappedMsg.MessageType == messages.TSSKeyGenMsg || wrappedMsg.MessageType == messages.TSSKeySignMsg) && ty == wrappedMsg.MessageType || fw && wrappedMsg.MessageType == messages.TSSControlMsg && answered(t, wrappedMsg.Payload)
  // only the peer which asks is answered
  atcall common.TssCommon.processRequestMsgFromPeer(t2, peers, m, req) [C26] !req && len(peers) == 1 && peers[0] == res0(peer.Decode(peerID)) && m.Msg == nil
  ensures tssOK(t) && infoOK(t.partyInfo) && partyKnown(t)
  ensures storedOk(t.blameMgr)
  ensures itemsOk(t)
  ensures [C24] doneOk(t)
  // the signal goes up once
  ensures [C24] old(chanclosed(t.taskDone)) ==> chanclosed(t.taskDone)
  ensures [C24] chanclosed(t.taskDone) && !old(chanclosed(t.taskDone)) ==> len(t.finishedPeers) == len(t.partyInfo.PartyIDMap) - 1
  // a peer counts once
  ensures [C24] forall p string :: p != peerID ==> (p in t.finishedPeers) == old(p in t.finishedPeers)
  ensures [C24] old(peerID in t.finishedPeers) ==> len(t.finishedPeers) == old(len(t.finishedPeers)) && peerID in t.finishedPeers
  ensures [C24] wrappedMsg == nil || wrappedMsg.MessageType != messages.TSSTaskDone ==> len(t.finishedPeers) == old(len(t.finishedPeers)) && chanclosed(t.taskDone) == old(chanclosed(t.taskDone))
  // a repeated notice is refused, one that declares nothing changes nothing
  ensures [C24] finished(wrappedMsg) && old(peerID in t.finishedPeers) ==> err != nil
  ensures [C24] finished(wrappedMsg) && t.partyInfo != nil && !old(peerID in t.finishedPeers) ==> err == nil && len(t.finishedPeers) == old(len(t.finishedPeers)) + 1 && peerID in t.finishedPeers
  ensures [C24] !finished(wrappedMsg) ==> len(t.finishedPeers) == old(len(t.finishedPeers)) && chanclosed(t.taskDone) == old(chanclosed(t.taskDone))

chaninv *p2p.Message (m) m != nil
func common.TssCommon.ProcessInboundMessages(t, finishChan, wg) () [C07]
  requires wg != nil && finishChan != t.taskDone
  requires tssOK(t)
  requires infoOK(t.partyInfo)
  requires partyKnown(t)
  requires storedOk(t.blameMgr)
  requires itemsOk(t)
  requires doneOk(t)
  modifies anymap(map[string]string), anyof(common.LocalCacheItem.Msg), anyof(common.LocalCacheItem.Hash), elems(t.unConfirmedMessages), elems(t.blameMgr.roundMgr.storedMsg), elems(t.blameMgr.shareMgr.requested), sends(t.broadcastChannel)
  modifies elems(t.blameMgr.lastUnicastPeer), elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  modifies elems(t.finishedPeers), chan(t.taskDone)
  nopanic [C07]
  locks [C23]
  // each message is processed as one of the peer which sent it
  atcall common.TssCommon.ProcessOneMessage(t2, w, p) [C03, C05, C24] t2 == t && p == lastrecv(*p2p.Message).PeerID.String()
  loopinv sound(t) && doneOk(t)
  ensures sound(t) && doneOk(t)
