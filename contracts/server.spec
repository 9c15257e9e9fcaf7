// ---- the server: a session from request to response ----
func tss.TssServer.joinParty(t, msgID, version, blockHeight, participants, threshold, sigChan) (r, leader, err) [C17]
  requires t.partyCoordinator != nil && pcOk(t.partyCoordinator)
  modifies elems(t.partyCoordinator.peersGroup), elems(t.partyCoordinator.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  locks [C23]
  ensures pcOk(t.partyCoordinator)
  ensures joinEnds(t.partyCoordinator, msgID, err)
  ensures onlyThis(t.partyCoordinator, msgID)
  // a party is more than the threshold, or everybody asked for
  ensures [C01, C17] err == nil ==> len(r) >= threshold + 1 || len(r) == len(participants)
  // the leader is elected for this session, at this height, among the peers of the participants
  atcall p2p.PartyCoordinator.JoinPartyWithLeader(pc, id, h, ps, th, ch) [C02, C17] pc == t.partyCoordinator && id == msgID && h == blockHeight && th == threshold && len(ps) == len(participants) && (forall i int :: 0 <= i && i < len(ps) ==> ps[i] == peerOf(participants[i]).String())
  atcall p2p.PartyCoordinator.JoinPartyWithRetry(pc, id, ps) [C17] pc == t.partyCoordinator && id == msgID && len(ps) == len(participants) && (forall i int :: 0 <= i && i < len(ps) ==> ps[i] == peerOf(participants[i]).String())

define commOk(c) = c != nil && subsOK(c) && c.host != nil && c.streamMgr != nil && c.streamMgr.streamLocker != nil && c.streamMgr.unusedStreams != nil && c.streamMgr.streamLocker != c.subscriberLocker
define noTopic(c, id) = subOf(c, messages.TSSKeyGenMsg, id) == nil && subOf(c, messages.TSSKeyGenVerMsg, id) == nil && subOf(c, messages.TSSControlMsg, id) == nil && subOf(c, messages.TSSTaskDone, id) == nil
func tss.TssServer.Keygen(t, req) (r, err) [C30]
  requires t.tssKeyGenLocker != nil && commOk(t.p2pCommunication) && t.partyCoordinator != nil && pcOk(t.partyCoordinator) && t.privateKey != nil && t.stateManager != nil && t.tssMetrics != nil && t.tssMetrics.keyGenTime != nil && t.p2pCommunication.streamMgr.unusedStreams != t.partyCoordinator.streamMgr.unusedStreams
  requires t.p2pCommunication.BroadcastMsgChan != nil ==> !chanclosed(t.p2pCommunication.BroadcastMsgChan)
  modifies everything
  locks [C23]
  // the party formed is the committee asked for, all of it
  atcall tss.TssServer.joinParty(u, id, v, h, ps, th, ch) [C01, C17] u == t && sameList(ps, req.Keys) && h == req.BlockHeight && v == req.Version && th == len(req.Keys) - 1
  atcall blame.Manager.NodeSyncBlame(m, ks, on) [C08] sameList(ks, req.Keys)
  // an answer of success names a key whose share is saved
  ensures [C30] err == nil && r.Status == common.Success ==> (exists k *tcrypto.ECPoint :: iface(k) in ghost(stored) && onCurve(k) && r.PubKey == textOf(pointKey(k)))
  // one session is one join and one key generation counted, as success only when the share is saved
  ensures [C25] err == nil && r.Status == common.Success ==> ghost(nInc) == old(ghost(nInc)) + 2 && ghost(lastInc) == counter1(t.tssMetrics.keygenCounter, "success")
  ensures [C25] err != nil && ghost(nInc) != old(ghost(nInc)) ==> ghost(nInc) == old(ghost(nInc)) + 2 && ghost(lastInc) == counter1(t.tssMetrics.keygenCounter, "failure")
  // nothing of the session stays behind
  ensures [C19] old(genContent(req)) != "" ==> noTopic(t.p2pCommunication, hexsha(old(genContent(req))))
  ensures [C20] old(genContent(req)) != "" ==> !(hexsha(old(genContent(req))) in t.p2pCommunication.streamMgr.unusedStreams) && !(hexsha(old(genContent(req))) in t.partyCoordinator.streamMgr.unusedStreams)

define noSignTopic(c, id) = subOf(c, messages.TSSKeySignMsg, id) == nil && subOf(c, messages.TSSKeySignVerMsg, id) == nil && subOf(c, messages.TSSControlMsg, id) == nil && subOf(c, messages.TSSTaskDone, id) == nil
extern encoding/base64.Encoding.DecodeString(e, s) (r, err)
  nopanic
func tss.TssServer.KeySign(t, req) (r, err) [C12]
  requires commOk(t.p2pCommunication) && t.partyCoordinator != nil && pcOk(t.partyCoordinator) && t.privateKey != nil && t.stateManager != nil && t.tssMetrics != nil && t.tssMetrics.keySignTime != nil && t.p2pCommunication.streamMgr.unusedStreams != t.partyCoordinator.streamMgr.unusedStreams
  requires t.signatureNotifier != nil && notifierOk(t.signatureNotifier) && t.signatureNotifier.notifierLock != nil && t.signatureNotifier.notifiers != nil && t.signatureNotifier.streamMgr.unusedStreams != t.p2pCommunication.streamMgr.unusedStreams && t.signatureNotifier.streamMgr.unusedStreams != t.partyCoordinator.streamMgr.unusedStreams
  requires t.p2pCommunication.BroadcastMsgChan != nil ==> !chanclosed(t.p2pCommunication.BroadcastMsgChan)
  requires disjoint(req.Messages, req.SignerPubKeys)
  modifies everything
  locks [C23]
  // the threshold is the one of the whole committee, whoever is asked to sign
  atcall tss.TssServer.generateSignature(u, id, ms, rq, th, all, item, bm, k, ch) [C01] u == t && rq == req && th == committeeThreshold(len(item.ParticipantKeys)) && sameList(all, item.ParticipantKeys)
  // what peers send is checked under the key asked for, against as many messages as asked for
  atcall tss.TssServer.waitForSignatures(u, id, pk, ms, ch) [C11] u == t && pk == req.PoolPubKey && len(ms) == len(req.Messages)
  // the share is the one of the key asked for
  atcall storage.LocalStateManager.GetLocalState(m, k) [C12] m == t.stateManager && k == req.PoolPubKey
  // as many signatures as messages, or none
  ensures err == nil && r.Status == common.Success ==> len(r.Signatures) == len(req.Messages) && len(r.Signatures) > 0
  // the round counts once, as success only when it has signatures
  ensures [C25] err == nil && r.Status == common.Success ==> ghost(lastInc) == counter1(t.tssMetrics.keysignCounter, "success")
  // nothing of the session stays behind
  ensures [C19] len(req.Messages) > 0 && old(signContent(req)) != "" ==> noSignTopic(t.p2pCommunication, hexsha(old(signContent(req))))
  ensures [C20] len(req.Messages) > 0 && old(signContent(req)) != "" ==> !(hexsha(old(signContent(req))) in t.p2pCommunication.streamMgr.unusedStreams) && !(hexsha(old(signContent(req))) in t.partyCoordinator.streamMgr.unusedStreams) && !(hexsha(old(signContent(req))) in t.signatureNotifier.streamMgr.unusedStreams)
extern storage.LocalStateManager.GetLocalState(m, k) (r, err)
  nopanic
