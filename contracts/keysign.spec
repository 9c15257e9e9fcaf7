// ---- signatures received from peers (C11) ----
import ecdsa crypto/ecdsa
import tcommon github.com/binance-chain/tss-lib/common
import tbtcec github.com/tendermint/btcd/btcec
guard keysign.SignatureNotifier.notifiers by keysign.SignatureNotifier.notifierLock [C23]

// signature checking is a function of the key, the digest and the two numbers
declare signedBy(string, string, string, string) bool
ghost ecKey github.com/tendermint/btcd/btcec.PublicKey string
ghost ecdsaKey crypto/ecdsa.PublicKey string
extern github.com/tendermint/btcd/btcec.S256() (r)
  nopanic
extern github.com/tendermint/btcd/btcec.ParsePubKey(b, c) (k, err)
  nopanic
  ensures err == nil ==> fresh(k) && ghost(ecKey, k) == string(b)
extern pure github.com/tendermint/btcd/btcec.PublicKey.ToECDSA(k) (r)
  nopanic
  ensures r != nil && ghost(ecdsaKey, r) == ghost(ecKey, k)
extern crypto/ecdsa.Verify(pub, hash, r, s) (ok)
  requires pub != nil && r != nil && s != nil
  nopanic
  ensures ok <==> signedBy(ghost(ecdsaKey, pub), string(hash), ghost(nat, r), ghost(nat, s))

extern github.com/binance-chain/tss-lib/common.ECSignature.GetSignature(x) (r)
  nopanic
  ensures x == nil ==> r == nil
  ensures x != nil ==> r == x.Signature

define goodSig(pool, sig, msg) = sig != nil && sig.Signature != nil && decodes(pool) && signedBy(keyOf(pool), string(msg), strip0(string(sig.R)), strip0(string(sig.S)))
define complete(n, d) = len(d) == len(n.messages) && len(d) > 0 && (forall i int :: 0 <= i && i < len(d) ==> goodSig(n.poolPubKey, d[i], n.messages[i]))

// whom a response channel belongs to; whatever arrives on it is complete for its owner
ghost owner chan *keysign.Notifier
chaninv []*tcommon.ECSignature (c, v) complete(ghost(owner, c), v)

func keysign.Notifier.verifySignature(n, data, msg) (ok, err) [C11]
  requires data != nil
  nopanic [C07, C11]
  ensures ok ==> err == nil && decodes(n.poolPubKey) && signedBy(keyOf(n.poolPubKey), string(msg), strip0(string(data.R)), strip0(string(data.S)))

func keysign.NewNotifier(messageID, messages, poolPubKey) (r, err) [C11]
  nopanic [C07, C11]
  ensures err == nil <==> len(messageID) > 0 && len(messages) > 0 && len(poolPubKey) > 0
  ensures err == nil ==> fresh(r) && r.MessageID == messageID && r.messages == messages && r.poolPubKey == poolPubKey && fresh(r.resp) && chansent(r.resp) == 0 && !chanclosed(r.resp)
  ensures err != nil ==> r == nil
  init err == nil ==> ghost(owner, r.resp) == r

func keysign.Notifier.ProcessSignature(n, data) (done, err) [C11]
  requires n.resp != nil && !chanclosed(n.resp) && ghost(owner, n.resp) == n
  modifies sends(n.resp)
  nopanic [C07, C11]
  ensures done ==> err == nil && complete(n, data)
  ensures done ==> chansent(n.resp) == old(chansent(n.resp)) + 1 && chanlast(n.resp) == data
  ensures !done ==> chansent(n.resp) == old(chansent(n.resp))
  ensures len(data) == 0 ==> !done && err == nil
  ensures !done && len(data) != 0 ==> err != nil

func keysign.Notifier.GetResponseChannel(n) (r) [C11]
  nopanic [C07, C11]
  ensures r == n.resp

func keysign.SignatureNotifier.addToNotifiers(s, n) () [C11]
  requires s.notifierLock != nil && s.notifiers != nil && n != nil
  modifies elems(s.notifiers)
  nopanic [C07, C11]
  locks [C23]
  ensures n.MessageID in s.notifiers && s.notifiers[n.MessageID] == n
  ensures forall m string :: m != n.MessageID ==> (m in s.notifiers) == old(m in s.notifiers) && s.notifiers[m] == old(s.notifiers[m])

func keysign.SignatureNotifier.removeNotifier(s, n) () [C11]
  requires s.notifierLock != nil && s.notifiers != nil && n != nil
  modifies elems(s.notifiers)
  nopanic [C07, C11]
  locks [C23]
  ensures !(n.MessageID in s.notifiers)
  ensures forall m string :: m != n.MessageID ==> (m in s.notifiers) == old(m in s.notifiers) && s.notifiers[m] == old(s.notifiers[m])

define noticeId(stream) = protodec(messages.KeysignSignature, ID, sub(ghost(in, stream), 4, announced(ghost(in, stream))))
func keysign.SignatureNotifier.handleStream(s, stream) () [C11]
  requires stream != nil && s.notifierLock != nil && s.notifiers != nil && s.streamMgr != nil && s.streamMgr.streamLocker != nil && s.streamMgr.unusedStreams != nil && s.streamMgr.streamLocker != s.notifierLock
  requires forall k string :: k in s.notifiers ==> s.notifiers[k] != nil && s.notifiers[k].resp != nil && !chanclosed(s.notifiers[k].resp) && ghost(owner, s.notifiers[k].resp) == s.notifiers[k]
  modifies elems(s.notifiers), elems(s.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), ghost(out, stream), sends(s.notifiers[noticeId(stream)].resp)
  nopanic [C07, C11]
  locks [C23]
  ensures [C20] parkedUnder(s.streamMgr, "UNKNOWN", stream) || parkedUnder(s.streamMgr, old(noticeId(stream)), stream)
  // only the waiting signer of the named session hears of it, and only of a complete set of valid signatures
  ensures forall k string :: k != old(noticeId(stream)) ==> (k in s.notifiers) == old(k in s.notifiers) && s.notifiers[k] == old(s.notifiers[k])
  ensures noticeId(stream) in s.notifiers ==> old(noticeId(stream) in s.notifiers) && s.notifiers[noticeId(stream)] == old(s.notifiers[noticeId(stream)]) && chansent(s.notifiers[noticeId(stream)].resp) == old(chansent(s.notifiers[noticeId(stream)].resp))
  ensures old(noticeId(stream) in s.notifiers) && !(noticeId(stream) in s.notifiers) ==> chansent(old(s.notifiers[noticeId(stream)].resp)) == old(chansent(s.notifiers[noticeId(stream)].resp)) + 1 && complete(old(s.notifiers[noticeId(stream)]), chanlast(old(s.notifiers[noticeId(stream)].resp)))

func keysign.SignatureNotifier.WaitForSignature(s, messageID, message, poolPubKey, timeout, sigChan) (r, err) [C11]
  requires s.notifierLock != nil && s.notifiers != nil
  modifies elems(s.notifiers)
  nopanic
  locks [C23]
  ensures err == nil ==> len(r) == len(message) && len(r) > 0 && (forall i int :: 0 <= i && i < len(r) ==> goodSig(poolPubKey, r[i], message[i]))
  ensures err != nil ==> r == nil
  ensures !(messageID in s.notifiers) || len(messageID) == 0 || len(message) == 0 || len(poolPubKey) == 0
  ensures forall m string :: m != messageID ==> (m in s.notifiers) == old(m in s.notifiers) && s.notifiers[m] == old(s.notifiers[m])

// ---- the response (C12) ----
extern pure encoding/base64.Encoding.EncodeToString(e, b) (r)
  nopanic
define enc64(b) = base64.StdEncoding.EncodeToString(b)
func tss.TssServer.batchSignatures(t, sigs, msgsToSign) (r) [C12]
  requires len(sigs) == len(msgsToSign) && len(sigs) > 0
  requires forall i int :: 0 <= i && i < len(sigs) ==> sigs[i] != nil
  nopanic
  ensures len(r.Signatures) == len(sigs) && r.Status == common.Success
  ensures forall i int :: 0 <= i && i < len(sigs) ==> r.Signatures[i].Msg == enc64(msgsToSign[i]) && r.Signatures[i].R == enc64(sigs[i].R) && r.Signatures[i].S == enc64(sigs[i].S) && r.Signatures[i].RecoveryID == enc64(sigs[i].SignatureRecovery)
  ensures len(r.Blame.BlameNodes) == 0 && r.Blame.FailReason == "" && !r.Blame.IsUnicast

func tss.TssServer.waitForSignatures(t, msgID, poolPubKey, msgsToSign, sigChan) (r, err) [C12]
  requires t.signatureNotifier != nil && t.signatureNotifier.notifierLock != nil && t.signatureNotifier.notifiers != nil
  modifies elems(t.signatureNotifier.notifiers)
  nopanic
  ensures err == nil ==> r.Status == common.Success && len(r.Signatures) == len(msgsToSign) && len(r.Signatures) > 0 && len(r.Blame.BlameNodes) == 0 && r.Blame.FailReason == ""
  ensures err == nil ==> (forall i int :: 0 <= i && i < len(msgsToSign) ==> r.Signatures[i].Msg == enc64(msgsToSign[i]))
  ensures err != nil ==> r.Status != common.Success && len(r.Signatures) == 0

// ---- the signing engine and its loop ----
import signing github.com/binance-chain/tss-lib/ecdsa/signing
guard blame.Manager.blame by nothing [C23]
guard blame.Blame.blameLock by nothing [C23]
extern pure github.com/binance-chain/tss-lib/ecdsa/signing.SignatureData.GetSignature(d) (r)
  nopanic
chaninv *signing.SignatureData (d) d != nil && d.GetSignature() != nil
extern github.com/binance-chain/tss-lib/ecdsa/signing.NewLocalParty(m, params, key, out, end) (p)
  nopanic
  ensures is(p, btss.Party)
// the digest of a message to sign is its (truncated) value as a number
extern pure github.com/btcsuite/btcd/btcec.KoblitzCurve.Params(c) (r)
  nopanic
  ensures r != nil && r.N != nil
extern math/big.Int.BitLen(x) (r)
  nopanic
  ensures r >= 0
extern math/big.Int.Rsh(z, x, n) (r)
  modifies ghost(nat, z)
  nopanic
  ensures r == z
func common.MsgToHashInt(msg) (r, err) [C12]
  nopanic [C07]
  ensures err == nil && r != nil
extern pure github.com/binance-chain/tss-lib/tss.Message.IsBroadcast(m) (r)
  nopanic
extern pure strings.HasSuffix(s, x) (r)
  nopanic
ghost abool go.uber.org/atomic.Bool bool
extern go.uber.org/atomic.NewBool(v) (b)
  nopanic
  ensures fresh(b) && ghost(abool, b) == v
extern go.uber.org/atomic.Bool.Store(b, v)
  modifies ghost(abool, b)
  nopanic
  ensures ghost(abool, b) == v
extern go.uber.org/atomic.Bool.Load(b) (r)
  nopanic
  ensures r == ghost(abool, b)
func keysign.TssKeySign.startBatchSigning(k, m, n) (r) [C12]
  requires m != nil && (forall x any :: smhas(m, x) ==> is(smval(m, x), btss.Party))
  nopanic [C07]

func keysign.NewTssKeySign(localP2PID, conf, broadcastChan, stopChan, msgID, privKey, p2pComm, stateManager, msgNum) (k) [C12]
  requires msgNum >= 0
  requires broadcastChan != nil ==> !chanclosed(broadcastChan)
  nopanic [C07]
  ensures fresh(k) && k.stateManager == stateManager && k.p2pComm == p2pComm && k.stopChan == stopChan
  ensures fresh(k.tssCommonStruct) && fresh(k.tssCommonStruct.blameMgr) && fresh(k.tssCommonStruct.blameMgr.blame)
  ensures sound(k.tssCommonStruct)
  ensures doneOk(k.tssCommonStruct)
  ensures outOk(k.tssCommonStruct)
  ensures k.tssCommonStruct.partyInfo == nil && k.tssCommonStruct.msgID == msgID && k.tssCommonStruct.localPeerID == localP2PID && k.tssCommonStruct.broadcastChannel == broadcastChan && k.tssCommonStruct.privateKey == privKey && k.tssCommonStruct.msgNum == msgNum
  ensures k.tssCommonStruct.PartyIDtoP2PID != nil && k.tssCommonStruct.blameMgr.PartyIDtoP2PID != nil && len(k.tssCommonStruct.unConfirmedMessages) == 0 && len(k.tssCommonStruct.finishedPeers) == 0 && !chanclosed(k.tssCommonStruct.taskDone)
  ensures fresh(k.commStopChan) && !chanclosed(k.commStopChan) && k.commStopChan != k.tssCommonStruct.taskDone && k.commStopChan != broadcastChan

func keysign.TssKeySign.processKeySign(k, reqNum, errChan, outCh, endCh) (sigs, err) [C12]
  requires running(k.tssCommonStruct) && k.stateManager != nil && k.p2pComm != nil && k.p2pComm.host != nil
  awaits anymap(map[string]string), elems(k.tssCommonStruct.blameMgr.roundMgr.storedMsg), elems(k.tssCommonStruct.blameMgr.lastUnicastPeer), elems(k.tssCommonStruct.blameMgr.acceptedShares), k.tssCommonStruct.blameMgr.blame.FailReason, k.tssCommonStruct.blameMgr.blame.IsUnicast, k.tssCommonStruct.blameMgr.blame.BlameNodes
  rely running(k.tssCommonStruct) && roundsOk(k.tssCommonStruct.blameMgr, messages.TSSKEYSIGNROUNDS)
  modifies anyelems([]string), anymap(map[string]string), elems(k.tssCommonStruct.blameMgr.roundMgr.storedMsg), elems(k.tssCommonStruct.blameMgr.lastUnicastPeer), elems(k.tssCommonStruct.blameMgr.acceptedShares), sends(k.tssCommonStruct.broadcastChannel), elems(k.tssCommonStruct.cachedWireBroadcastMsgLists), elems(k.tssCommonStruct.cachedWireUnicastMsgLists), k.tssCommonStruct.blameMgr.lastMsg, k.tssCommonStruct.blameMgr.blame.FailReason, k.tssCommonStruct.blameMgr.blame.IsUnicast, k.tssCommonStruct.blameMgr.blame.BlameNodes
  nopanic [C07]
  locks [C23]
  loopinv running(k.tssCommonStruct)
  loopvar []*tcommon.ECSignature (l) forall i int :: 0 <= i && i < len(l) ==> l[i] != nil
  ensures err == nil ==> len(sigs) == reqNum && (forall i int :: 0 <= i && i < len(sigs) ==> sigs[i] != nil)
  ensures err != nil ==> len(sigs) == 0

define readyToSign(k) = k.tssCommonStruct.partyInfo == nil && k.tssCommonStruct.privateKey != nil && k.tssCommonStruct.PartyIDtoP2PID != nil && k.tssCommonStruct.blameMgr.PartyIDtoP2PID != nil && len(k.tssCommonStruct.unConfirmedMessages) == 0 && len(k.tssCommonStruct.finishedPeers) == 0 && !chanclosed(k.tssCommonStruct.taskDone) && k.commStopChan != nil && k.commStopChan != k.tssCommonStruct.taskDone && k.commStopChan != k.tssCommonStruct.broadcastChannel && !chanclosed(k.commStopChan) && k.stateManager != nil && k.p2pComm != nil && k.p2pComm.host != nil
func keysign.TssKeySign.SignMessage(k, msgsToSign, item, parties) (r, err) [C12]
  requires k.tssCommonStruct != nil && sound(k.tssCommonStruct)
  requires doneOk(k.tssCommonStruct)
  requires outOk(k.tssCommonStruct)
  requires readyToSign(k)
  requires len(msgsToSign) > 0
  modifies k.localParties, anyelems(*tcommon.ECSignature), anyof(btss.MessageWrapper_PartyID.Moniker), k.tssCommonStruct.partyInfo, k.tssCommonStruct.P2PPeers, chan(k.commStopChan), chan(k.tssCommonStruct.taskDone), sends(k.tssCommonStruct.broadcastChannel)
  modifies anyelems(string), anyelems([]string), anysyncmap, anyof(btss.PartyID.Index), anymap(map[string]peer.ID), anymap(map[string][]peer.ID), anymap(map[string]string), anymap(map[string]bool), anymap(map[string]*messages.WireMessage), anymap(map[string]*common.LocalCacheItem), anymap(map[blame.RoundInfo][]string)
  modifies anyof(blame.Blame.BlameNodes), anyof(blame.Blame.FailReason), anyof(blame.Blame.IsUnicast), anyof(blame.Manager.lastMsg), anyof(blame.Manager.localPartyID), anyof(blame.Manager.partyInfo), anyof(common.LocalCacheItem), anyof(common.TssCommon.culprits), ghost(stored), anyghost(updFrom), anyghost(updOk), anyghost(updParty), anyghost(updWire)
  locks [C23]
  nopanic [C07]
  // every engine works for the signers of this round with the threshold of the whole committee
  atcall github.com/binance-chain/tss-lib/tss.NewParameters(ctx, id, n, t, opt) [C01] n == len(parties) && t == committeeThreshold(len(item.ParticipantKeys))
  ensures err == nil && len(r) > 0 ==> len(r) == len(msgsToSign)
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i] != nil
  ensures old(k.tssCommonStruct.blameMgr).blame.blameLock != nil
// the leaderless join was for parties which named their signers
define olderThan(v, w) = res0(semver.Make(v)).LT(res0(semver.Make(w)))
func tss.TssServer.generateSignature(t, msgID, msgsToSign, req, threshold, allParticipants, localStateItem, blameMgr, keysignInstance, sigChan) (r, err) [C12]
  requires t.partyCoordinator != nil && pcOk(t.partyCoordinator) && len(msgsToSign) > 0
  requires commOk(t.p2pCommunication)
  requires t.signatureNotifier != nil && notifierOk(t.signatureNotifier)
  requires keysignInstance != nil && keysignInstance.tssCommonStruct != nil && blameMgr == keysignInstance.tssCommonStruct.blameMgr
  requires sound(keysignInstance.tssCommonStruct)
  requires doneOk(keysignInstance.tssCommonStruct)
  requires outOk(keysignInstance.tssCommonStruct)
  requires readyToSign(keysignInstance)
  requires [C01] threshold == committeeThreshold(len(localStateItem.ParticipantKeys)) && allParticipants == localStateItem.ParticipantKeys
  requires len(allParticipants) > threshold && (olderThan(req.Version, messages.NEWJOINPARTYVERSION) ==> len(req.SignerPubKeys) > threshold)
  requires sigChan != nil && !chanclosed(sigChan)
  modifies elems(t.partyCoordinator.peersGroup), elems(t.partyCoordinator.streamMgr.unusedStreams), elems(t.signatureNotifier.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyghost(in), anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool), sends(sigChan), ghost(nInc), ghost(lastInc), ghost(nSet), ghost(lastSet), ghost(lastSetTo)
  modifies keysignInstance.localParties, anyelems(*tcommon.ECSignature), anyof(btss.MessageWrapper_PartyID.Moniker), keysignInstance.tssCommonStruct.partyInfo, keysignInstance.tssCommonStruct.P2PPeers, chan(keysignInstance.commStopChan), chan(keysignInstance.tssCommonStruct.taskDone), sends(keysignInstance.tssCommonStruct.broadcastChannel)
  modifies anyelems(string), anyelems([]string), anysyncmap, anyof(btss.PartyID.Index), anymap(map[string]peer.ID), anymap(map[string][]peer.ID), anymap(map[string]string), anymap(map[string]bool), anymap(map[string]*messages.WireMessage), anymap(map[string]*common.LocalCacheItem), anymap(map[blame.RoundInfo][]string)
  modifies anyof(blame.Blame.BlameNodes), anyof(blame.Blame.FailReason), anyof(blame.Blame.IsUnicast), anyof(blame.Manager.lastMsg), anyof(blame.Manager.localPartyID), anyof(blame.Manager.partyInfo), anyof(common.LocalCacheItem), anyof(common.TssCommon.culprits), ghost(stored), anyghost(updFrom), anyghost(updOk), anyghost(updParty), anyghost(updWire)
  locks [C23]
  // a party which could not be formed is blamed by who of the signers asked for was there [C08]
  atcall blame.Manager.NodeSyncBlame(m, ks, on) [C08] m == blameMgr && sameList(ks, req.SignerPubKeys)
  // who signs are the peers of the party formed, more than the threshold of the committee
  atcall keysign.TssKeySign.SignMessage(k, ms, item, ps) [C01] k == keysignInstance && item == localStateItem && len(ps) > committeeThreshold(len(item.ParticipantKeys))
  atcall tss.TssServer.joinParty(u, id, v, h, ps, th, ch) [C17] u == t && id == msgID && h == req.BlockHeight && th == threshold
  ensures err == nil && r.Status == common.Success ==> len(r.Signatures) == len(msgsToSign) && len(r.Signatures) > 0 && len(r.Blame.BlameNodes) == 0 && r.Blame.FailReason == ""
  ensures err == nil && r.Status == common.Success ==> (forall i int :: 0 <= i && i < len(msgsToSign) ==> r.Signatures[i].Msg == enc64(msgsToSign[i]))
extern pure github.com/blang/semver.Make(s) (v, err)
  nopanic
extern pure github.com/blang/semver.Version.LT(v, o) (r)
  nopanic
// every stream opened to tell a peer is parked under the session it was opened for [C20]
define notifierOk(s) = s.host != nil && s.streamMgr != nil && s.streamMgr.streamLocker != nil && s.streamMgr.unusedStreams != nil
extern github.com/libp2p/go-libp2p-core/network.Stream.Read(r, buf) (n, err)
  nopanic
  modifies ghost(in, r), elems(buf)
func keysign.SignatureNotifier.sendOneMsgToPeer(s, m) (err) [C20]
  requires m != nil && notifierOk(s)
  modifies elems(s.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyghost(in)
  locks [C23]
  atcall p2p.StreamMgr.AddStream(sm, id, st) sm == s.streamMgr && id == m.messageID
func keysign.SignatureNotifier.broadcastCommon(s, messageID, sig, peers) (err) [C20]
  requires notifierOk(s)
  modifies elems(s.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyghost(in)
  locks [C23]
  ensures err == nil
func keysign.SignatureNotifier.BroadcastSignature(s, messageID, sig, peers) (err) [C20]
  requires notifierOk(s)
  modifies elems(s.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyghost(in)
  locks [C23]
  ensures err == nil
func keysign.SignatureNotifier.BroadcastFailed(s, messageID, peers) (err) [C20]
  requires notifierOk(s)
  modifies elems(s.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyghost(in)
  locks [C23]
  ensures err == nil
extern pure github.com/libp2p/go-libp2p-core/host.Host.ID(h) (r)
  nopanic
