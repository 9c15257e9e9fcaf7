import tsecp github.com/tendermint/tendermint/crypto/secp256k1
import tcrypto2 github.com/tendermint/tendermint/crypto
extern pure github.com/tendermint/tendermint/crypto.PubKey.VerifySignature(pk, msg, sig) (r)
  nopanic
// ---- the signing engine ----
extern pure github.com/binance-chain/tss-lib/tss.ParseWireMessage(wire, from, bcast) (r, err)
  requires partyOk(from)
  nopanic
  ensures err == nil ==> r != nil
extern pure github.com/binance-chain/tss-lib/tss.ParsedMessage.Content(m) (r)
  nopanic
extern pure github.com/binance-chain/tss-lib/tss.Error.Culprits(e) (r)
  requires e != nil
  nopanic
  ensures forall i int :: 0 <= i && i < len(r) ==> partyOk(r[i])
extern github.com/binance-chain/tss-lib/tss.Error.Cause(e) (r)
  requires e != nil
  nopanic
extern pure github.com/binance-chain/tss-lib/tss.Party.PartyID(p) (r)
  nopanic
  ensures partyOk(r)
// what the engine took last
ghost updOk global bool
ghost updFrom global *btss.PartyID
ghost updParty global btss.Party
ghost updWire global string
extern github.com/binance-chain/tss-lib/tss.Party.UpdateFromBytes(p, wire, from, bcast) (ok, err)
  requires partyOk(from)
  modifies ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  nopanic
  ensures ghost(updOk) == (ok && err == nil) && ghost(updFrom) == from && ghost(updParty) == p && ghost(updWire) == string(wire)

// the round a message content belongs to
define content(wire, from, bcast) = res0(btss.ParseWireMessage(wire, from, bcast)).Content()
define knownContent(c) = is(c, *bkeygen.KGRound1Message) || is(c, *bkeygen.KGRound2Message1) || is(c, *bkeygen.KGRound2Message2) || is(c, *bkeygen.KGRound3Message) || is(c, *bsigning.SignRound1Message1) || is(c, *bsigning.SignRound1Message2) || is(c, *bsigning.SignRound2Message) || is(c, *bsigning.SignRound3Message) || is(c, *bsigning.SignRound4Message) || is(c, *bsigning.SignRound5Message) || is(c, *bsigning.SignRound6Message) || is(c, *bsigning.SignRound7Message)
define roundIdx(c) = ite(is(c, *bkeygen.KGRound1Message), 0, ite(is(c, *bkeygen.KGRound2Message1), 1, ite(is(c, *bkeygen.KGRound2Message2), 2, ite(is(c, *bkeygen.KGRound3Message), 3, ite(is(c, *bsigning.SignRound1Message1), 0, ite(is(c, *bsigning.SignRound1Message2), 1, ite(is(c, *bsigning.SignRound2Message), 2, ite(is(c, *bsigning.SignRound3Message), 3, ite(is(c, *bsigning.SignRound4Message), 4, ite(is(c, *bsigning.SignRound5Message), 5, ite(is(c, *bsigning.SignRound6Message), 6, ite(is(c, *bsigning.SignRound7Message), 7, 0-1))))))))))))
define roundName(c) = ite(is(c, *bkeygen.KGRound1Message), "KGRound1Message", ite(is(c, *bkeygen.KGRound2Message1), "KGRound2Message1", ite(is(c, *bkeygen.KGRound2Message2), "KGRound2Message2", ite(is(c, *bkeygen.KGRound3Message), "KGRound3Message", ite(is(c, *bsigning.SignRound1Message1), "SignRound1Message1", ite(is(c, *bsigning.SignRound1Message2), "SignRound1Message2", ite(is(c, *bsigning.SignRound2Message), "SignRound2Message", ite(is(c, *bsigning.SignRound3Message), "SignRound3Message", ite(is(c, *bsigning.SignRound4Message), "SignRound4Message", ite(is(c, *bsigning.SignRound5Message), "SignRound5Message", ite(is(c, *bsigning.SignRound6Message), "SignRound6Message", ite(is(c, *bsigning.SignRound7Message), "SignRound7Message", ""))))))))))))
define roundIs(r, c) = r.Index == roundIdx(c) && r.RoundMsg == roundName(c)

func common.GetMsgRound(msg, partyID, isBroadcast) (r, err) [C06]
  requires partyOk(partyID)
  nopanic [C07]
  ensures err == nil <==> res1(btss.ParseWireMessage(msg, partyID, isBroadcast)) == nil && knownContent(content(msg, partyID, isBroadcast))
  ensures err == nil ==> roundIs(r, content(msg, partyID, isBroadcast)) && r.MsgIdentifier == ""

extern pure github.com/tendermint/tendermint/crypto.PrivKey.Sign(k, msg) (sig, err)
  nopanic
extern pure runtime.NumCPU() (r)
  nopanic
extern pure strings.Contains(s, sub) (r)
  nopanic

// ---- the state of a session ----
guard common.TssCommon.partyInfo by common.TssCommon.partyLock [C23]
guard common.TssCommon.culprits by common.TssCommon.culpritsLock [C23]
guard common.TssCommon.P2PPeers by common.TssCommon.P2PPeersLock [C23]

define blameOK(b) = b != nil && b.blameLock != nil
define mgrOK(m) = m != nil && blameOK(m.blame) && m.lastMsgLocker != nil && m.lastUnicastPeer != nil && m.acceptShareLocker != nil && m.acceptedShares != nil && m.roundMgr != nil && m.roundMgr.storeLocker != nil && m.roundMgr.storedMsg != nil && m.shareMgr != nil && m.shareMgr.reqLocker != nil && m.shareMgr.requested != nil
define tssOK(t) = t.taskDone != t.broadcastChannel && t.finishedPeers != t.blameMgr.shareMgr.requested && (t.broadcastChannel != nil ==> !chanclosed(t.broadcastChannel)) && t.partyLock != nil && t.unConfirmedMsgLock != nil && t.unConfirmedMessages != nil && t.P2PPeersLock != nil && t.culpritsLock != nil && t.finishedPeers != nil && t.taskDone != nil && mgrOK(t.blameMgr)
define partiesOK(m) = forall p string :: p in m ==> partyOk(m[p])
define infoOK(pi) = pi != nil ==> pi.PartyMap != nil && partiesOK(pi.PartyIDMap) && (forall k any :: smhas(pi.PartyMap, k) ==> is(smval(pi.PartyMap, k), btss.Party))

func common.TssCommon.getPartyInfo(t) (r) [C23]
  requires t.partyLock != nil
  nopanic [C07]
  locks [C23]
  ensures r == t.partyInfo
func common.TssCommon.SetPartyInfo(t, partyInfo) () [C23]
  requires t.partyLock != nil
  modifies t.partyInfo
  nopanic [C07]
  locks [C23]
  ensures t.partyInfo == partyInfo

// the parties the engine holds responsible are remembered as cheaters
func common.TssCommon.processInvalidMsgBlame(t, roundInfo, round, err) (r) [C06]
  requires tssOK(t) && infoOK(t.partyInfo) && err != nil
  modifies t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes
  nopanic [C07]
  locks [C23]
  ensures r != nil
  ensures len(t.culprits) == old(len(t.culprits)) + len(err.Culprits())
  ensures forall i int :: 0 <= i && i < old(len(t.culprits)) ==> t.culprits[i] == old(t.culprits[i])
  ensures forall i int :: 0 <= i && i < len(err.Culprits()) ==> t.culprits[old(len(t.culprits)) + i] == err.Culprits()[i]

// ---- shares on their way to the engine ----
chaninv *common.tssJob (j) j != nil && j.localParty != nil && partyOk(j.partyID)
define job = lastrecv(*common.tssJob)
define jobContent(j) = content(j.wireBytes, j.partyID, j.isBroadcast)

func common.TssCommon.doTssJob(t, tssJobChan, jobWg) () [C06]
  requires tssOK(t) && infoOK(t.partyInfo) && jobWg != nil
  modifies elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  nopanic [C07]
  locks [C23]
  // the engine gets the share of the job, attributed to the party of the job
  atcall github.com/binance-chain/tss-lib/tss.Party.UpdateFromBytes(p, wire, from, bcast) [C03, C06] p == job.localParty && string(wire) == string(job.wireBytes) && from == job.partyID && bcast == job.isBroadcast
  // recorded as accepted only after the engine took it, under its round, message and sender
  atcall blame.Manager.UpdateAcceptShare(m, round, id) m == t.blameMgr && ghost(updOk) && ghost(updParty) == job.localParty && ghost(updWire) == string(job.wireBytes) && ghost(updFrom) == job.partyID && id == job.partyID.Id && round.MsgIdentifier == job.msgIdentifier && roundIs(round, jobContent(job))

// ---- what a member vouches for ----
define memberKey(t, id) = tcrypto2.PubKey(tsecp.PubKey(t.partyInfo.PartyIDMap[id].Key))
define sigok(t, w) = w.Routing.From.Id in t.partyInfo.PartyIDMap && memberKey(t, w.Routing.From.Id).VerifySignature(string(w.Message) + t.msgID, w.Sig)
define culprit(t, p) = p in t.culprits

func common.TssCommon.updateLocal(t, wireMsg) (err) [C06]
  requires tssOK(t) && infoOK(t.partyInfo)
  // only what a member vouches for gets here
  requires [C03] wireMsg != nil && routingOK(wireMsg.Routing) && t.partyInfo != nil ==> sigok(t, wireMsg)
  modifies elems(t.blameMgr.lastUnicastPeer), elems(t.blameMgr.acceptedShares), t.culprits, t.blameMgr.blame.FailReason, t.blameMgr.blame.IsUnicast, t.blameMgr.blame.BlameNodes, ghost(updOk), ghost(updFrom), ghost(updParty), ghost(updWire)
  nopanic [C07]
  locks [C23]
  // nothing of a message without complete routing, or of an unknown member
  ensures wireMsg == nil || !routingOK(wireMsg.Routing) ==> err != nil
  ensures [C03] wireMsg != nil && routingOK(wireMsg.Routing) && old(t.partyInfo) != nil && !(wireMsg.Routing.From.Id in old(t.partyInfo).PartyIDMap) ==> err != nil
  // each share goes to the party of its message, as a share of the member which signed the envelope
  onsend *common.tssJob (j) [C03] wireMsg.Routing.From.Id in t.partyInfo.PartyIDMap && j.partyID == t.partyInfo.PartyIDMap[wireMsg.Routing.From.Id] && j.isBroadcast == wireMsg.Routing.IsBroadcast
  onsend *common.tssJob (j) [C06] smhas(t.partyInfo.PartyMap, j.msgIdentifier) && iface(j.localParty) == smval(t.partyInfo.PartyMap, j.msgIdentifier)
  // never what was accepted before, nothing of an exposed cheater
  onsend *common.tssJob (j) knownContent(jobContent(j))
  onsend *common.tssJob (j) !accepted(t.blameMgr, struct(blame.RoundInfo, roundIdx(jobContent(j)), roundName(jobContent(j)), j.msgIdentifier), j.partyID.Id)
  onsend *common.tssJob (j) !culprit(t, j.partyID)
  // every share queued has been handed over and recorded before another message is looked at
  ensures waited()
