// ---- party formation, one record per session (C17) ----
import host github.com/libp2p/go-libp2p-core/host
import protocol github.com/libp2p/go-libp2p-core/protocol
guard p2p.PartyCoordinator.peersGroup by p2p.PartyCoordinator.joinPartyGroupLock [C23]

extern github.com/libp2p/go-libp2p-core/host.Host.NewStream(h, ctx, p, protos) (s, err)
  nopanic
  ensures err == nil ==> s != nil
extern github.com/libp2p/go-libp2p-core/network.Stream.Close(s) (err)
  nopanic
extern context.Background() (c)
  nopanic
  ensures c != nil
extern context.WithTimeout(p, d) (c, cancel)
  nopanic
  ensures c != nil && cancel != nil
extern pure context.Context.Done(c) (ch)
  nopanic
extern context.Context.Err(c) (err)
  nopanic

define recOk(r) = r != nil && r.peersResponse != nil && r.peerStatusLock != nil && r.leaderResponseLock != nil && r.notify != nil && r.newFound != nil && !chanclosed(r.notify) && !chanclosed(r.newFound)
define own(a, b) = a != b && a.peersResponse != b.peersResponse && a.notify != b.notify && a.newFound != b.newFound && a.notify != b.newFound
define pcOk(pc) = pc.joinPartyGroupLock != nil && pc.peersGroup != nil && pc.host != nil && pc.streamMgr != nil && pc.streamMgr.streamLocker != nil && pc.streamMgr.unusedStreams != nil && pc.streamMgr.streamLocker != pc.joinPartyGroupLock && (forall m string :: m in pc.peersGroup ==> recOk(pc.peersGroup[m])) && (forall m string, n string :: m in pc.peersGroup && n in pc.peersGroup && m != n ==> own(pc.peersGroup[m], pc.peersGroup[n]))
// nothing of another session's record changes
define othersKept(pc, id) = forall m string, p peer.ID :: m in pc.peersGroup && m != id ==> pc.peersGroup[m].reqCount == old(pc.peersGroup[m].reqCount) && pc.peersGroup[m].peersResponse[p] == old(pc.peersGroup[m].peersResponse[p]) && pc.peersGroup[m].leaderResponse == old(pc.peersGroup[m].leaderResponse) && chansent(pc.peersGroup[m].notify) == old(chansent(pc.peersGroup[m].notify)) && chansent(pc.peersGroup[m].newFound) == old(chansent(pc.peersGroup[m].newFound))

func p2p.PartyCoordinator.getPeerIDs(pc, ids) (r, err) [C17]
  nopanic [C07]
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(ids) ==> res1(peer.Decode(ids[i])) == nil)
  ensures err == nil ==> len(r) == len(ids) && (forall i int :: 0 <= i && i < len(ids) ==> r[i] == res0(peer.Decode(ids[i])))
  ensures err != nil ==> r == nil

func p2p.PartyCoordinator.removePeerGroup(pc, messageID) () [C17]
  requires pcOk(pc)
  modifies elems(pc.peersGroup)
  nopanic [C07]
  locks [C23]
  ensures pcOk(pc)
  ensures !(messageID in pc.peersGroup)
  ensures forall m string :: m != messageID ==> (m in pc.peersGroup) == old(m in pc.peersGroup) && pc.peersGroup[m] == old(pc.peersGroup[m])

func p2p.PartyCoordinator.createJoinPartyGroups(pc, messageID, leader, peers, threshold) (ps, err) [C17]
  requires pcOk(pc)
  modifies elems(pc.peersGroup)
  nopanic [C07]
  locks [C23]
  ensures pcOk(pc)
  ensures err == nil <==> (forall i int :: 0 <= i && i < len(peers) ==> res1(peer.Decode(peers[i])) == nil)
  ensures err != nil ==> ps == nil && (forall m string :: (m in pc.peersGroup) == old(m in pc.peersGroup) && pc.peersGroup[m] == old(pc.peersGroup[m]))
  ensures err == nil ==> messageID in pc.peersGroup && pc.peersGroup[messageID] == ps && fresh(ps) && fresh(ps.peersResponse) && recOk(ps) && fresh(ps.notify) && fresh(ps.newFound)
  ensures err == nil ==> ps.leader == leader && ps.threshold == threshold && ps.reqCount == 0 && ps.leaderResponse == nil
  ensures forall p peer.ID :: err == nil ==> !ps.peersResponse[p] && ((p in ps.peersResponse) <==> (p != pc.host.ID() && (exists i int :: 0 <= i && i < len(peers) && p == res0(peer.Decode(peers[i])))))
  ensures forall m string :: m != messageID ==> (m in pc.peersGroup) == old(m in pc.peersGroup) && pc.peersGroup[m] == old(pc.peersGroup[m])

func p2p.PartyCoordinator.processReqMsg(pc, requestMsg, stream) () [C17]
  requires pcOk(pc) && requestMsg != nil && stream != nil
  modifies elems(pc.streamMgr.unusedStreams), pc.peersGroup[requestMsg.ID].reqCount, elems(pc.peersGroup[requestMsg.ID].peersResponse), sends(pc.peersGroup[requestMsg.ID].notify)
  nopanic [C07]
  locks [C23]
  ensures pcOk(pc)
  ensures [C20] parkedUnder(pc.streamMgr, requestMsg.ID, stream)
  ensures othersKept(pc, requestMsg.ID)
  ensures forall p peer.ID :: requestMsg.ID in pc.peersGroup && p != stream.Conn().RemotePeer() ==> pc.peersGroup[requestMsg.ID].peersResponse[p] == old(pc.peersGroup[requestMsg.ID].peersResponse[p])

func p2p.PartyCoordinator.processRespMsg(pc, respMsg, stream) () [C17]
  requires pcOk(pc) && respMsg != nil && stream != nil
  modifies elems(pc.streamMgr.unusedStreams), pc.peersGroup[respMsg.ID].leaderResponse, sends(pc.peersGroup[respMsg.ID].notify), ghost(nReset), ghost(resetLog), ghost(out, stream)
  nopanic [C07]
  locks [C23]
  ensures pcOk(pc)
  ensures [C20] parkedUnder(pc.streamMgr, respMsg.ID, stream)
  ensures othersKept(pc, respMsg.ID)
  // only the leader of the session can answer for it
  ensures respMsg.ID in pc.peersGroup && stream.Conn().RemotePeer().String() != pc.peersGroup[respMsg.ID].leader ==> pc.peersGroup[respMsg.ID].leaderResponse == old(pc.peersGroup[respMsg.ID].leaderResponse) && chansent(pc.peersGroup[respMsg.ID].notify) == old(chansent(pc.peersGroup[respMsg.ID].notify))
  ensures respMsg.ID in pc.peersGroup && stream.Conn().RemotePeer().String() == pc.peersGroup[respMsg.ID].leader ==> pc.peersGroup[respMsg.ID].leaderResponse == respMsg

define joinId(stream) = protodec(messages.JoinPartyRequest, ID, sub(ghost(in, stream), 4, announced(ghost(in, stream))))
func p2p.PartyCoordinator.HandleStream(pc, stream) () [C17]
  requires pcOk(pc) && stream != nil
  modifies elems(pc.streamMgr.unusedStreams), pc.peersGroup[joinId(stream)].reqCount, elems(pc.peersGroup[joinId(stream)].peersResponse), sends(pc.peersGroup[joinId(stream)].newFound), ghost(nReset), ghost(resetLog)
  nopanic [C07]
  locks [C23]
  ensures pcOk(pc)
  ensures [C20] parkedUnder(pc.streamMgr, "UNKNOWN", stream) || parkedUnder(pc.streamMgr, old(joinId(stream)), stream)
  ensures othersKept(pc, old(joinId(stream)))
  ensures forall p peer.ID :: old(joinId(stream)) in pc.peersGroup && p != stream.Conn().RemotePeer() ==> pc.peersGroup[old(joinId(stream))].peersResponse[p] == old(pc.peersGroup[joinId(stream)].peersResponse[p])

define commId(stream) = protodec(messages.JoinPartyLeaderComm, ID, sub(ghost(in, stream), 4, announced(ghost(in, stream))))
func p2p.PartyCoordinator.HandleStreamWithLeader(pc, stream) () [C17]
  requires pcOk(pc) && stream != nil
  modifies elems(pc.streamMgr.unusedStreams), pc.peersGroup[commId(stream)].reqCount, elems(pc.peersGroup[commId(stream)].peersResponse), pc.peersGroup[commId(stream)].leaderResponse, sends(pc.peersGroup[commId(stream)].notify), ghost(nReset), ghost(resetLog), ghost(out, stream)
  nopanic [C07]
  locks [C23]
  ensures pcOk(pc)
  ensures [C20] parkedUnder(pc.streamMgr, "UNKNOWN", stream) || parkedUnder(pc.streamMgr, old(commId(stream)), stream)
  ensures othersKept(pc, old(commId(stream)))
  ensures forall p peer.ID :: old(commId(stream)) in pc.peersGroup && p != stream.Conn().RemotePeer() ==> pc.peersGroup[old(commId(stream))].peersResponse[p] == old(pc.peersGroup[commId(stream)].peersResponse[p])
  ensures old(commId(stream)) in pc.peersGroup && stream.Conn().RemotePeer().String() != pc.peersGroup[old(commId(stream))].leader ==> pc.peersGroup[old(commId(stream))].leaderResponse == old(pc.peersGroup[commId(stream)].leaderResponse)

extern github.com/libp2p/go-libp2p-core/host.Host.SetStreamHandler(h, p, f) ()
  nopanic
func p2p.NewPartyCoordinator(h, timeout) (pc) [C17]
  requires h != nil
  nopanic
  ensures pcOk(pc) && fresh(pc) && pc.host == h && (forall m string :: !(m in pc.peersGroup))

// ---- joining: the record of the session exists while the join runs, and is gone afterwards ----
func p2p.PartyCoordinator.sendMsgToPeer(pc, msgBuf, msgID, remotePeer, protoc, needResponse) (err) [C17]
  requires pc.host != nil && pc.streamMgr != nil && pc.streamMgr.streamLocker != nil && pc.streamMgr.unusedStreams != nil
  requires len(msgBuf) <= 4294967295
  modifies elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out)
  nopanic [C07]
  locks [C23]
func p2p.PartyCoordinator.sendRequestToAll(pc, msgID, msgSend, peers) () [C17]
  requires pc.host != nil && pc.streamMgr != nil && pc.streamMgr.streamLocker != nil && pc.streamMgr.unusedStreams != nil
  requires len(msgSend) <= 4294967295
  modifies elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out)
  nopanic [C07, C17]
  locks [C23]
func p2p.PartyCoordinator.sendResponseToAll(pc, msg, peers) () [C17]
  requires pc.host != nil && pc.streamMgr != nil && pc.streamMgr.streamLocker != nil && pc.streamMgr.unusedStreams != nil && msg != nil
  modifies elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), msg.MsgType
  nopanic [C07, C17]
  locks [C23]
func p2p.PartyCoordinator.sendRequestToLeader(pc, msg, leader) (err) [C17]
  requires pc.host != nil && pc.streamMgr != nil && pc.streamMgr.streamLocker != nil && pc.streamMgr.unusedStreams != nil && msg != nil
  modifies elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), msg.MsgType
  nopanic [C07, C17]
  locks [C23]

define joinEnds(pc, id, err) = (!(id in pc.peersGroup) || err != nil && old(id in pc.peersGroup) && pc.peersGroup[id] == old(pc.peersGroup[id]))
define onlyThis(pc, id) = forall m string :: m != id ==> (m in pc.peersGroup) == old(m in pc.peersGroup) && pc.peersGroup[m] == old(pc.peersGroup[m])
func p2p.PartyCoordinator.joinPartyMember(pc, msgID, leader, threshold, sigChan) (r, err) [C17]
  requires pcOk(pc)
  modifies elems(pc.peersGroup), elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  nopanic [C07, C17]
  locks [C23]
  awaits anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  rely forall s *p2p.PeerStatus :: old(s.leaderResponse) != nil ==> s.leaderResponse != nil
  ensures pcOk(pc)
  ensures joinEnds(pc, msgID, err)
  ensures onlyThis(pc, msgID)
  ensures [C01, C17] err == nil ==> len(r) >= threshold + 1
  // the party is the one its leader named in an answer of success
  ensures err == nil ==> (exists g *p2p.PeerStatus {g.leaderResponse} :: fresh(g) && g.leader == leader && g.leaderResponse != nil && g.leaderResponse.Type == messages.JoinPartyLeaderComm_Success && len(r) == len(g.leaderResponse.PeerIDs))
func p2p.PartyCoordinator.joinPartyLeader(pc, msgID, peers, threshold, sigChan) (r, err) [C17]
  requires pcOk(pc)
  modifies elems(pc.peersGroup), elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  nopanic [C07, C17]
  locks [C23]
  awaits anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  rely forall s *p2p.PeerStatus, p peer.ID :: (p in s.peersResponse) == old(p in s.peersResponse) && (old(s.peersResponse[p]) ==> s.peersResponse[p])
  ensures pcOk(pc)
  ensures joinEnds(pc, msgID, err)
  ensures onlyThis(pc, msgID)
  // the leader settles for enough of the peers it was asked to join with, itself included
  ensures [C01, C17] err == nil ==> len(r) >= threshold + 1
  ensures forall p peer.ID :: p in r ==> p == pc.host.ID() || (exists i int :: 0 <= i && i < len(peers) && p == res0(peer.Decode(peers[i])))
func p2p.PartyCoordinator.JoinPartyWithRetry(pc, msgID, peers) (r, err) [C17]
  requires pcOk(pc)
  modifies elems(pc.peersGroup), elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  nopanic [C07, C17]
  locks [C23]
  awaits anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  rely forall s *p2p.PeerStatus, p peer.ID :: (p in s.peersResponse) == old(p in s.peersResponse) && (old(s.peersResponse[p]) ==> s.peersResponse[p])
  ensures pcOk(pc)
  ensures joinEnds(pc, msgID, err)
  ensures onlyThis(pc, msgID)
  ensures len(r) == len(peers) && pc.host.ID() in r ==> err == nil
  ensures err == nil ==> len(r) == len(peers) && pc.host.ID() in r
  ensures forall p peer.ID :: p in r ==> p == pc.host.ID() || (exists i int :: 0 <= i && i < len(peers) && p == res0(peer.Decode(peers[i])))
func p2p.PartyCoordinator.JoinPartyWithLeader(pc, msgID, blockHeight, peers, threshold, sigChan) (r, leader, err) [C17]
  requires pcOk(pc)
  modifies elems(pc.peersGroup), elems(pc.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out), anyof(p2p.PeerStatus.leaderResponse), anyof(p2p.PeerStatus.reqCount), anyelems(map[peer.ID]bool)
  nopanic [C07, C17]
  locks [C23]
  ensures pcOk(pc)
  ensures joinEnds(pc, msgID, err)
  ensures onlyThis(pc, msgID)
  ensures [C01, C17] err == nil ==> len(r) >= threshold + 1
