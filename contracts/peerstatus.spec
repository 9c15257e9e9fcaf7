guard p2p.PeerStatus.peersResponse by p2p.PeerStatus.peerStatusLock [C23]
guard p2p.PeerStatus.reqCount by p2p.PeerStatus.peerStatusLock [C23]
guard p2p.PeerStatus.leaderResponse by p2p.PeerStatus.leaderResponseLock [C23]
guard p2p.PeerStatus.leader by nothing [C23]
guard p2p.PeerStatus.threshold by nothing [C23]

func p2p.NewPeerStatus(peerNodes, myPeerID, leader, threshold) (ps) [C16]
  nopanic [C07, C16]
  ensures fresh(ps.notify) && fresh(ps.newFound) && ps.notify != ps.newFound && !chanclosed(ps.notify) && !chanclosed(ps.newFound)
  ensures fresh(ps) && fresh(ps.peersResponse) && fresh(ps.peerStatusLock) && fresh(ps.leaderResponseLock) && ps.peerStatusLock != ps.leaderResponseLock
  ensures forall p peer.ID :: (p in ps.peersResponse) <==> (p in peerNodes && p != myPeerID)
  ensures forall p peer.ID :: !ps.peersResponse[p]
  ensures ps.reqCount == 0 && ps.threshold == threshold && ps.leader == leader && ps.leaderResponse == nil

func p2p.PeerStatus.updatePeer(ps, peerNode) (done, err) [C16]
  requires ps.peersResponse != nil && ps.peerStatusLock != nil
  modifies ps.reqCount, elems(ps.peersResponse)
  nopanic [C07]
  locks [C23]
  // an unexpected peer is refused and changes nothing
  ensures !old(peerNode in ps.peersResponse) ==> err != nil && !done && ps.reqCount == old(ps.reqCount) && forall q peer.ID :: ps.peersResponse[q] == old(ps.peersResponse[q])
  ensures old(peerNode in ps.peersResponse) ==> err == nil
  // the expected peers never change, online stays online, nobody else is touched
  ensures forall q peer.ID :: (q in ps.peersResponse) <==> old(q in ps.peersResponse)
  ensures forall q peer.ID :: old(ps.peersResponse[q]) ==> ps.peersResponse[q]
  ensures forall q peer.ID :: q != peerNode ==> ps.peersResponse[q] == old(ps.peersResponse[q])
  ensures old(peerNode in ps.peersResponse) && ps.leader == "NONE" ==> ps.peersResponse[peerNode] && (done <==> !old(ps.peersResponse[peerNode])) && ps.reqCount == old(ps.reqCount)
  ensures old(peerNode in ps.peersResponse) && ps.leader != "NONE" && old(ps.reqCount) >= ps.threshold ==> !done && ps.reqCount == old(ps.reqCount) && ps.peersResponse[peerNode] == old(ps.peersResponse[peerNode])
  ensures old(peerNode in ps.peersResponse) && ps.leader != "NONE" && old(ps.reqCount) < ps.threshold ==> ps.peersResponse[peerNode]
  ensures old(peerNode in ps.peersResponse) && ps.leader != "NONE" && old(ps.reqCount) < ps.threshold && old(ps.peersResponse[peerNode]) ==> !done && ps.reqCount == old(ps.reqCount)
  ensures old(peerNode in ps.peersResponse) && ps.leader != "NONE" && old(ps.reqCount) < ps.threshold && !old(ps.peersResponse[peerNode]) ==> ps.reqCount == old(ps.reqCount) + 1 && (done <==> ps.reqCount == ps.threshold)

func p2p.PeerStatus.getPeersStatus(ps) (online, offline) [C16]
  requires ps.peerStatusLock != nil
  nopanic [C07]
  locks [C23]
  ensures forall p peer.ID :: (p in online) <==> (p in ps.peersResponse && ps.peersResponse[p])
  ensures forall p peer.ID :: (p in offline) <==> (p in ps.peersResponse && !ps.peersResponse[p])
  ensures forall i int, j int :: 0 <= i && i < j && j < len(online) ==> online[i] != online[j]
  ensures forall i int, j int :: 0 <= i && i < j && j < len(offline) ==> offline[i] != offline[j]

func p2p.PeerStatus.getCoordinationStatus(ps) (r) [C16]
  requires ps.peerStatusLock != nil
  nopanic [C07]
  locks [C23]
  ensures r <==> (forall p peer.ID :: p in ps.peersResponse ==> ps.peersResponse[p])

func p2p.PeerStatus.getLeaderResponse(ps) (r) []
  requires ps.leaderResponseLock != nil
  nopanic [C07]
  locks [C23]
  ensures r == ps.leaderResponse

func p2p.PeerStatus.setLeaderResponse(ps, resp) () []
  requires ps.leaderResponseLock != nil
  modifies ps.leaderResponse
  nopanic [C07]
  locks [C23]
  ensures ps.leaderResponse == resp
