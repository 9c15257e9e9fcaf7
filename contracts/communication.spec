// ---- the communication of a node: what comes in goes to one subscriber, what goes out to the peers named ----
define wrapBytes(s) = sub(ghost(in, s), 4, announced(ghost(in, s)))
define wrapType(s) = jsondec(messages.WrappedMessage, MessageType, wrapBytes(s))
define wrapId(s) = jsondec(messages.WrappedMessage, MsgID, wrapBytes(s))
define openSubs(c) = forall t messages.THORChainTSSMessageType, m string :: subOf(c, t, m) != nil ==> !chanclosed(subOf(c, t, m))
// a stream that was taken is parked once, under the session it names or as one of unknown session
define parkedUnder(sm, m, s) = m in sm.unusedStreams && len(parked(sm, m)) == old(len(parked(sm, m))) + 1 && parked(sm, m)[old(len(parked(sm, m)))] == s

func p2p.NewCommunication(rendezvous, bootstrapPeers, port, externalIP) (c, err) [C19]
  nopanic [C07]
  ensures err == nil ==> fresh(c) && subsOK(c) && (forall t messages.THORChainTSSMessageType, m string :: subOf(c, t, m) == nil) && c.streamMgr != nil && c.streamMgr.streamLocker != nil && c.streamMgr.unusedStreams != nil && c.streamMgr.streamLocker != c.subscriberLocker && c.BroadcastMsgChan != nil && !chanclosed(c.BroadcastMsgChan)

func p2p.Communication.readFromStream(c, stream) () [C19]
  requires commOk(c) && stream != nil && openSubs(c)
  modifies elems(c.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), sends(subOf(c, wrapType(stream), wrapId(stream)))
  nopanic [C07, C19]
  locks [C23]
  // the subscriber of the type and session gets the bytes read, with the peer they came from, once
  onsend *p2p.Message(v) v != nil && v.PeerID == stream.Conn().RemotePeer() && string(v.Payload) == wrapBytes(stream)
  ensures subOf(c, wrapType(stream), wrapId(stream)) != nil ==> chansent(subOf(c, wrapType(stream), wrapId(stream))) <= old(chansent(subOf(c, wrapType(stream), wrapId(stream)))) + 1
  ensures [C20] subOf(c, wrapType(stream), wrapId(stream)) != nil && chansent(subOf(c, wrapType(stream), wrapId(stream))) != old(chansent(subOf(c, wrapType(stream), wrapId(stream)))) ==> parkedUnder(c.streamMgr, old(wrapId(stream)), stream)
  atcall p2p.StreamMgr.AddStream(sm, id, st) [C20] sm == c.streamMgr && st == stream && (id == "UNKNOWN" || id == wrapId(stream))

func p2p.Communication.handleStream(c, stream) () [C19]
  requires commOk(c) && stream != nil && openSubs(c)
  modifies elems(c.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), sends(subOf(c, wrapType(stream), wrapId(stream)))
  nopanic [C07, C19]
  locks [C23]

// what goes out is written whole to a stream of the peer, and the stream is parked under the session
func p2p.Communication.writeToStream(c, pID, msg, msgID) (err) [C22]
  requires commOk(c) && len(msg) <= 4294967295
  modifies elems(c.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out)
  nopanic [C07]
  locks [C23]
  atcall p2p.WriteStreamWithBuffer(m, st) m == msg
  atcall p2p.StreamMgr.AddStream(sm, id, st) [C20] sm == c.streamMgr && id == msgID
func p2p.Communication.broadcastToPeers(c, peers, msg, msgID) () [C22]
  requires commOk(c) && len(msg) <= 4294967295 && c.wg != nil
  modifies elems(c.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out)
  nopanic [C07]
  locks [C23]
  atcall p2p.Communication.writeToStream(k, p, m, id) k == c && m == msg && id == msgID && (exists i int :: 0 <= i && i < len(peers) && peers[i] == p)
func p2p.Communication.Broadcast(c, peers, msg, msgID) () [C22]
  requires commOk(c) && len(msg) <= 4294967295 && c.wg != nil
  modifies elems(c.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out)
  nopanic [C07]
  locks [C23]
chaninv *messages.BroadcastMsgChan (m) m != nil
func p2p.Communication.ProcessBroadcast(c) () [C22]
  requires commOk(c) && c.wg != nil && !chanclosed(c.BroadcastMsgChan)
  modifies elems(c.streamMgr.unusedStreams), ghost(nReset), ghost(resetLog), anyghost(out)
  nopanic [C07]
  locks [C23]
  // to the peers the message names, the encoding of the message, for its session
  atcall p2p.Communication.Broadcast(k, ps, m, id) k == c && sameList(ps, lastrecv(*messages.BroadcastMsgChan).PeersID) && id == lastrecv(*messages.BroadcastMsgChan).WrappedMessage.MsgID && string(m) == jsonenc(lastrecv(*messages.BroadcastMsgChan).WrappedMessage)
