// ---- parked streams (C20) ----
import network "github.com/libp2p/go-libp2p-core/network"
guard p2p.StreamMgr.unusedStreams by p2p.StreamMgr.streamLocker [C23]

// log of the streams that were reset, in order
ghost nReset global uint
ghost resetLog global [1]network.Stream
define parked(sm, m) = sm.unusedStreams[m]
// no nil is parked
define parkOk(sm) = (forall m string, i int :: m in sm.unusedStreams && 0 <= i && i < len(sm.unusedStreams[m]) ==> sm.unusedStreams[m][i] != nil)

extern github.com/libp2p/go-libp2p-core/mux.MuxedStream.Reset(s) (err)
  modifies ghost(nReset), ghost(resetLog)
  ensures ghost(nReset) == old(ghost(nReset)) + 1
  ensures ghost(resetLog) == upd(old(ghost(resetLog)), old(ghost(nReset)), s)

func p2p.NewStreamMgr() (r) [C20]
  nopanic [C07, C17]
  ensures fresh(r) && fresh(r.unusedStreams) && fresh(r.streamLocker) && (forall m string :: !(m in r.unusedStreams))

func p2p.StreamMgr.AddStream(sm, msgID, stream) () [C20]
  requires sm.streamLocker != nil && sm.unusedStreams != nil
  modifies elems(sm.unusedStreams)
  nopanic [C07]
  locks [C23]
  ensures stream == nil ==> (forall m string :: (m in sm.unusedStreams) == old(m in sm.unusedStreams) && parked(sm, m) == old(parked(sm, m)))
  ensures forall m string :: m != msgID ==> (m in sm.unusedStreams) == old(m in sm.unusedStreams) && parked(sm, m) == old(parked(sm, m))
  ensures stream != nil ==> msgID in sm.unusedStreams && len(parked(sm, msgID)) == old(len(parked(sm, msgID))) + 1 && parked(sm, msgID)[old(len(parked(sm, msgID)))] == stream
  ensures forall i int :: stream != nil && 0 <= i && i < old(len(parked(sm, msgID))) ==> parked(sm, msgID)[i] == old(parked(sm, msgID)[i])

func p2p.StreamMgr.ReleaseStream(sm, msgID) () [C20]
  requires sm.streamLocker != nil && sm.unusedStreams != nil
  requires [C07] parkOk(sm)
  modifies elems(sm.unusedStreams), ghost(nReset), ghost(resetLog)
  nopanic [C07]
  locks [C23]
  // streams of the session and of unknown sessions are no longer parked, the others stay
  ensures !(msgID in sm.unusedStreams) && !("UNKNOWN" in sm.unusedStreams)
  ensures forall m string :: m != msgID && m != "UNKNOWN" ==> (m in sm.unusedStreams) == old(m in sm.unusedStreams) && parked(sm, m) == old(parked(sm, m))
  // every one of them is reset, as often as it was parked, and nothing else is
  ensures msgID != "UNKNOWN" ==> ghost(nReset) == old(ghost(nReset)) + old(len(parked(sm, msgID))) + old(len(parked(sm, "UNKNOWN")))
  ensures forall i int :: 0 <= i && i < old(ghost(nReset)) ==> ghost(resetLog)[i] == old(ghost(resetLog)[i])
  ensures forall i int :: 0 <= i && i < old(len(parked(sm, msgID))) ==> ghost(resetLog)[old(ghost(nReset)) + i] == old(parked(sm, msgID)[i])
  ensures forall i int :: msgID != "UNKNOWN" && 0 <= i && i < old(len(parked(sm, "UNKNOWN"))) ==> ghost(resetLog)[old(ghost(nReset)) + old(len(parked(sm, msgID))) + i] == old(parked(sm, "UNKNOWN")[i])

extern pure github.com/libp2p/go-libp2p-core/network.Stream.Conn(s) (r)
  nopanic
  ensures r != nil
extern pure github.com/libp2p/go-libp2p-core/network.Conn.RemotePeer(c) (r)
  nopanic
