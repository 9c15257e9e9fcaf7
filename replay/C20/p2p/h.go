package p2p

// The handlers: a stream whose message was taken is parked once, under the session it names or as one of unknown session.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/rs/zerolog"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/messages"
)

type vhHost struct{ host.Host }

func (h *vhHost) ID() peer.ID                                         { return "self" }
func (h *vhHost) SetStreamHandler(protocol.ID, network.StreamHandler) {}

type vhConn struct{ network.Conn }

func (c vhConn) RemotePeer() peer.ID { return "other" }

type vhStream struct {
	network.Stream
	in []byte
}

func (s *vhStream) Conn() network.Conn { return vhConn{} }
func (s *vhStream) Read(p []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.in)
	s.in = s.in[n:]
	return n, nil
}
func (s *vhStream) Write(p []byte) (int, error)      { return len(p), nil }
func (s *vhStream) SetReadDeadline(time.Time) error  { return nil }
func (s *vhStream) SetWriteDeadline(time.Time) error { return nil }
func (s *vhStream) Reset() error                     { return nil }
func (s *vhStream) Close() error                     { return nil }

func TestVerifReplayHandlers(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	ApplyDeadline = false
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	done := make(chan struct{})
	what := ""
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				bad("%s panics: %v", what, x)
			}
		}()
		h := &vhHost{}
		c, err := NewCommunication("rv", nil, 1000, "")
		if err != nil {
			return
		}
		c.host = h
		pc := NewPartyCoordinator(h, time.Second)
		subs := map[string]chan *Message{}
		for it := 0; it < 4000; it++ {
			id := "m" + strconv.Itoa(r.Intn(4))
			var pl []byte
			readable := true
			which := r.Intn(3)
			typ := messages.THORChainTSSMessageType(r.Intn(3))
			switch which {
			case 0:
				pl, _ = json.Marshal(messages.WrappedMessage{MessageType: typ, MsgID: id, Payload: []byte("x" + strconv.Itoa(it))})
			case 1:
				pl, _ = proto.Marshal(&messages.JoinPartyRequest{ID: id})
			case 2:
				pl, _ = proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: []string{"request", "response", "other", ""}[r.Intn(4)]})
			}
			n := len(pl)
			switch r.Intn(5) {
			case 0: // not a message
				pl, readable = []byte{255, 255, 255}, false
				n = 3
			case 1: // not as long as announced
				n, readable = len(pl)+1+r.Intn(5), false
			}
			hd := make([]byte, 4)
			binary.LittleEndian.PutUint32(hd, uint32(n))
			s := &vhStream{in: append(hd, pl...)}
			sm := pc.streamMgr
			switch which {
			case 0:
				sm = c.streamMgr
				key := fmt.Sprintf("%d/%s", typ, id)
				switch r.Intn(4) {
				case 0:
					ch := make(chan *Message, 2)
					c.SetSubscribe(typ, id, ch)
					subs[key] = ch
				case 1:
					c.CancelSubscribe(typ, id)
					delete(subs, key)
				}
				what = fmt.Sprintf("a message of type %d and session %s (readable %v)", typ, id, readable)
				c.handleStream(s)
				for k, ch := range subs {
					select {
					case m := <-ch:
						if k != key || !readable {
							bad("%s was delivered to the subscriber of %s", what, k)
							return
						}
						if m == nil || m.PeerID != "other" || !bytes.Equal(m.Payload, pl) {
							bad("%s: the subscriber got %v", what, m)
							return
						}
						select {
						case <-ch:
							bad("%s was delivered twice", what)
							return
						default:
						}
					default:
						if k == key && readable {
							bad("%s was not delivered to its subscriber", what)
							return
						}
					}
				}
			case 1:
				what = fmt.Sprintf("a join of session %s (readable %v)", id, readable)
				pc.HandleStream(s)
			case 2:
				what = fmt.Sprintf("a message of the join of session %s with a leader (readable %v) % x", id, readable, pl)
				pc.HandleStreamWithLeader(s)
			}
			var at []string
			for k, l := range sm.unusedStreams {
				for _, x := range l {
					if x == network.Stream(s) {
						at = append(at, k)
					}
				}
			}
			if len(at) != 1 || (at[0] != "UNKNOWN" && (!readable || at[0] != id)) {
				bad("the stream of %s is parked under %v", what, at)
				return
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		bad("no return of %s", what)
	}
}
