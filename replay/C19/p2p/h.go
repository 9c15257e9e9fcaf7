package p2p

// What a stream brings goes to the subscriber of its type and session, once, with the peer it came from.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/rs/zerolog"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

type vgHost struct{ host.Host }

func (h *vgHost) ID() peer.ID { return "self" }

type vgConn struct{ network.Conn }

func (c vgConn) RemotePeer() peer.ID { return "other" }

type vgStream struct {
	network.Stream
	in []byte
}

func (s *vgStream) Conn() network.Conn { return vgConn{} }
func (s *vgStream) Read(p []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.in)
	s.in = s.in[n:]
	return n, nil
}
func (s *vgStream) Write(p []byte) (int, error)      { return len(p), nil }
func (s *vgStream) SetReadDeadline(time.Time) error  { return nil }
func (s *vgStream) SetWriteDeadline(time.Time) error { return nil }
func (s *vgStream) Reset() error                     { return nil }
func (s *vgStream) Close() error                     { return nil }

func TestVerifReplayHandlers(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	ApplyDeadline = false
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	done := make(chan struct{})
	what := ""
	go func() {
		defer close(done)
		defer func() {
			if x := recover(); x != nil {
				bad("%s panics: %v", what, x)
			}
		}()
		h := &vgHost{}
		c, err := NewCommunication("rv", nil, 1000, "")
		if err != nil {
			return
		}
		c.host = h
		subs := map[string]chan *Message{}
		for it := 0; it < 4000; it++ {
			id := "m" + strconv.Itoa(r.Intn(4))
			var pl []byte
			readable := true
			which := 0
			typ := messages.THORChainTSSMessageType(r.Intn(3))
			switch which {
			case 0:
				pl, _ = json.Marshal(messages.WrappedMessage{MessageType: typ, MsgID: id, Payload: []byte("x" + strconv.Itoa(it))})
			}
			n := len(pl)
			switch r.Intn(5) {
			case 0: // not a message
				pl, readable = []byte{255, 255, 255}, false
				n = 3
			case 1: // not as long as announced
				n, readable = len(pl)+1+r.Intn(5), false
			}
			hd := make([]byte, 4)
			binary.LittleEndian.PutUint32(hd, uint32(n))
			s := &vgStream{in: append(hd, pl...)}
			switch which {
			case 0:
				key := fmt.Sprintf("%d/%s", typ, id)
				switch r.Intn(4) {
				case 0:
					ch := make(chan *Message, 2)
					c.SetSubscribe(typ, id, ch)
					subs[key] = ch
				case 1:
					c.CancelSubscribe(typ, id)
					delete(subs, key)
				}
				what = fmt.Sprintf("a message of type %d and session %s (readable %v)", typ, id, readable)
				c.handleStream(s)
				for k, ch := range subs {
					select {
					case m := <-ch:
						if k != key || !readable {
							bad("%s was delivered to the subscriber of %s", what, k)
							return
						}
						if m == nil || m.PeerID != "other" || !bytes.Equal(m.Payload, pl) {
							bad("%s: the subscriber got %v", what, m)
							return
						}
						select {
						case <-ch:
							bad("%s was delivered twice", what)
							return
						default:
						}
					default:
						if k == key && readable {
							bad("%s was not delivered to its subscriber", what)
							return
						}
					}
				}
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		bad("no return of %s", what)
	}
}
