package keysign

// Signature notices from honest and hostile peers against an oracle which recomputes what may be delivered.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/common"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/rs/zerolog"
	"github.com/tendermint/btcd/btcec"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
)

type vConn struct{ network.Conn }

func (vConn) RemotePeer() peer.ID { return "a peer" }

type vStream struct {
	network.Stream
	in []byte
}

func (s *vStream) Conn() network.Conn { return vConn{} }
func (s *vStream) Read(p []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.in)
	s.in = s.in[n:]
	return n, nil
}
func (s *vStream) Write(p []byte) (int, error)        { return len(p), nil }
func (s *vStream) SetReadDeadline(t time.Time) error  { return nil }
func (s *vStream) SetWriteDeadline(t time.Time) error { return nil }
func (s *vStream) Reset() error                       { return nil }
func (s *vStream) Close() error                       { return nil }

type vSession struct {
	id   string
	priv *btcec.PrivateKey
	pool string
	msgs [][]byte
	n    *Notifier
	open bool
}

func vKey(r *rand.Rand) (*btcec.PrivateKey, string) {
	var b [32]byte
	r.Read(b[:])
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), b[:])
	pk := coskey.PubKey{Key: secp256k1.PubKey(pub.SerializeCompressed())}
	s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &pk)
	if err != nil {
		panic(err)
	}
	return priv, s
}

func vSign(priv *btcec.PrivateKey, msg []byte) *common.ECSignature {
	s, err := priv.Sign(msg)
	if err != nil {
		panic(err)
	}
	return &common.ECSignature{Signature: append(append([]byte{}, s.R.Bytes()...), s.S.Bytes()...), SignatureRecovery: []byte{1}, R: s.R.Bytes(), S: s.S.Bytes(), M: msg}
}

func TestVerifReplayNotices(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	p2p.ApplyDeadline = false
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for h := 0; h < 150; h++ {
		r := rand.New(rand.NewSource(int64(seed)*100000 + int64(h)))
		failed := false
		what := ""
		bad := func(f string, a ...interface{}) {
			if !failed {
				failed = true
				fmt.Printf("REPLAY-FAIL: "+f+" (history %d: %s)\n", append(a, h, what)...)
			}
		}
		sn := &SignatureNotifier{logger: zerolog.Nop(), notifierLock: &sync.Mutex{}, notifiers: map[string]*Notifier{}, messages: make(chan *signatureItem), streamMgr: p2p.NewStreamMgr()}
		var ss []*vSession
		for i := 0; i < 3; i++ {
			s := &vSession{id: fmt.Sprintf("session %d", i), open: true}
			s.priv, s.pool = vKey(r)
			for j := 1 + r.Intn(3); j > 0; j-- {
				m := make([]byte, 32)
				r.Read(m)
				s.msgs = append(s.msgs, m)
			}
			n, err := NewNotifier(s.id, s.msgs, s.pool)
			if err != nil {
				bad("a notifier is refused: %v", err)
				return
			}
			s.n = n
			sn.addToNotifiers(n)
			ss = append(ss, s)
		}
		for step := 0; step < 25 && !failed; step++ {
			s := ss[r.Intn(3)]
			var sigs []*common.ECSignature
			for _, m := range s.msgs {
				sigs = append(sigs, vSign(s.priv, m))
			}
			what = "a complete notice"
			k := r.Intn(len(sigs))
			status := messages.KeysignSignature_Success
			id := s.id
			switch r.Intn(14) {
			case 0:
				what = "a notice with one more signature"
				sigs = append(sigs, vSign(s.priv, s.msgs[k]))
			case 1:
				what = "a notice with one signature less"
				sigs = append(sigs[:k], sigs[k+1:]...)
			case 2:
				what = "a notice with the signatures in another order"
				r.Shuffle(len(sigs), func(i, j int) { sigs[i], sigs[j] = sigs[j], sigs[i] })
			case 3:
				what = "a notice with a signature by another key"
				o, _ := vKey(r)
				sigs[k] = vSign(o, s.msgs[k])
			case 4:
				what = "a notice with a signature of another message"
				sigs[k] = vSign(s.priv, []byte("another message of thirty-two by"))
			case 5:
				what = "a notice with an absent signature"
				sigs[k] = &common.ECSignature{}
			case 6:
				what = "a notice of failure"
				status = messages.KeysignSignature_Failed
			case 7:
				what = "a notice for an unknown session"
				id = "unknown"
			case 8:
				what = "a notice with damaged numbers"
				sigs[k].S = append([]byte{}, sigs[k].S...)
				sigs[k].S[len(sigs[k].S)-1] ^= 1
			case 9:
				what = "an empty notice"
				sigs = nil
			case 10:
				what = "a notice with the signatures of another session"
				id = ss[r.Intn(3)].id
			case 11:
				what = "a notice repeating the first signature"
				for i := range sigs {
					sigs[i] = sigs[0]
				}
			}
			ks := &messages.KeysignSignature{ID: id, KeysignStatus: status}
			for _, g := range sigs {
				b, _ := proto.Marshal(g)
				ks.Signatures = append(ks.Signatures, b)
			}
			if r.Intn(25) == 0 && len(ks.Signatures) > 0 {
				what = "a notice with an undecodable signature"
				ks.Signatures[len(ks.Signatures)-1] = []byte{0xff, 0xff}
				sigs = nil
			}
			payload, _ := proto.Marshal(ks)
			if r.Intn(25) == 0 {
				what = "a notice which does not decode"
				payload, id = []byte{0xff, 0xff, 0xff}, "unknown"
			}
			buf := make([]byte, 4)
			binary.LittleEndian.PutUint32(buf, uint32(len(payload)))
			// what may be delivered
			var to *vSession
			for _, o := range ss {
				if o.id == id && o.open && status == messages.KeysignSignature_Success && len(sigs) == len(o.msgs) {
					to = o
					for i, g := range sigs {
						pub := o.priv.PubKey()
						b := &btcec.Signature{}
						b.R, b.S = vInt(g.R), vInt(g.S)
						if len(g.Signature) == 0 || !b.Verify(o.msgs[i], pub) {
							to = nil
							break
						}
					}
				}
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						bad("the handler crashes: %v", e)
					}
				}()
				sn.handleStream(&vStream{in: append(buf, payload...)})
			}()
			for _, o := range ss {
				var got []*common.ECSignature
				select {
				case got = <-o.n.resp:
				default:
				}
				switch {
				case o == to && (len(got) != len(sigs) || !sameSigs(got, sigs)):
					bad("%s is delivered %d of its signatures, not the complete set", o.id, len(got))
				case o != to && got != nil:
					bad("%s is handed %d signatures for its %d messages, which it must not get", o.id, len(got), len(o.msgs))
				}
				if o == to {
					o.open = false
				}
			}
			var have, want []string
			for k, n := range sn.notifiers {
				have = append(have, fmt.Sprint(k, " ", n.MessageID == k))
			}
			for _, o := range ss {
				if o.open {
					want = append(want, o.id+" true")
				}
			}
			sort.Strings(have)
			sort.Strings(want)
			if !reflect.DeepEqual(have, want) {
				bad("the waiting sessions are %v, not %v", have, want)
			}
			for _, o := range ss {
				if !o.open && r.Intn(3) == 0 {
					o.n, _ = NewNotifier(o.id, o.msgs, o.pool)
					sn.addToNotifiers(o.n)
					o.open = true
				}
			}
		}
		if failed {
			return
		}
	}
}

func TestVerifReplayWaiter(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	r := rand.New(rand.NewSource(7))
	for i := 0; i < 20; i++ {
		priv, pool := vKey(r)
		msgs := [][]byte{make([]byte, 32), make([]byte, 32)}
		r.Read(msgs[0])
		r.Read(msgs[1])
		good := []*common.ECSignature{vSign(priv, msgs[0]), vSign(priv, msgs[1])}
		sn := &SignatureNotifier{logger: zerolog.Nop(), notifierLock: &sync.Mutex{}, notifiers: map[string]*Notifier{"other": nil}, streamMgr: p2p.NewStreamMgr()}
		done := make(chan bool)
		var got []*common.ECSignature
		var err error
		sigChan := make(chan string, 1)
		go func() {
			got, err = sn.WaitForSignature("s", msgs, pool, 5*time.Second, sigChan)
			close(done)
		}()
		var n *Notifier
		for n == nil {
			sn.notifierLock.Lock()
			n = sn.notifiers["s"]
			sn.notifierLock.Unlock()
			time.Sleep(time.Millisecond)
		}
		if i%3 == 2 {
			sigChan <- "generated"
		} else if fin, e := n.ProcessSignature(good); !fin || e != nil {
			fmt.Printf("REPLAY-FAIL: the complete set of signatures is refused: %v\n", e)
			return
		}
		<-done
		if i%3 == 2 && (err == nil || got != nil) {
			fmt.Printf("REPLAY-FAIL: a waiter which was called off returns %v, %v\n", got, err)
			return
		}
		if i%3 != 2 && (err != nil || !sameSigs(got, good)) {
			fmt.Printf("REPLAY-FAIL: the waiter returns %v, %v instead of the delivered signatures\n", got, err)
			return
		}
		if _, ok := sn.notifiers["other"]; !ok || len(sn.notifiers) != 1 {
			fmt.Printf("REPLAY-FAIL: after the wait the sessions are %v\n", sn.notifiers)
			return
		}
	}
}

func sameSigs(a, b []*common.ECSignature) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
func vInt(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
