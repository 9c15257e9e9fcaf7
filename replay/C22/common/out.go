package common

// Outgoing shares against a batching oracle: random histories of shares of several rounds, destinations and messages.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"testing"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

type vOutMsg struct {
	btss.Message
	wire []byte
	rt   *btss.MessageRouting
	name string
	id   *btss.PartyID
	err  error
}

func (m *vOutMsg) WireBytes() ([]byte, *btss.MessageRouting, error) { return m.wire, m.rt, m.err }
func (m *vOutMsg) Type() string                                     { return m.name }
func (m *vOutMsg) GetFrom() *btss.PartyID                           { return m.id }
func (m *vOutMsg) IsBroadcast() bool                                { return m.rt.IsBroadcast }
func (m *vOutMsg) GetTo() []*btss.PartyID                           { return m.rt.To }

func TestVerifReplayOutgoing(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	prop := os.Getenv("VERIF_PROP")
	if prop != "" && prop != "C22" {
		t.Skip()
	}
	for s := 0; s < 300; s++ {
		r := rand.New(rand.NewSource(int64(seed)*100000 + int64(s)))
		failed := false
		w := newVWorld(r, prop, func(p, f string, a ...interface{}) {})
		bad := func(f string, a ...interface{}) {
			if !failed {
				failed = true
				fmt.Printf("REPLAY-FAIL: C22: "+f+" (history %d, committee of %d)\n", append(a, s, len(w.members))...)
			}
		}
		num := 1 + r.Intn(3)
		w.t.msgNum = num
		type batch struct {
			name, dest string
			list       []BulkWireMsg
		}
		pend := map[string]*batch{}
		ty := messages.TSSKeySignMsg
		if r.Intn(2) == 0 {
			ty = messages.TSSKeyGenMsg
		}
		for i := 0; i < 40 && !failed; i++ {
			k := r.Intn(4)
			b, rt, name := w.share(k, i, w.members[0].party, w.members[1+r.Intn(len(w.members)-1)].party)
			dest := ""
			if !rt.IsBroadcast {
				if len(w.members) > 3 && r.Intn(4) == 0 {
					rt.To = append(rt.To, w.members[1+r.Intn(len(w.members)-1)].party)
					if r.Intn(2) == 0 { // and somebody unknown in between
						rt.To = []*btss.PartyID{rt.To[0], btss.NewPartyID("stranger", "stranger", w.members[0].party.KeyInt()), rt.To[1]}
					}
				}
				dest = rt.To[0].String()
			}
			if r.Intn(10) == 0 { // one message whose destination is unknown
				rt.IsBroadcast = false
				rt.To = []*btss.PartyID{btss.NewPartyID("stranger", "stranger", w.members[0].party.KeyInt())}
				dest = rt.To[0].String()
			}
			from := btss.NewPartyID(w.members[0].party.Id, fmt.Sprintf("m%d", r.Intn(num)), w.members[0].party.KeyInt())
			m := &vOutMsg{wire: b, rt: rt, name: name, id: from}
			if r.Intn(12) == 0 {
				m.err = errors.New("no wire bytes")
			}
			err := w.t.ProcessOutCh(m, ty)
			if (err != nil) != (m.err != nil) {
				bad("a share yields %v while its encoding yields %v", err, m.err)
			}
			var want *batch
			if m.err == nil {
				key := fmt.Sprintf("%v|%s|%s", rt.IsBroadcast, name, dest)
				if pend[key] == nil {
					pend[key] = &batch{name: name, dest: dest}
				}
				q := pend[key]
				q.list = append(q.list, NewBulkWireMsg(b, from.Moniker, rt))
				if len(q.list) == num {
					want = q
					delete(pend, key)
				}
			}
			outs := w.drain()
			if want == nil {
				if len(outs) != 0 {
					bad("%d messages are sent although no batch is complete", len(outs))
				}
				continue
			}
			if len(outs) != 1 {
				bad("a complete batch of %d shares of %s is sent %d times", num, want.name, len(outs))
				continue
			}
			o := outs[0]
			var env messages.WireMessage
			var list []BulkWireMsg
			if o.WrappedMessage.MessageType != ty || o.WrappedMessage.MsgID != w.msgID || json.Unmarshal(o.WrappedMessage.Payload, &env) != nil || json.Unmarshal(env.Message, &list) != nil {
				bad("the message of a batch of %s is %+v", want.name, o.WrappedMessage)
				continue
			}
			a, _ := json.Marshal(want.list)
			if string(a) != string(env.Message) {
				bad("the batch of %s does not carry exactly its %d shares: %s", want.name, num, env.Message)
			}
			if env.RoundInfo != want.name || env.Routing == nil || !reflect.DeepEqual(env.Routing.IsBroadcast, want.list[0].Routing.IsBroadcast) {
				bad("the batch of %s is labelled %s", want.name, env.RoundInfo)
			}
			if !w.members[0].priv.PubKey().VerifySignature(append(append([]byte{}, env.Message...), []byte(w.msgID)...), env.Sig) {
				bad("the batch of %s is not signed by the local key for this session", want.name)
			}
			var got, exp []string
			for _, p := range o.PeersID {
				got = append(got, p.String())
			}
			if len(want.list[0].Routing.To) == 0 {
				for _, m := range w.members[1:] {
					exp = append(exp, m.pid.String())
				}
			} else {
				for _, to := range want.list[0].Routing.To {
					if p, ok := w.t.PartyIDtoP2PID[to.Id]; ok {
						exp = append(exp, p.String())
					}
				}
			}
			sort.Strings(got)
			sort.Strings(exp)
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				bad("a batch of %s (to %v) is sent to %v", want.name, want.list[0].Routing.To, got)
			}
		}
		if failed {
			return
		}
	}
}
