package common

// The session against a step by step oracle: random histories of honest and hostile peer messages are fed to
// ProcessOneMessage, with a recording stand-in for the signing engine.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"testing"

	"github.com/binance-chain/tss-lib/crypto/paillier"
	btsskeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/rs/zerolog"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

var _ = paillier.PublicKey{}

type vEngine struct {
	btss.Party
	id   string
	call func(e *vEngine, w []byte, from *btss.PartyID, bc bool) (bool, *btss.Error)
	self *btss.PartyID
}

func (e *vEngine) UpdateFromBytes(w []byte, from *btss.PartyID, bc bool) (bool, *btss.Error) {
	return e.call(e, w, from, bc)
}
func (e *vEngine) PartyID() *btss.PartyID { return e.self }

type vMember struct {
	priv  secp256k1.PrivKey
	party *btss.PartyID
	pid   peer.ID
}

type vItem struct {
	msg   *messages.WireMessage
	hash  string
	votes map[string]string
}

type vWorld struct {
	r       *rand.Rand
	prop    string
	bad     func(p, f string, a ...interface{})
	failed  bool
	t       *TssCommon
	out     chan *messages.BroadcastMsgChan
	members []*vMember // [0] is local
	th      int
	msgID   string
	mu      sync.Mutex
	signed  map[string]bool // owner|bytes
	took    map[string]bool // round|id|owner accepted by the engine
	outcome map[string]int
	cheats  map[string]bool // exposed in an earlier step
	exposed []string
	done    map[string]bool
	asked   map[string]bool
	hist    []string
	wires   []*messages.WireMessage
	curEnv  *messages.WireMessage
	seenRnd map[blame.RoundInfo]bool
}

func vHash(b []byte) string { s, _ := conversion.BytesToHashString(b); return s }

func (w *vWorld) items() map[string]vItem {
	m := map[string]vItem{}
	for k, it := range w.t.unConfirmedMessages {
		v := map[string]string{}
		for p, h := range it.ConfirmedList {
			v[p] = h
		}
		m[k] = vItem{it.Msg, it.Hash, v}
	}
	return m
}

func (w *vWorld) share(k, n int, from *btss.PartyID, to *btss.PartyID) ([]byte, *btss.MessageRouting, string) {
	fill := []byte(fmt.Sprintf("share %d", n))
	var c btss.MessageContent
	var name string
	rt := btss.MessageRouting{From: from, IsBroadcast: true}
	switch k {
	case 0:
		c, name = &btsskeygen.KGRound1Message{Commitment: fill}, messages.KEYGEN1
	case 1:
		c, name = &btsskeygen.KGRound2Message1{Share: fill}, messages.KEYGEN2aUnicast
		rt.IsBroadcast, rt.To = false, []*btss.PartyID{to}
	case 2:
		c, name = &btsskeygen.KGRound2Message2{DeCommitment: [][]byte{fill}}, messages.KEYGEN2b
	default:
		c, name = &btsskeygen.KGRound3Message{PaillierProof: [][]byte{fill}}, messages.KEYGEN3
	}
	b, _, _ := btss.NewMessage(rt, c, btss.NewMessageWrapper(rt, c)).WireBytes()
	return b, &rt, name
}

// envelope: a message of member m as an honest or a lying member makes it
func (w *vWorld) envelope(m *vMember) *messages.WireMessage {
	r := w.r
	k := r.Intn(4)
	_, rt, name := w.share(k, 0, m.party, w.members[0].party)
	var bulk []BulkWireMsg
	for i := 1 + r.Intn(2); i > 0; i-- {
		b, brt, _ := w.share(k, r.Intn(2), m.party, w.members[0].party)
		id := []string{"m0", "m1"}[(i+1)%2]
		switch r.Intn(30) {
		case 0:
			b = []byte("junk")
		case 1:
			brt = nil
		case 2:
			brt.From = w.members[r.Intn(len(w.members))].party
		case 3:
			brt.IsBroadcast = !brt.IsBroadcast
		case 4:
			brt.From = nil
		case 5:
			id = "unknown"
		case 6:
			b, brt, _ = w.share(r.Intn(4), 1, m.party, w.members[0].party)
		}
		bulk = append(bulk, NewBulkWireMsg(b, id, brt))
	}
	buf, _ := json.Marshal(bulk)
	if r.Intn(40) == 0 {
		buf = []byte("null")
	}
	e := &messages.WireMessage{Routing: rt, RoundInfo: name, Message: buf}
	if r.Intn(12) == 0 {
		e.RoundInfo = "other"
	}
	e.Sig, _ = generateSignature(buf, w.msgID, m.priv)
	switch r.Intn(14) {
	case 0: // signed for another session
		e.Sig, _ = generateSignature(buf, "other session", m.priv)
	case 1: // signed by somebody else
		o := w.members[r.Intn(len(w.members))]
		e.Sig, _ = generateSignature(buf, w.msgID, o.priv)
		w.signed[o.party.Id+"|"+string(buf)] = true
	case 2:
		e.Sig = nil
	default:
		w.signed[m.party.Id+"|"+string(buf)] = true
	}
	return e
}

// damage: leave parts out of the JSON text
func (w *vWorld) damage(b []byte) []byte {
	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	var cut func(v interface{}) interface{}
	cut = func(v interface{}) interface{} {
		if w.r.Intn(7) == 0 {
			return nil
		}
		switch x := v.(type) {
		case map[string]interface{}:
			ks := []string{}
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if w.r.Intn(7) == 0 {
					delete(x, k)
				} else {
					x[k] = cut(x[k])
				}
			}
		case []interface{}:
			for i := range x {
				x[i] = cut(x[i])
			}
		}
		return v
	}
	o, _ := json.Marshal(cut(v))
	return o
}

func (w *vWorld) engineCall(e *vEngine, wire []byte, from *btss.PartyID, bc bool) (bool, *btss.Error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if from == nil {
		w.bad("C03", "the engine is given a share of nobody")
		return true, nil
	}
	known := w.t.partyInfo.PartyIDMap[from.Id] == from
	ri, err := GetMsgRound(wire, from, bc)
	ri.MsgIdentifier = e.id
	if err != nil {
		w.bad("C03", "the engine is given a broken share")
		return false, nil
	}
	w.seenRnd[ri] = true
	// where it comes from: an envelope signed by that member
	found := false
	for s := range w.signed {
		if len(s) > len(from.Id) && s[:len(from.Id)+1] == from.Id+"|" {
			var bulk []BulkWireMsg
			json.Unmarshal([]byte(s[len(from.Id)+1:]), &bulk)
			for _, b := range bulk {
				if b.MsgIdentifier == e.id && string(b.WiredBulkMsgs) == string(wire) {
					found = true
				}
			}
		}
	}
	if !known || !found {
		w.bad("C03", "the engine is given a share (%s of %s) which member %s never signed for this session", ri.RoundMsg, e.id, from.Id)
	}
	key := fmt.Sprintf("%d|%s|%s|%s", ri.Index, ri.RoundMsg, e.id, from.Id)
	if w.took[key] {
		w.bad("C06", "the engine is given the share %s twice", key)
	}
	if w.cheats[from.Id] {
		w.bad("C06", "the engine is given a share of the exposed cheater %s", from.Id)
	}
	if bc {
		ok := false
		for _, it := range w.t.unConfirmedMessages {
			if it.Msg == nil || it.Msg.Routing.From.Id != from.Id {
				continue
			}
			var bulk []BulkWireMsg
			json.Unmarshal(it.Msg.Message, &bulk)
			in := false
			for _, b := range bulk {
				in = in || string(b.WiredBulkMsgs) == string(wire) && b.MsgIdentifier == e.id
			}
			if !in {
				continue
			}
			h := vHash(it.Msg.Message)
			cnt, best := map[string]int{}, 0
			for p, v := range it.ConfirmedList {
				if p == w.t.PartyIDtoP2PID[from.Id].String() {
					cnt[v] -= 1000
				}
				cnt[v]++
				if cnt[v] > best {
					best = cnt[v]
				}
			}
			if cnt[h] >= best && cnt[h] >= w.th-1 && len(it.ConfirmedList) >= w.th {
				ok = true
			}
		}
		if !ok {
			w.bad("C04", "the broadcast share %s is applied although the committee did not confirm it", key)
		}
	}
	switch w.r.Intn(12) {
	case 0:
		return false, nil
	case 1:
		c := w.members[1+w.r.Intn(len(w.members)-1)].party
		w.exposed = append(w.exposed, c.Id)
		return false, btss.NewError(errors.New("bad share"), "task", 1, e.self, c)
	}
	w.took[key] = true
	return true, nil
}

func newVWorld(r *rand.Rand, prop string, bad func(p, f string, a ...interface{})) *vWorld {
	w := &vWorld{r: r, prop: prop, bad: bad, msgID: "session", signed: map[string]bool{}, took: map[string]bool{}, cheats: map[string]bool{}, done: map[string]bool{}, asked: map[string]bool{}, outcome: map[string]int{}, seenRnd: map[blame.RoundInfo]bool{}}
	n := 3 + r.Intn(5)
	privs := map[string]secp256k1.PrivKey{}
	var keys []string
	for i := 0; i < n; i++ {
		var seed [32]byte
		r.Read(seed[:])
		p := secp256k1.GenPrivKeySecp256k1(seed[:])
		pk := coskey.PubKey{Key: p.PubKey().(secp256k1.PubKey)}
		s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &pk)
		if err != nil {
			panic(err)
		}
		keys = append(keys, s)
		privs[string(pk.Key)] = p
	}
	all, local, err := conversion.GetParties(keys, keys[r.Intn(n)])
	if err != nil {
		panic(err)
	}
	w.out = make(chan *messages.BroadcastMsgChan, 100)
	idm := conversion.SetupPartyIDMap(all)
	pm := &sync.Map{}
	for _, id := range []string{"m0", "m1"} {
		pm.Store(id, &vEngine{id: id, self: local, call: w.engineCall})
	}
	tc := NewTssCommon("", w.out, TssConfig{}, w.msgID, nil, 2)
	if err := conversion.SetupIDMaps(idm, tc.PartyIDtoP2PID); err != nil {
		panic(err)
	}
	for _, p := range all {
		m := &vMember{priv: privs[string(p.Key)], party: p, pid: tc.PartyIDtoP2PID[p.Id]}
		if p == local {
			w.members = append([]*vMember{m}, w.members...)
		} else {
			w.members = append(w.members, m)
			tc.P2PPeers = append(tc.P2PPeers, m.pid)
		}
	}
	tc.privateKey = w.members[0].priv
	tc.SetLocalPeerID(w.members[0].pid.String())
	tc.SetPartyInfo(&PartyInfo{PartyMap: pm, PartyIDMap: idm})
	tc.blameMgr.SetPartyInfo(pm, idm)
	w.t = tc
	w.th = (2*n+2)/3 - 1
	return w
}

func (w *vWorld) isMember(p string) bool {
	for _, m := range w.members {
		if m.pid.String() == p {
			return true
		}
	}
	return false
}

func (w *vWorld) drain() (out []*messages.BroadcastMsgChan) {
	for {
		select {
		case o := <-w.out:
			out = append(out, o)
		default:
			return
		}
	}
}

func sameVItem(a, b vItem) bool {
	return a.msg == b.msg && a.hash == b.hash && reflect.DeepEqual(a.votes, b.votes)
}

func (w *vWorld) step() {
	r := w.r
	for _, c := range w.exposed {
		w.cheats[c] = true
	}
	n := len(w.members)
	sender := w.members[r.Intn(n)]
	from := sender.pid.String()
	if r.Intn(15) == 0 {
		from = "16Uiu2HAm4TmEzUqy3q3Dv7HvdoSboHk5sFj2FH3npiN5vDbJC6gh"
	}
	var wm *messages.WrappedMessage
	var env *messages.WireMessage
	var ver *messages.BroadcastConfirmMessage
	var ctl *messages.TssControl
	isDone, damaged := false, false
	kind := r.Intn(20)
	mk := func(ty messages.THORChainTSSMessageType, v interface{}) {
		b, _ := json.Marshal(v)
		if r.Intn(12) == 0 || (w.prop == "C07" && r.Intn(3) == 0) {
			if d := w.damage(b); string(d) != string(b) {
				b, damaged = d, true
			}
		}
		wm = &messages.WrappedMessage{MessageType: ty, MsgID: w.msgID, Payload: b}
	}
	oldEnv := func() *messages.WireMessage {
		if len(w.wires) > 0 && r.Intn(2) == 0 {
			return w.wires[r.Intn(len(w.wires))]
		}
		e := w.envelope(w.members[1+r.Intn(n-1)])
		w.wires = append(w.wires, e)
		return e
	}
	switch {
	case kind < 6:
		env = oldEnv()
		mk(messages.TSSKeyGenMsg, env)
	case kind < 14:
		e := oldEnv()
		ver = &messages.BroadcastConfirmMessage{P2PID: w.members[r.Intn(n)].pid.String(), Key: e.GetCacheKey(), Hash: vHash(e.Message)}
		if r.Intn(4) == 0 {
			ver.Hash = "another hash"
		}
		mk(messages.TSSKeyGenVerMsg, ver)
	case kind < 15 || w.prop == "C24" && kind < 18:
		isDone = r.Intn(4) > 0
		mk(messages.TSSTaskDone, messages.TssTaskNotifier{TaskDone: isDone})
	case kind < 17:
		e := oldEnv()
		ctl = &messages.TssControl{ReqHash: vHash(e.Message), ReqKey: e.GetCacheKey(), RequestType: messages.TSSKeyGenMsg}
		mk(messages.TSSControlMsg, ctl)
	case kind < 19:
		e := oldEnv()
		ctl = &messages.TssControl{ReqHash: vHash(e.Message), ReqKey: e.GetCacheKey(), RequestType: messages.TSSKeyGenMsg, Msg: e}
		mk(messages.TSSControlMsg, ctl)
	default:
		wm = &messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(r.Intn(9)), MsgID: w.msgID, Payload: []byte([]string{"", "{}", "null", "[]", "1", `{"message_body":{}}`, `{"message_body":{"routing":{}}}`, `{"routing":{"From":{}}}`}[r.Intn(8)])}
		damaged = true
	}
	note := fmt.Sprintf("%s: type %d %s", from[len(from)-4:], wm.MessageType, wm.Payload)
	if len(note) > 260 {
		note = note[:260]
	}
	w.hist = append(w.hist, note)
	pre := w.items()
	preAsked := map[string]bool{}
	for k := range w.asked {
		preAsked[k] = true
	}
	var err error
	func() {
		defer func() {
			if x := recover(); x != nil {
				w.bad("C07", "panic: %v", x)
				w.bad("C24", "panic: %v", x)
			}
		}()
		err = w.t.ProcessOneMessage(wm, from)
	}()
	outs := w.drain()
	if w.failed {
		return
	}
	post := w.items()
	// what a damaged message meant is not judged beyond "nobody else's votes"
	if damaged {
		env, ver, ctl, isDone = nil, nil, nil, false
		var x messages.TssTaskNotifier
		if wm.MessageType == messages.TSSTaskDone && json.Unmarshal(wm.Payload, &x) == nil {
			isDone = x.TaskDone
		}
	}
	// C24
	wasDone := w.done[from]
	if isDone {
		w.done[from] = true
		if wasDone && err == nil {
			w.bad("C24", "the repeated notice of %s is not refused", from)
		}
		if !wasDone && err != nil {
			w.bad("C24", "the notice of %s is refused: %v", from, err)
		}
	}
	closed := false
	select {
	case <-w.t.taskDone:
		closed = true
	default:
	}
	if want := len(w.done) >= n-1; closed != want {
		w.bad("C24", "completion signal %v after the notices of %d peers in a party of %d", closed, len(w.done), n)
	}
	// C05: votes
	owner := func(k string) string {
		for _, m := range w.members {
			if len(k) > len(m.party.Id) && k[:len(m.party.Id)+1] == m.party.Id+"-" {
				return m.pid.String()
			}
		}
		return ""
	}
	only := map[string]bool{}
	if ver != nil && w.isMember(from) {
		if _, had := pre[ver.Key].votes[from]; !had {
			only[ver.Key] = true
		}
	}
	if env != nil {
		only[env.GetCacheKey()] = true
	}
	if ctl != nil && ctl.Msg != nil {
		only[ctl.Msg.GetCacheKey()] = true
		if !preAsked[ctl.ReqHash] {
			only = map[string]bool{}
		}
	}
	all := map[string]bool{}
	for k := range pre {
		all[k] = true
	}
	for k := range post {
		all[k] = true
	}
	for k := range all {
		a, inA := pre[k]
		b, inB := post[k]
		if !only[k] && !damaged && (inA != inB || !sameVItem(a, b)) {
			p := "C05"
			if ctl != nil {
				p = "C26"
			}
			w.bad(p, "the confirmations of %s change although the message is not a first vote for it: %v becomes %v", k, a.votes, b.votes)
		}
		if !inB {
			continue
		}
		for p, h := range b.votes {
			if !w.isMember(p) {
				w.bad("C05", "%s, which is no member, has a vote for %s", p, k)
			}
			ph, had := a.votes[p]
			switch {
			case had && ph == h:
			case p == w.t.localPeerID && (ver == nil || from != p):
				if had && a.msg != nil {
					w.bad("C05", "our own vote for %s changes from %s to %s", k, ph, h)
				}
			case had:
				w.bad("C05", "the vote of %s for %s changes from %s to %s", p, k, ph, h)
			case !damaged && (ver == nil || p != from || ver.Key != k || h != ver.Hash):
				w.bad("C05", "a vote of %s for %s appears from nowhere", p, k)
			case damaged && p != from:
				w.bad("C05", "a vote of %s for %s appears from nowhere", p, k)
			}
		}
		for p := range a.votes {
			if _, ok := b.votes[p]; !ok && p != owner(k) {
				w.bad("C05", "the vote of %s for %s is lost", p, k)
			}
		}
		if ver != nil && only[k] {
			if h, ok := b.votes[from]; from != owner(k) && (!ok || h != ver.Hash) {
				w.bad("C05", "the vote of %s for %s is not counted", from, k)
			}
		}
	}
	// C03: what is kept
	for k, it := range post {
		if it.msg != nil && !w.signed[it.msg.Routing.From.Id+"|"+string(it.msg.Message)] {
			w.bad("C03", "a share which %s did not sign is kept for %s", it.msg.Routing.From.Id, k)
		}
		if it.msg != nil && it.hash != vHash(it.msg.Message) {
			w.bad("C04", "the hash kept for %s is not the hash of the share kept", k)
		}
		if sm := w.t.blameMgr.GetRoundMgr().Get(k); sm != nil && !w.signed[sm.Routing.From.Id+"|"+string(sm.Message)] {
			w.bad("C03", "a share which %s did not sign is stored for %s", sm.Routing.From.Id, k)
		}
	}
	if env != nil && !verifySignature(secp256k1.PubKey(w.t.partyInfo.PartyIDMap[env.Routing.From.Id].Key), env.Message, env.Sig, w.msgID) && err == nil {
		w.bad("C03", "a message with a bad signature is not refused")
	}
	// C06: the record of what the engine took
	w.mu.Lock()
	for ri := range w.seenRnd {
		for _, m := range w.members {
			key := fmt.Sprintf("%d|%s|%s|%s", ri.Index, ri.RoundMsg, ri.MsgIdentifier, m.party.Id)
			if got := w.t.blameMgr.CheckMsgDuplication(ri, m.party.Id); got != w.took[key] {
				w.bad("C06", "share %s recorded as accepted: %v, taken by the engine: %v", key, got, w.took[key])
			}
		}
	}
	w.mu.Unlock()
	// C26 and C22: what is sent
	delete(w.asked, "")
	if ctl != nil && ctl.Msg != nil && preAsked[ctl.ReqHash] {
		delete(w.asked, ctl.ReqHash)
	}
	for _, o := range outs {
		ps := map[string]bool{}
		for _, p := range o.PeersID {
			ps[p.String()] = true
		}
		switch o.WrappedMessage.MessageType {
		case messages.TSSControlMsg:
			var c messages.TssControl
			if json.Unmarshal(o.WrappedMessage.Payload, &c) != nil {
				w.bad("C26", "a control message which cannot be read is sent")
				continue
			}
			if c.Msg == nil { // a request
				w.asked[c.ReqHash] = true
				it, ok := post[c.ReqKey]
				cnt := map[string]int{}
				want := map[string]bool{}
				for p, h := range it.votes {
					cnt[h]++
					if h == c.ReqHash {
						want[p] = true
					}
				}
				top := true
				for _, x := range cnt {
					top = top && x <= cnt[c.ReqHash]
				}
				if !ok || !damaged && !only[c.ReqKey] || !top || !reflect.DeepEqual(ps, want) || len(o.PeersID) != len(want) {
					w.bad("C26", "the share %s with hash %s is requested from %v; confirmations %v (%v %v %v)", c.ReqKey, c.ReqHash, ps, it.votes, ok, only[c.ReqKey], top)
				}
				if it.msg != nil {
					w.bad("C26", "a share which is there is requested")
				}
			} else {
				st := w.t.blameMgr.GetRoundMgr().Get(c.ReqKey)
				a, _ := json.Marshal(st)
				b, _ := json.Marshal(c.Msg)
				if !damaged && (ctl == nil || c.ReqKey != ctl.ReqKey) || len(ps) != 1 || !ps[from] || len(o.PeersID) != 1 || string(a) != string(b) {
					w.bad("C26", "a request of %s for %v is answered to %v with the share %s", from, ctl, ps, c.ReqKey)
				}
			}
		case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
			var c messages.BroadcastConfirmMessage
			json.Unmarshal(o.WrappedMessage.Payload, &c)
			if damaged {
				continue
			}
			if env == nil {
				w.bad("C22", "a confirmation is sent although no share came in")
				continue
			}
			want := map[string]bool{}
			for _, m := range w.members[1:] {
				if m.party.Id != env.Routing.From.Id {
					want[m.pid.String()] = true
				}
			}
			if c.Hash != vHash(env.Message) || c.Key != env.GetCacheKey() || !reflect.DeepEqual(ps, want) || len(o.PeersID) != len(want) {
				w.bad("C22", "the confirmation of %s is sent to %v with hash %s", c.Key, ps, c.Hash)
			}
		}
	}
	if ctl != nil && ctl.Msg == nil && w.t.blameMgr.GetRoundMgr().Get(ctl.ReqKey) != nil && len(outs) != 1 {
		w.bad("C26", "the request for the stored share %s is answered %d times", ctl.ReqKey, len(outs))
	}
}

func TestVerifReplaySession(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	prop := os.Getenv("VERIF_PROP")
	only := prop
	for s := 0; s < 900; s++ {
		r := rand.New(rand.NewSource(int64(seed)*100000 + int64(s)))
		var w *vWorld
		w = newVWorld(r, prop, func(p, f string, a ...interface{}) {
			if w.failed || (only != "" && p != only) {
				return
			}
			w.failed = true
			fmt.Printf("REPLAY-FAIL: %s: "+f+" (history %d, committee of %d, step %d: %s)\n", append(append([]interface{}{p}, a...), s, len(w.members), len(w.hist), w.hist[len(w.hist)-1])...)
		})
		for i := 0; i < 60 && !w.failed; i++ {
			w.step()
		}
		if w.failed {
			return
		}
	}
}
