package main

// HTTP requests: random methods, bodies and engine answers against an oracle of what must come back.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
)

type vEngine struct {
	gens     []keygen.Request
	signs    []keysign.Request
	genResp  keygen.Response
	signResp keysign.Response
	err      error
}

func (e *vEngine) Start() error           { return nil }
func (e *vEngine) Stop()                  {}
func (e *vEngine) GetLocalPeerID() string { return "me" }
func (e *vEngine) Keygen(r keygen.Request) (keygen.Response, error) {
	e.gens = append(e.gens, r)
	return e.genResp, e.err
}
func (e *vEngine) KeySign(r keysign.Request) (keysign.Response, error) {
	e.signs = append(e.signs, r)
	return e.signResp, e.err
}

func vStrs(r *rand.Rand) []string {
	var l []string
	for i := r.Intn(4); i > 0; i-- {
		l = append(l, fmt.Sprintf("k%d", r.Intn(9)))
	}
	return l
}

func TestVerifReplayHTTP(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 27))
	for n := 0; n < 4000; n++ {
		e := &vEngine{}
		if r.Intn(3) == 0 {
			e.err = errors.New("engine says no")
		}
		st := []common.Status{common.NA, common.Success, common.Fail}[r.Intn(3)]
		bl := blame.Blame{FailReason: []string{"", "some reason"}[r.Intn(2)]}
		for i := r.Intn(3); i > 0; i-- {
			bl.BlameNodes = append(bl.BlameNodes, blame.Node{Pubkey: fmt.Sprintf("n%d", i)})
		}
		e.genResp = keygen.Response{PubKey: "pk", PoolAddress: "addr", Status: st, Blame: bl}
		e.signResp = keysign.Response{Status: st, Blame: bl}
		for i := r.Intn(3); i > 0; i-- {
			e.signResp.Signatures = append(e.signResp.Signatures, keysign.Signature{Msg: fmt.Sprintf("m%d", i), R: "r", S: "s", RecoveryID: "i"})
		}
		gen := r.Intn(2) == 0
		greq := keygen.Request{Keys: vStrs(r), BlockHeight: int64(r.Intn(50)), Version: []string{"", "0.14.0", "junk"}[r.Intn(3)]}
		sreq := keysign.Request{PoolPubKey: "pool", Messages: vStrs(r), SignerPubKeys: vStrs(r), BlockHeight: int64(r.Intn(50)), Version: []string{"", "0.14.0"}[r.Intn(2)]}
		var body []byte
		if gen {
			body, _ = json.Marshal(greq)
		} else {
			body, _ = json.Marshal(sreq)
		}
		good := true
		switch r.Intn(6) {
		case 0:
			body = body[:r.Intn(len(body))]
			good = false
		case 1:
			body = [][]byte{nil, []byte("{"), []byte(`"x"`), []byte(`{"block_height":"x"}`), []byte(`[1]`), []byte(`{"keys":1,"messages":1}`)}[r.Intn(6)]
			good = false
		}
		method := http.MethodPost
		if r.Intn(5) == 0 {
			method = []string{http.MethodGet, http.MethodPut, http.MethodDelete, http.MethodHead}[r.Intn(4)]
		}
		path := "/keygen"
		if !gen {
			path = "/keysign"
		}
		req := httptest.NewRequest(method, path, bytes.NewReader(body))
		w := httptest.NewRecorder()
		h := NewTssHttpServer("127.0.0.1:0", e)
		desc := fmt.Sprintf("%s %s body %q, engine error %v status %v", method, path, body, e.err, st)
		func() {
			defer func() {
				if x := recover(); x != nil {
					fmt.Printf("REPLAY-FAIL: %s: panic %v\n", desc, x)
					t.FailNow()
				}
			}()
			if r.Intn(2) == 0 {
				h.tssNewHandler().ServeHTTP(w, req)
			} else if gen {
				h.keygenHandler(w, req)
			} else {
				h.keySignHandler(w, req)
			}
		}()
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY-FAIL: %s: %s\n", desc, fmt.Sprintf(f, a...))
			t.FailNow()
		}
		asked := len(e.gens) + len(e.signs)
		if method != http.MethodPost || !good {
			if asked != 0 {
				fail("the engine was asked")
			}
			if w.Code < 400 {
				fail("answered with code %d", w.Code)
			}
			continue
		}
		if asked != 1 {
			fail("the engine was asked %d times", asked)
		}
		if gen {
			if len(e.gens) != 1 || !reflect.DeepEqual(e.gens[0], greq) {
				fail("the engine was asked %+v", e.gens)
			}
			var got keygen.Response
			if w.Code != 200 {
				fail("answered with code %d", w.Code)
			}
			if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil || !reflect.DeepEqual(got, e.genResp) {
				fail("answered %q", w.Body.String())
			}
			continue
		}
		if len(e.signs) != 1 || !reflect.DeepEqual(e.signs[0], sreq) {
			fail("the engine was asked %+v", e.signs)
		}
		if e.err != nil {
			if w.Code < 400 || w.Body.Len() != 0 {
				fail("a failed signing was answered with code %d and %q", w.Code, w.Body.String())
			}
			continue
		}
		var got keysign.Response
		if w.Code != 200 {
			fail("answered with code %d", w.Code)
		}
		if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil || !reflect.DeepEqual(got, e.signResp) {
			fail("answered %q", w.Body.String())
		}
	}
}
