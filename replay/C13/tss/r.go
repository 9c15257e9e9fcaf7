package tss

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
)

func TestVerifReplayMsgID(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	defer func() {
		if x := recover(); x != nil {
			bad("requestToMsgId panics: %v", x)
		}
	}()
	srv := &TssServer{}
	list := func() []string {
		var l []string
		for i := r.Intn(6); i > 0; i-- {
			b := make([]byte, r.Intn(4))
			for j := range b {
				b[j] = "ab,0 Z"[r.Intn(6)]
			}
			l = append(l, string(b))
		}
		return l
	}
	sorted := func(l []string) []string {
		s := append([]string{}, l...)
		sort.Strings(s)
		return s
	}
	for i := 0; i < 20000; i++ {
		ks, ms := list(), list()
		kk, mm := append([]string{}, ks...), append([]string{}, ms...)
		var req interface{}
		text := strings.Join(sorted(ks), "")
		switch i % 3 {
		case 0:
			req = keygen.Request{Keys: kk}
		case 1:
			req = keysign.Request{SignerPubKeys: kk, Messages: mm, PoolPubKey: "pool"}
			text = strings.Join(sorted(ms), ",") + text
		default:
			b := make([]byte, r.Intn(100))
			r.Read(b)
			got, err := common.MsgToHashString(b)
			h := sha256.Sum256(b)
			if len(b) == 0 && err == nil || len(b) > 0 && (err != nil || got != hex.EncodeToString(h[:])) {
				bad("MsgToHashString(%x) = %q, %v", b, got, err)
				return
			}
			continue
		}
		got, err := srv.requestToMsgId(req)
		h := sha256.Sum256([]byte(text))
		if text == "" {
			if err == nil {
				bad("requestToMsgId(%+v) = %q without an error", req, got)
				return
			}
		} else if err != nil || got != hex.EncodeToString(h[:]) {
			bad("requestToMsgId of keys %q messages %q = %q, %v; want the hash of %q", ks, ms, got, err, text)
			return
		}
	}
	for _, x := range []interface{}{nil, 5, "x", &keygen.Request{Keys: []string{"a"}}, []string{"a"}} {
		if got, err := srv.requestToMsgId(x); err == nil {
			bad("requestToMsgId(%T) = %q without an error", x, got)
			return
		}
	}
}
