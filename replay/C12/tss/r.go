package tss

// Responses made from random signature sets.

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	tsslibcommon "github.com/binance-chain/tss-lib/common"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keysign"
)

func TestVerifReplayResponse(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("REPLAY-FAIL: making a response crashes: %v\n", e)
		}
	}()
	for h := 0; h < 3000; h++ {
		r := rand.New(rand.NewSource(int64(seed)*100000 + int64(h)))
		n := 1 + r.Intn(6)
		if h%50 == 0 {
			n = 1 + r.Intn(60)
		}
		rb := func() []byte {
			b := make([]byte, r.Intn(40))
			r.Read(b)
			return b
		}
		var msgs [][]byte
		var sigs []*tsslibcommon.ECSignature
		var want []keysign.Signature
		for i := 0; i < n; i++ {
			m := rb()
			if i > 0 && r.Intn(4) == 0 {
				m = append([]byte{}, msgs[r.Intn(i)]...)
			}
			msgs = append(msgs, m)
			s := &tsslibcommon.ECSignature{Signature: rb(), SignatureRecovery: rb(), R: rb(), S: rb(), M: rb()}
			if r.Intn(3) == 0 {
				s.M = msgs[r.Intn(len(msgs))]
			}
			sigs = append(sigs, s)
			e := base64.StdEncoding.EncodeToString
			want = append(want, keysign.Signature{Msg: e(m), R: e(s.R), S: e(s.S), RecoveryID: e(s.SignatureRecovery)})
		}
		got := (&TssServer{}).batchSignatures(sigs, msgs)
		if got.Status != common.Success || len(got.Blame.BlameNodes) != 0 || got.Blame.FailReason != "" {
			fmt.Printf("REPLAY-FAIL: the response of %d signatures has status %v and blame %v\n", n, got.Status, got.Blame)
			return
		}
		if len(got.Signatures) != n {
			fmt.Printf("REPLAY-FAIL: the response of %d signatures has %d entries\n", n, len(got.Signatures))
			return
		}
		for i := range want {
			if got.Signatures[i] != want[i] {
				fmt.Printf("REPLAY-FAIL: entry %d of %d of the response is %+v, not %+v\n", i, n, got.Signatures[i], want[i])
				return
			}
		}
	}
}
