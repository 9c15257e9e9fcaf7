package p2p

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func TestVerifReplayLeader(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	one := func(id string, h int64, ps []string) (ok bool) {
		defer func() {
			if x := recover(); x != nil {
				bad("LeaderNode(%q,%d,%q) panics: %v", id, h, ps, x)
				ok = false
			}
		}()
		in := append([]string{}, ps...)
		got, err := LeaderNode(id, h, in)
		if id == "" || h == 0 || len(ps) == 0 {
			if err == nil || got != "" {
				bad("LeaderNode(%q,%d,%q) = %q, %v; want a refusal", id, h, ps, got, err)
				return false
			}
			return true
		}
		want, best := "", ""
		for i, p := range ps {
			s := sha256.Sum256([]byte(id + strconv.FormatInt(h, 10) + p))
			e := hex.EncodeToString(s[:])
			if i == 0 || e < best {
				best, want = e, p
			}
		}
		if err != nil || got != want {
			bad("LeaderNode(%q,%d,%q) = %q, %v; want %q", id, h, ps, got, err, want)
			return false
		}
		return true
	}
	str := func() string {
		b := make([]byte, r.Intn(5))
		for i := range b {
			b[i] = "abcXYZ019"[r.Intn(9)]
		}
		return string(b)
	}
	for i := 0; i < 30000; i++ {
		n := r.Intn(8)
		if i%100 == 0 {
			n = 20 + r.Intn(60)
		}
		var ps []string
		for j := 0; j < n; j++ {
			ps = append(ps, str())
		}
		if i%30 == 7 {
			// long lists: peers whose digests nearly agree
			for j := 0; j < 700; j++ {
				ps = append(ps, "p"+strconv.Itoa(r.Int()))
			}
		}
		hs := []int64{0, 1, -1, 10, 255, 256, 1 << 31, 1<<62 + 5, r.Int63(), -r.Int63()}
		if !one(str(), hs[r.Intn(len(hs))], ps) {
			return
		}
	}
}
