package storage

// Key shares on disk: random saves and loads, with failing file operations, against an oracle of the files.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"testing"

	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/conversion"
)

func vFiles(dir string) map[string]string {
	m := map[string]string{}
	fs, _ := ioutil.ReadDir(dir)
	for _, f := range fs {
		if !f.IsDir() {
			b, _ := ioutil.ReadFile(filepath.Join(dir, f.Name()))
			m[f.Name()] = string(b)
		}
	}
	return m
}

func TestVerifReplayStorage(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	conversion.SetupBech32Prefix()
	signal.Ignore(syscall.SIGXFSZ)
	dir, err := ioutil.TempDir(os.Getenv("VERIF_SCRATCH"), "c21")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(seed + 21))
	c30 := os.Getenv("VERIF_PROP") == "C30"
	var keys []string
	for i := 0; i < 5; i++ {
		keys = append(keys, conversion.GetRandomPubKey())
	}
	bad := []string{"", "x", "../evil", keys[0][:20], keys[0] + "q", "/etc/passwd", strings.Replace(keys[1], "thorpub", "cosmospub", 1)}
	var limit syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < 60; n++ {
		sub := filepath.Join(dir, fmt.Sprintf("n%d", n))
		folder := sub
		if r.Intn(4) == 0 {
			folder = sub + "/"
		}
		m, err := NewFileStateMgr(folder)
		if err != nil {
			t.Fatal(err)
		}
		want := map[string]KeygenLocalState{} // the last share saved without an error
		var hist []string
		fail := func(f string, a ...interface{}) {
			fmt.Printf("REPLAY-FAIL: %s: %s\n", strings.Join(hist, ", "), fmt.Sprintf(f, a...))
			t.FailNow()
		}
		for s := 0; s < 12; s++ {
			before := vFiles(sub)
			k := keys[r.Intn(len(keys))]
			if r.Intn(5) == 0 {
				k = bad[r.Intn(len(bad))]
			}
			_, keyErr := conversion.CheckKeyOnCurve(k)
			if k == "" {
				keyErr = fmt.Errorf("empty")
			}
			if r.Intn(3) > 0 { // save
				st := KeygenLocalState{PubKey: k, LocalPartyKey: keys[r.Intn(len(keys))]}
				for i := r.Intn(40); i > 0; i-- {
					st.ParticipantKeys = append(st.ParticipantKeys, keys[r.Intn(len(keys))])
				}
				limited := r.Intn(3) == 0
				hist = append(hist, fmt.Sprintf("save %q with %d participants (writes limited: %v)", k, len(st.ParticipantKeys), limited))
				if limited {
					syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(r.Intn(700)), Max: limit.Max})
				}
				err := m.SaveLocalState(st)
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit)
				after := vFiles(sub)
				name := "localstate-" + k + ".json"
				if err == nil && keyErr != nil {
					fail("a malformed key was saved")
				}
				whole, _ := json.Marshal(st)
				same := func(b string) bool {
					var c bytes.Buffer
					return json.Compact(&c, []byte(b)) == nil && c.String() == string(whole)
				}
				if err == nil && !same(after[name]) {
					fail("the file holds %d bytes which are not the share of %d bytes", len(after[name]), len(whole))
				}
				if c30 && err != nil && after[name] != before[name] && !same(after[name]) {
					fail("saving failed (%v) and left neither the old share of %d bytes nor the new one of %d, but %d bytes", err, len(before[name]), len(whole), len(after[name]))
				}
				for f := range after {
					if _, ok := before[f]; f != name && !strings.Contains(f, "tmp") && (!ok || before[f] != after[f]) {
						fail("the file %s was changed", f)
					}
				}
				for f := range before {
					if _, ok := after[f]; !ok && !strings.Contains(f, "tmp") {
						fail("the file %s is gone", f)
					}
				}
				if err == nil {
					want[k] = st
				} else if !reflect.DeepEqual(before, after) {
					delete(want, k)
					if keyErr != nil {
						fail("a refused key changed the files")
					}
					for f := range after { // start from a known state again
						if f == name || strings.Contains(f, "tmp") {
							os.Remove(filepath.Join(sub, f))
						}
					}
				}
				continue
			}
			// load, sometimes with a broken file
			_, known := want[k]
			broken := known && r.Intn(3) == 0
			f := filepath.Join(sub, "localstate-"+k+".json")
			whole, _ := ioutil.ReadFile(f)
			hist = append(hist, fmt.Sprintf("load %q (saved: %v, damaged: %v)", k, known, broken))
			damage := "none"
			if broken {
				os.Remove(f)
				damage = "gone"
				var bad []byte
				switch r.Intn(7) {
				case 0:
					os.Mkdir(f, 0o755)
					damage = "a folder"
				case 1:
					bad = whole[:len(whole)/2]
				case 2:
					bad = []byte{}
				case 3:
					bad = whole[:len(whole)-1]
				case 4:
					bad = append(append([]byte{}, whole...), '}')
				case 5:
					bad = []byte(" \n")
				}
				if bad != nil {
					damage = fmt.Sprintf("%d bytes of %d", len(bad), len(whole))
					ioutil.WriteFile(f, bad, 0o644)
				}
			}
			got, err := m.GetLocalState(k)
			if broken {
				os.RemoveAll(f)
				ioutil.WriteFile(f, whole, 0o644)
			}
			if (!known || broken) && err == nil {
				fail("loaded the share of %q without an error (damage: %s)", got.PubKey, damage)
			}
			if known && !broken {
				a, _ := json.Marshal(want[k])
				b, _ := json.Marshal(got)
				if err != nil || string(a) != string(b) {
					fail("loaded something else (%v)", err)
				}
			}
		}
	}
}
