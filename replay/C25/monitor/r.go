package monitor

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"
)

func TestVerifReplayMetric(t *testing.T) {
	bad := func(f string, a ...interface{}) { fmt.Printf("REPLAY-FAIL: "+f+"\n", a...) }
	defer func() {
		if x := recover(); x != nil {
			bad("recording an outcome panics: %v", x)
		}
	}()
	m := NewMetric()
	reg := prometheus.NewRegistry()
	for _, c := range []prometheus.Collector{m.keygenCounter, m.keysignCounter, m.joinPartyCounter, m.keyGenTime, m.keySignTime, m.joinPartyTime} {
		if err := reg.Register(c); err != nil {
			bad("two series of NewMetric are the same: %v", err)
			return
		}
	}
	read := func() map[string]float64 {
		out := map[string]float64{}
		fs, _ := reg.Gather()
		for _, f := range fs {
			for _, x := range f.Metric {
				var l []string
				for _, p := range x.Label {
					l = append(l, p.GetName()+"="+p.GetValue())
				}
				sort.Strings(l)
				v := 0.0
				if x.Counter != nil {
					v = x.Counter.GetValue()
				}
				if x.Gauge != nil {
					v = x.Gauge.GetValue()
				}
				out[f.GetName()+"{"+strings.Join(l, ",")+"}"] = v
			}
		}
		return out
	}
	type op struct {
		n           string
		f           func(time.Duration, bool)
		ok, ko, gau string
	}
	ops := []op{
		{"UpdateKeyGen", m.UpdateKeyGen, "Tss_Tss_keygen{status=success}", "Tss_Tss_keygen{status=failure}", "Tss_Tss_keygen_time{}"},
		{"UpdateKeySign", m.UpdateKeySign, "Tss_Tss_keysign{status=success}", "Tss_Tss_keysign{status=failure}", "Tss_Tss_keysign_time{}"},
		{"KeygenJoinParty", m.KeygenJoinParty, "Tss_Tss_join_party{result=success,type=keygen}", "Tss_Tss_join_party{result=failure,type=keygen}", "Tss_Tss_joinparty_time{type=keygen}"},
		{"KeysignJoinParty", m.KeysignJoinParty, "Tss_Tss_join_party{result=success,type=keysign}", "Tss_Tss_join_party{result=failure,type=keysign}", "Tss_Tss_joinparty_time{type=keysign}"},
	}
	for i := 0; i < 200; i++ {
		o := ops[(i*7+i/4)%4]
		succ := (i/3)%2 == 0
		before := read()
		d := time.Duration(1000 + i)
		o.f(d, succ)
		after := read()
		want := before
		if succ {
			want[o.ok]++
			want[o.gau] = float64(d)
		} else {
			want[o.ko]++
		}
		for k := range after {
			if after[k] != want[k] {
				bad("%s(%d,%v): %s is %v, want %v", o.n, d, succ, k, after[k], want[k])
				return
			}
		}
		for k := range want {
			if _, ok := after[k]; !ok {
				bad("%s(%d,%v): %s is missing, want %v", o.n, d, succ, k, want[k])
				return
			}
		}
	}
}
