import prometheus "github.com/prometheus/client_golang/prometheus"
// ---- metrics (C25) ----
// ghost log of the metric operations: how many counters were incremented and gauges set, and the last of each
ghost nInc global int
ghost lastInc global any
ghost nSet global int
ghost lastSet global any
ghost lastSetTo global float64
declare counter1(*prometheus.CounterVec, string) any
declare counter2(*prometheus.CounterVec, string, string) any
declare gauge1(*prometheus.GaugeVec, string) any
extern github.com/prometheus/client_golang/prometheus.CounterVec.WithLabelValues(v, lvs) (r)
  ensures len(lvs) == 1 ==> iface(r) == counter1(v, lvs[0])
  ensures len(lvs) == 2 ==> iface(r) == counter2(v, lvs[0], lvs[1])
  ensures r != nil
extern github.com/prometheus/client_golang/prometheus.GaugeVec.WithLabelValues(v, lvs) (r)
  ensures len(lvs) == 1 ==> iface(r) == gauge1(v, lvs[0])
  ensures r != nil
extern github.com/prometheus/client_golang/prometheus.Counter.Inc(c) ()
  modifies ghost(nInc), ghost(lastInc)
  ensures ghost(nInc) == old(ghost(nInc)) + 1 && ghost(lastInc) == iface(c)
extern github.com/prometheus/client_golang/prometheus.Gauge.Set(g, x) ()
  modifies ghost(nSet), ghost(lastSet), ghost(lastSetTo)
  ensures ghost(nSet) == old(ghost(nSet)) + 1 && ghost(lastSet) == iface(g) && ghost(lastSetTo) == x

define incOnly(c) = ghost(nInc) == old(ghost(nInc)) + 1 && ghost(lastInc) == c
define setOnly(g, t) = ghost(nSet) == old(ghost(nSet)) + 1 && ghost(lastSet) == iface(g) && ghost(lastSetTo) == real(t)
define noSet = ghost(nSet) == old(ghost(nSet))

func monitor.Metric.UpdateKeyGen(m, keygenTime, success) () [C25]
  requires m.keyGenTime != nil
  modifies ghost(nInc), ghost(lastInc), ghost(nSet), ghost(lastSet), ghost(lastSetTo)
  nopanic [C07]
  ensures success ==> incOnly(counter1(m.keygenCounter, "success")) && setOnly(m.keyGenTime, keygenTime)
  ensures !success ==> incOnly(counter1(m.keygenCounter, "failure")) && noSet

func monitor.Metric.UpdateKeySign(m, keysignTime, success) () [C25]
  requires m.keySignTime != nil
  modifies ghost(nInc), ghost(lastInc), ghost(nSet), ghost(lastSet), ghost(lastSetTo)
  nopanic [C07]
  ensures success ==> incOnly(counter1(m.keysignCounter, "success")) && setOnly(m.keySignTime, keysignTime)
  ensures !success ==> incOnly(counter1(m.keysignCounter, "failure")) && noSet

func monitor.Metric.KeygenJoinParty(m, joinpartyTime, success) () [C25]
  modifies ghost(nInc), ghost(lastInc), ghost(nSet), ghost(lastSet), ghost(lastSetTo)
  nopanic [C07]
  ensures success ==> incOnly(counter2(m.joinPartyCounter, "keygen", "success")) && setOnly(gauge1(m.joinPartyTime, "keygen"), joinpartyTime)
  ensures !success ==> incOnly(counter2(m.joinPartyCounter, "keygen", "failure")) && noSet

func monitor.Metric.KeysignJoinParty(m, joinpartyTime, success) () [C25]
  modifies ghost(nInc), ghost(lastInc), ghost(nSet), ghost(lastSet), ghost(lastSetTo)
  nopanic [C07]
  ensures success ==> incOnly(counter2(m.joinPartyCounter, "keysign", "success")) && setOnly(gauge1(m.joinPartyTime, "keysign"), joinpartyTime)
  ensures !success ==> incOnly(counter2(m.joinPartyCounter, "keysign", "failure")) && noSet

extern github.com/prometheus/client_golang/prometheus.NewCounterVec(opts, labels) (r)
  ensures r != nil && fresh(r)
extern github.com/prometheus/client_golang/prometheus.NewGaugeVec(opts, labels) (r)
  ensures r != nil && fresh(r)
declare gaugeId(any) int
extern github.com/prometheus/client_golang/prometheus.NewGauge(opts) (r)
  ensures r != nil && gaugeId(iface(r)) == ghost(gaugeNo) && ghost(gaugeNo) == old(ghost(gaugeNo)) + 1
  modifies ghost(gaugeNo)
ghost gaugeNo global int

func monitor.NewMetric() (m) [C25]
  modifies ghost(gaugeNo)
  // every series is an object of its own
  ensures fresh(m) && fresh(m.keygenCounter) && fresh(m.keysignCounter) && fresh(m.joinPartyCounter) && fresh(m.joinPartyTime)
  ensures m.keygenCounter != m.keysignCounter && m.keygenCounter != m.joinPartyCounter && m.keysignCounter != m.joinPartyCounter
  ensures m.keySignTime != nil && m.keyGenTime != nil && gaugeId(iface(m.keySignTime)) != gaugeId(iface(m.keyGenTime))
