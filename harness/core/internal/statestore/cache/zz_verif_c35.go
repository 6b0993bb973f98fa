package cache

import (
	"context"
	"strconv"
	"time"

	"verif/vsym"

	"go.opentelemetry.io/otel/metric"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

type vGauge struct {
	metric.Int64ObservableUpDownCounter
	name string
}
type vHist struct{ metric.Int64Histogram }
type vFloatHist struct {
	metric.Float64Histogram
	n int
}

func (*vHist) Record(context.Context, int64, ...metric.RecordOption) {}
func (h *vFloatHist) Record(_ context.Context, x float64, _ ...metric.RecordOption) {
	vsym.Assert(x >= 0, "a negative duration was recorded")
	h.n++
}

// vMeter can be read as a scrape does.
type vMeter struct {
	metric.Meter
	calls []metric.Callback
	dur   *vFloatHist
}

func (m *vMeter) Int64ObservableUpDownCounter(name string, _ ...metric.Int64ObservableUpDownCounterOption) (metric.Int64ObservableUpDownCounter, error) {
	return &vGauge{name: name}, nil
}
func (m *vMeter) Int64Histogram(name string, _ ...metric.Int64HistogramOption) (metric.Int64Histogram, error) {
	return &vHist{}, nil
}
func (m *vMeter) Float64Histogram(name string, _ ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	m.dur = &vFloatHist{}
	return m.dur, nil
}

type vReg struct{ metric.Registration }

func (m *vMeter) RegisterCallback(f metric.Callback, _ ...metric.Observable) (metric.Registration, error) {
	m.calls = append(m.calls, f)
	return vReg{}, nil
}

type vObserver struct {
	metric.Observer
	saw map[string]int64
}

func (o *vObserver) ObserveInt64(g metric.Int64Observable, v int64, _ ...metric.ObserveOption) {
	o.saw[g.(*vGauge).name] = v
}

func (m *vMeter) scrape() map[string]int64 {
	o := &vObserver{saw: map[string]int64{}}
	for _, f := range m.calls {
		vsym.Assert(f(context.Background(), o) == nil, "the scrape failed")
	}
	return o.saw
}

// VerifC35Cache: after every maintenance cycle the gauges say what is cached.
func VerifC35Cache() {
	tc := &ReplicatedTicketCache{Cfg: vCfg(), Replicator: &vScript{}}
	vm := &vMeter{}
	m := metric.Meter(vm)
	RegisterMetrics(&m)
	const ttl, more = 600, 300
	tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", ttl)
	tc.Cfg.Set("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", more)
	now := time.Now()
	n := vsym.Choose("entries", vsym.Param("maxEntries", 2)+1)
	for i := 0; i < n; i++ {
		age := []int64{0, 599, 700, 1000}[vsym.Choose(vN("age", i), 4)]
		id := strconv.FormatInt(now.UnixMilli()-1000*age, 10) + "-" + strconv.Itoa(i)
		what := vsym.Choose(vN("what", i), 8)
		if what&1 != 0 {
			s := vsym.Int64(vN("expires", i), now.Unix()-1000, now.Unix()+1000)
			tc.Tickets.Store(id, &pb.Ticket{Id: id, ExpirationTime: &timestamppb.Timestamp{Seconds: s}})
		}
		if what&2 != 0 {
			tc.InactiveSet.Store(id, true)
		}
		if what&4 != 0 {
			tc.Assignments.Store(id, &pb.Assignment{})
		}
	}
	go tc.IncomingReplicationQueue(context.Background())
	in := time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")) * time.Millisecond
	time.Sleep(in / 5)
	for cycle := 1; cycle <= 2; cycle++ {
		time.Sleep(in)
		var active, inactive, assigned int64
		tc.Tickets.Range(func(id, _ any) bool {
			if _, ok := tc.InactiveSet.Load(id); ok {
				inactive++
			} else {
				active++
			}
			return true
		})
		tc.Assignments.Range(func(id, _ any) bool { assigned++; return true })
		saw := vm.scrape()
		for _, g := range []string{"om_core.cache.tickets.active", "om_core.cache.tickets.inactive", "om_core.cache.assignments"} {
			_, ok := saw[g]
			vsym.Assert(ok, "a scrape does not say what is cached")
		}
		vsym.Assert(saw["om_core.cache.tickets.active"] == active, "the gauge of active tickets is not the number of active tickets cached")
		vsym.Assert(saw["om_core.cache.tickets.inactive"] == inactive, "the gauge of inactive tickets is not the number of inactive tickets cached")
		vsym.Assert(saw["om_core.cache.assignments"] == assigned, "the gauge of assignments is not the number of assignments cached")
		vsym.Assert(vm.dur.n == cycle, "a cycle was not measured once")
		if active > 0 && inactive > 0 {
			vsym.Reach("both kinds")
		}
	}
	vsym.Reach("scraped")
}
