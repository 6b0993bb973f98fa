package main

import (
	"context"
	"errors"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/vsym"

	"github.com/spf13/viper"
	"go.opentelemetry.io/otel"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

const (
	vTsMin = -62135596800 // 0001-01-01T00:00:00Z
	vTsMax = 253402300799 // 9999-12-31T23:59:59Z
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

// vStore stands in for state storage behind the cache.
type vStore struct{}

func (vStore) GetUpdates() []*store.StateUpdate {
	time.Sleep(time.Hour)
	return nil
}
func (vStore) SendUpdates(u []*store.StateUpdate) []*store.StateResponse { return nil }
func (vStore) GetReplIdValidationRegex() string                          { return `^\d+-\d+$` }

// vSetup prepares the package as main() does, without servers.
func vSetup() {
	cfg = viper.New()
	cfg.SetDefault("OM_CACHE_TICKET_TTL_SECS", 600)
	cfg.SetDefault("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 600)
	cfg.SetDefault("OM_MAX_STATE_UPDATES_PER_CALL", 500)
	cfg.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	cfg.SetDefault("OM_CACHE_OUT_WAIT_TIMEOUT_MS", 500)
	cfg.SetDefault("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", 50)
	cfg.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 500)
	cfg.SetDefault("OM_MMF_TIMEOUT_SECS", 600)
	cfg.SetDefault("OM_MATCH_TICKET_DEACTIVATION_WAIT", false)
	tc.Cfg = cfg
	tc.UpRequests = make(chan *cache.UpdateRequest)
	tc.Replicator = vStore{}
	if vsym.Native() {
		m := otel.Meter("verif")
		registerMetrics(&m)
		cache.RegisterMetrics(&m)
	}
}

// vTaken counts the answers that were handed over: all of them, or the
// replication queue would be stuck.
var vTaken int

// vServe answers queued update requests as state storage would.
func vServe(answer func(i int, r *cache.UpdateRequest) *store.StateResponse) {
	vTaken = 0
	go func() {
		i := 0
		for {
			r := <-tc.UpRequests
			resp := answer(i, r)
			i++
			r.ResultsChan <- resp
			vTaken++
		}
	}()
}

// vCtx is the caller's context: live, over before the call, or over as soon as
// midway is called.
func vCtx() (ctx context.Context, midway func()) {
	ctx, cancel := context.WithCancel(context.Background())
	switch vsym.Choose("context", 3) {
	case 1:
		cancel()
	case 2:
		return ctx, func() { cancel(); time.Sleep(10 * time.Millisecond) }
	}
	return ctx, func() {}
}

// vCached gives id any state in the local cache, which lags behind storage.
func vCached(name, id string) {
	k := vsym.Choose(name, 4)
	if k == 1 || k == 2 {
		tc.Tickets.Store(id, &pb.Ticket{Id: id})
	}
	if k == 2 || k == 3 {
		tc.InactiveSet.Store(id, true)
	}
}

func tcDump() string {
	out := ""
	for _, m := range []*sync.Map{&tc.Tickets, &tc.InactiveSet, &tc.Assignments} {
		var l []string
		m.Range(func(k, v any) bool { l = append(l, k.(string)); return true })
		sort.Strings(l)
		out += strings.Join(l, ",") + ";"
	}
	return out
}

// vAnyTs is an arbitrary timestamp, unset, valid or invalid.
func vAnyTs(name string) (ts *timestamppb.Timestamp, sec, nanos int64, valid bool) {
	if vsym.Choose(name+".set", 2) == 0 {
		return nil, 0, 0, false
	}
	sec = vsym.Int64(name+".sec", -1<<63, 1<<63-1)
	n := vsym.Int32(name+".nanos", -1<<31, 1<<31-1)
	valid = vsym.And(sec >= vTsMin, sec <= vTsMax, n >= 0, n <= 999999999)
	return &timestamppb.Timestamp{Seconds: sec, Nanos: n}, sec, int64(n), valid
}

func vTLess(s1, n1, s2, n2 int64) bool { return vsym.Or(s1 < s2, vsym.And(s1 == s2, n1 < n2)) }
func vTEq(s1, n1, s2, n2 int64) bool   { return vsym.And(s1 == s2, n1 == n2) }

var vErrStorage = errors.New("storage refused")

// vMsId is the id storage would have assigned at time t.
func vMsId(t time.Time, i int) string {
	return strconv.FormatInt(t.UnixMilli(), 10) + "-" + strconv.Itoa(i)
}

func vSchedMode() string {
	switch vsym.Param("sched", 0) {
	case 1:
		return "preempt"
	case 2:
		return "full"
	}
	return "delay"
}

// vId is an arbitrary one-byte string: enough for any pattern of equal and
// different ids.
func vId(name string) string {
	s := vsym.String(name, 1)
	vsym.Assume(len(s) == 1)
	return s
}
