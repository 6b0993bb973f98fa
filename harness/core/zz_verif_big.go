package main

import (
	"context"
	"strconv"
	"time"

	"verif/vsym"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// Requests of sizes that occur in production, for anything that depends on
// the size: limits, batches, buffers, the order of many entries.

func vIds(n int) (ids []string) {
	for i := 0; i < n; i++ {
		ids = append(ids, "1700000000"+strconv.Itoa(100+i)+"-"+strconv.Itoa(i%3))
	}
	return ids
}

// vAt is any of the positions 0..n-1 at which something may go wrong, or -1.
func vAt(name string, n int) int { return vsym.Int(name, -1, n-1) }

// VerifC07Big: one failing update, or two, among many.
func VerifC07Big() {
	vSetup()
	n := []int{20, 101, 300, 500}[vsym.Choose("size", vsym.Param("sizes", 3))]
	activate := vsym.Choose("rpc", 2) == 0
	a, b, every := -1, -1, n+1
	switch vsym.Choose("pattern", 4) {
	case 0:
		a = vAt("fails", n)
	case 1:
		a, b = vAt("fails", n), n-1
	case 2: // all of them
		every = 1
	case 3: // every third
		every = 3
	}
	ids := vIds(n)
	answered := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		answered++
		vsym.Assert(i < n && r.Update.Key == ids[i], "update for another id or out of order")
		if i == a || i == b || (i+1)%every == 0 {
			return &store.StateResponse{Result: r.Update.Key, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	err, _ := vCall(context.Background(), activate, ids)
	vsym.Assert(answered == n, "the call returned before storage had answered all of its updates")
	want := map[string]bool{}
	for i, id := range ids {
		if i == a || i == b || (i+1)%every == 0 {
			want["ticketId/"+id] = true
		}
	}
	st, _ := status.FromError(err)
	named := 0
	for _, d := range st.Details() {
		if br, ok := d.(*errdetails.BadRequest); ok {
			for _, v := range br.GetFieldViolations() {
				named++
				vsym.Assert(want[v.GetField()], "the error names a ticket whose update did not fail")
			}
		}
	}
	vsym.Assert(named == len(want), "a failed ticket id is not named (once) in the error details")
	vsym.Assert((err == nil) == (len(want) == 0), "success or failure does not reflect the updates")
	vsym.Assert(err == nil || st.Code() == codes.InvalidArgument, "a failed update is not reported as InvalidArgument")
	vsym.Reach("large call")
}

// VerifC08Big: many tickets, one without an id or with a failing update.
func VerifC08Big() {
	vSetup()
	n := []int{20, 101, 600}[vsym.Choose("size", vsym.Param("sizes", 3))]
	ids := vIds(n)
	none, fail := vAt("without id", n), -1
	if none < 0 {
		fail = vAt("fails", n)
	}
	roster := &pb.Roster{Name: "r", Assignment: &pb.Assignment{Connection: "10.0.0.1:1"}}
	var want []string
	for i, id := range ids {
		if i == none {
			id = ""
		} else {
			want = append(want, id)
		}
		roster.Tickets = append(roster.Tickets, &pb.Ticket{Id: id})
	}
	q := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		q++
		vsym.Assert(i < len(want) && r.Update.Key == want[i], "assignment queued for another ticket or out of order")
		a := &pb.Assignment{}
		vsym.Assert(proto.Unmarshal([]byte(r.Update.Value), a) == nil && a.Connection == "10.0.0.1:1", "the queued assignment differs from the requested one")
		if i == fail {
			return &store.StateResponse{Result: r.Update.Key, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	_, err := (&grpcServer{}).CreateAssignments(context.Background(), &pb.CreateAssignmentsRequest{AssignmentRoster: roster})
	vsym.Assert(q == len(want), "not exactly one update per ticket with an id")
	vsym.Assert((err == nil) == (none < 0 && fail < 0), "success or failure does not reflect the tickets and their updates")
	vsym.Reach("large roster")
}

// VerifC09Big: a watch of many tickets.
func VerifC09Big() {
	vSetup()
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 3)
	n := []int{20, 60}[vsym.Choose("size", 2)]
	missing := vAt("without assignment", n)
	late := vsym.Choose("late", 3)
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, vMsId(time.Now().Add(-time.Hour), i))
		if i == missing {
			continue
		}
		id := ids[i]
		if late == 1 || late == 2 && i%2 == 1 {
			vsym.After(1200*time.Millisecond, func() { tc.Assignments.Store(id, &pb.Assignment{Connection: id}) })
		} else {
			tc.Assignments.Store(id, &pb.Assignment{Connection: id})
		}
	}
	st := &vWatchStream{}
	err := (&grpcServer{}).WatchAssignments(&pb.WatchAssignmentsRequest{TicketIds: ids}, st)
	st.over = true
	vsym.Assert(err == nil, "the watch failed")
	got := map[string]int{}
	for _, r := range st.sent {
		got[r.GetId()]++
		vsym.Assert(r.GetAssignment().GetConnection() == r.GetId(), "an assignment of another ticket was streamed")
	}
	for i, id := range ids {
		vsym.Assert(got[id] == vsym.B2I(i != missing), "an assignment known before the watch ended was not streamed exactly once")
	}
	vsym.Reach("large watch")
}

// VerifC10Big: a cache of many tickets and a profile of many pools.
func VerifC10Big() {
	vSetup()
	vsym.MapOrder(false)
	n := []int{30, 260}[vsym.Choose("size", 2)]
	every := []int{1, 2, 7}[vsym.Choose("inactive", 3)] // every how many tickets one is inactive
	lim := 11.0
	if n < 100 {
		lim = vsym.Float64("limit")
	}
	class := []string{"tank", "healer", "dps"}
	ids := vIds(n)
	for i, id := range ids {
		tc.Tickets.Store(id, &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{
			StringArgs: map[string]string{"class": class[i%3]}, DoubleArgs: map[string]float64{"mmr": float64(i)}, Tags: []string{"t" + strconv.Itoa(i%12)}}})
		if i%every == 0 {
			tc.InactiveSet.Store(id, true)
		}
	}
	pools := map[string]*pb.Pool{
		"all":  {Name: "all"},
		"low":  {Name: "low", DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "mmr", Minimum: -1e300, Maximum: lim}}},
		"high": {Name: "high", DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "mmr", Minimum: lim, Maximum: 1e300, Bounds: pb.Pool_EXCLUDE_MIN}}},
	}
	for k := 0; k < 12; k++ {
		name := "tag" + strconv.Itoa(k)
		pools[name] = &pb.Pool{Name: name, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t" + strconv.Itoa(k)}}}
	}
	for _, c := range class {
		pools[c] = &pb.Pool{Name: c, StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: "class", Value: c}}}
	}
	f := &vMmf{}
	vsym.Assert(vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: pools}, Mmfs: vStartMmfs(f)}, &vCaller{}) == nil, "the invocation failed")
	got := map[string]map[string]int{}
	for name, l := range vChunks(f) {
		got[name] = map[string]int{}
		for _, t := range l {
			got[name][t.GetId()]++
		}
	}
	for i, id := range ids {
		active := i%every != 0
		in := map[string]bool{"all": true, "low": float64(i) <= lim, "high": float64(i) > lim, class[i%3]: true, "tag" + strconv.Itoa(i%12): true}
		for name := range pools {
			vsym.Assert(got[name][id] == vsym.B2I(active && in[name]), "a pool does not hold exactly the matching active tickets")
		}
	}
	for name, l := range got {
		vsym.Assert(len(pools[name].GetName()) > 0 && len(l) <= n, "a pool holds something else than cached tickets")
	}
	vsym.Reach("large cache")
}

// VerifC14Big: functions that stream many matches, some of them large.
func VerifC14Big() {
	vSetup()
	vsym.MapOrder(false)
	vsym.Sched("fixed", vsym.Param("budget", 0))
	wait := vsym.Choose("wait", 2) == 1
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", wait)
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", 10) // a limit for other calls
	answered := map[string]int{}
	sizes := [][]int{{130}, {40, 0, 70}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}}[vsym.Choose("matches", 3)]
	refused := -1
	if len(sizes) > 3 {
		refused = vsym.Int("refused", -1, 40)
	}
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		vsym.Assert(r.Update.Cmd == store.Deactivate, "an update that is no deactivation was queued")
		id := r.Update.Key
		vsym.After(150*time.Millisecond, func() { tc.InactiveSet.Store(id, true) })
		answered[id]++
		if i == refused {
			return &store.StateResponse{Result: id, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "9-9"}
	})
	big := vsym.Choose("large match", 2) == 1
	fails := vsym.Choose("fails", 2) == 1
	var fs []*vMmf
	tickets := map[string][]string{}
	k := 0
	for fi, n := range sizes {
		f := &vMmf{fails: fails && fi == 0}
		for j := 0; j < n; j++ {
			id := "m" + strconv.Itoa(k)
			m := &pb.Match{Id: id, Rosters: map[string]*pb.Roster{}}
			per := 1 + k%2
			if big && k == 0 {
				per = 120
			}
			for r := 0; r < 2; r++ {
				ro := &pb.Roster{Name: "r" + strconv.Itoa(r)}
				for t := 0; t < per; t++ {
					tid := strconv.Itoa(1700000000000+k) + "-" + strconv.Itoa(r*1000+t)
					ro.Tickets = append(ro.Tickets, &pb.Ticket{Id: tid})
					tickets[id] = append(tickets[id], tid)
				}
				m.Rosters[ro.Name] = ro
			}
			f.results = append(f.results, &pb.StreamedMmfResponse{Match: m})
			k++
		}
		fs = append(fs, f)
	}
	orig := map[string]*pb.Match{}
	for _, f := range fs {
		for _, r := range f.results {
			orig[r.GetMatch().GetId()] = proto.Clone(r.GetMatch()).(*pb.Match)
		}
	}
	s := &vCaller{}
	s.onSend = func(m *pb.Match) {
		for _, id := range tickets[m.GetId()] {
			vsym.Assert(answered[id] > 0, "a match was sent before the deactivation of its tickets was answered")
			if _, ok := tc.InactiveSet.Load(id); wait {
				vsym.Assert(ok, "a match was sent before its tickets were inactive in the local cache")
			}
		}
	}
	specs := vStartMmfs(fs...)
	for i := range specs { // more than ten functions
		specs[i].Name = "f" + strconv.Itoa(i)
	}
	vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"p": {Name: "p"}}}, Mmfs: specs}, s)
	vsym.Assert(len(s.sent) == len(orig), "not exactly the functions' matches reached the caller before the invocation returned")
	seen := map[string]bool{}
	for _, m := range s.sent {
		o := orig[m.GetId()]
		vsym.Assert(o != nil && !seen[m.GetId()] && proto.Equal(o, m), "a match was sent twice, or something that no function made")
		seen[m.GetId()] = true
	}
	for _, l := range tickets {
		for _, id := range l {
			vsym.Assert(answered[id] == 1, "a ticket was not deactivated exactly once")
		}
	}
	vsym.Reach("many matches")
}
