package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC35Matches: the counter of matches grows by the number of matches that
// the functions streamed, however their streams end.
func VerifC35Matches() {
	vSetup()
	c := vMetrics().get("om_core.match.received")
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", vsym.Choose("wait", 2) == 1)
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		id := r.Update.Key
		vsym.After(0, func() { tc.InactiveSet.Store(id, true) })
		return &store.StateResponse{Result: "9-9"}
	})
	var fs []*vMmf
	nF := 1 + vsym.Choose("functions", vsym.Param("maxMmfs", 2))
	want, k := 0, 0
	for i := 0; i < nF; i++ {
		f := &vMmf{}
		n := vsym.Choose(vN("matches", i), vsym.Param("maxMatches", 2)+1)
		for j := 0; j < n; j++ {
			m := &pb.Match{Id: vN("m", k), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: vN("1700000000000-", k)}}}}}
			f.results = append(f.results, &pb.StreamedMmfResponse{Match: m})
			k++
		}
		switch vsym.Choose(vN("end", i), 3) {
		case 1:
			f.fails = true
		case 2:
			f.refuse = true
			n = 0
		}
		want += n
		fs = append(fs, f)
	}
	for round := 1; round <= 2; round++ {
		vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x"}, Mmfs: vStartMmfs(fs...)}, &vCaller{})
		vsym.Assert(c.total == float64(round*want), "the counter of matches did not grow by the number of matches received")
	}
	if want > 1 {
		vsym.Reach("several matches")
	}
	vsym.Reach("invoked")
}

// VerifC35Watch: the gauge of watches is the number of tickets that are waited
// for.
func VerifC35Watch() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	g := vMetrics().get("om_core.ticket.assigment.watch")
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 4)
	at := func(d time.Duration, want int) {
		vsym.After(d, func() {
			vsym.Assert(g.total == float64(want), "the gauge of watches is not the number of tickets waited for")
			vsym.Reach("looked")
		})
	}
	early, mid := 0, 0
	failAt := vsym.Choose("stream breaks", 2) // at the first assignment
	done := make(chan bool, 2)
	nW := 1 + vsym.Choose("watches", vsym.Param("maxWatches", 2))
	k := 0
	for w := 0; w < nW; w++ {
		var ids []string
		n := vsym.Choose(vN("ids", w), vsym.Param("maxIds", 2)+1)
		for i := 0; i < n; i++ {
			id := vOldId(k)
			ids = append(ids, id)
			switch vsym.Choose(vN("arrives", k), 3) {
			case 0: // known already
				tc.Assignments.Store(id, &pb.Assignment{Connection: id})
			case 1: // during the watch
				vsym.After(1200*time.Millisecond, func() { tc.Assignments.Store(id, &pb.Assignment{Connection: id}) })
				early++
			case 2: // never
				early++
				mid++
			}
			k++
		}
		go func() {
			(&grpcServer{}).WatchAssignments(&pb.WatchAssignmentsRequest{TicketIds: ids}, &vWatchStream{failAt: failAt})
			done <- true
		}()
	}
	if failAt == 0 {
		at(600*time.Millisecond, early)
		at(2600*time.Millisecond, mid)
	}
	for w := 0; w < nW; w++ {
		<-done
	}
	vsym.Assert(g.total == 0, "the gauge of watches is not zero when there is none")
	if mid > 0 {
		vsym.Reach("timed out")
	}
	vsym.Reach("over")
}

// VerifC35Calls: what is recorded of each call.
func VerifC35Calls() {
	vSetup()
	m := vMetrics()
	queued := 0
	refused := vsym.Int("refused", -1, 3)
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		queued++
		if i == refused {
			return &store.StateResponse{Result: r.Update.Key, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "9-9"}
	})
	name := "om_core.ticket.assignment"
	calls := 1 + vsym.Choose("calls", 2)
	which := vsym.Choose("rpc", 3)
	for c := 0; c < calls; c++ {
		var ids []string
		var ts []*pb.Ticket
		n := 1 + vsym.Choose(vN("ids", c), vsym.Param("maxIds", 3))
		for i := 0; i < n; i++ {
			id := "1700000000000-1"
			if vsym.Choose(vN(vN("bad", c), i), 2) == 1 {
				id = []string{"", "no id"}[vsym.Choose(vN(vN("form", c), i), 2)]
			}
			ids = append(ids, id)
			ts = append(ts, &pb.Ticket{Id: id})
		}
		switch which {
		case 0:
			name = "om_core.ticket.activation.requests"
			(&grpcServer{}).ActivateTickets(context.Background(), &pb.ActivateTicketsRequest{TicketIds: ids})
		case 1:
			name = "om_core.ticket.deactivation.requests"
			(&grpcServer{}).DeactivateTickets(context.Background(), &pb.DeactivateTicketsRequest{TicketIds: ids})
		default:
			(&grpcServer{}).CreateAssignments(context.Background(), &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: ts}})
		}
	}
	h := m.get(name)
	vsym.Assert(h.records == calls, "a call was not recorded once")
	vsym.Assert(h.total == float64(queued), "what was recorded is not the number of updates requested")
	for _, o := range []string{"om_core.ticket.activation.requests", "om_core.ticket.deactivation.requests", "om_core.ticket.assignment"} {
		vsym.Assert(o == name || m.get(o).records == 0, "a call was recorded as one of another kind")
	}
	vsym.Reach("recorded")
}

// VerifC35Rpc: every RPC that ends is measured once, every one that fails is
// counted once.
func VerifC35Rpc() {
	m := vMetrics()
	h := &Handler{}
	n := vsym.Choose("rpcs", 3)
	failed, ms := 0, 0.0
	for i := 0; i < n; i++ {
		ctx := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/open_match.v2.OpenMatchService/CreateTicket"})
		start := time.Unix(1700000000, 0)
		us := []int64{0, 1, 999, 1000, 1500, 60_000_000}[vsym.Choose(vN("us", i), 6)]
		var err error
		switch k := vsym.Choose(vN("fails", i), 7); k {
		case 0:
		case 1:
			err = errors.New("failed")
		case 2:
			err = context.Canceled
		case 3:
			err = context.DeadlineExceeded
		case 4:
			err = fmt.Errorf("failed: %w", context.Canceled)
		case 5:
			err = io.EOF
		case 6:
			c := vsym.Int(vN("code", i), 1, 16)
			err = status.Error(codes.Code(c), "failed")
		}
		if err != nil {
			failed++
		}
		ms += float64(us) / 1000
		h.HandleRPC(ctx, &stats.Begin{BeginTime: start})
		h.HandleRPC(ctx, &stats.InPayload{Length: 100})
		h.HandleRPC(ctx, &stats.OutPayload{Length: 100})
		h.HandleRPC(ctx, &stats.End{BeginTime: start, EndTime: start.Add(time.Duration(us) * time.Microsecond), Error: err})
	}
	d, e := m.get("om_core.rpc.duration"), m.get("om_core.rpc.errors")
	vsym.Assert(d.records == n, "an RPC was not measured once")
	vsym.Assert(d.total > ms-0.0001 && d.total < ms+0.0001, "a wrong duration was recorded")
	vsym.Assert(e.total == float64(failed), "the counter of errors is not the number of RPCs that failed")
	vsym.Reach("measured")
}
