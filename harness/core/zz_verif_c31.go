package main

import (
	"context"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/types/known/timestamppb"
	memoryReplicator "open-match.dev/core/internal/statestore/memory"
	pb "open-match.dev/pkg/pb/v2"
)

type vTicket struct {
	id     string
	active bool
	exp    time.Time // earlier than the default
}

// VerifC31: a history of client operations against the whole core (handlers,
// both queues, cache, in-memory storage); an invocation after every one.
func VerifC31() {
	vSetup()
	vsym.Sched("delay", 0)
	vsym.MapOrder(false)
	cfg.Set("OM_CACHE_OUT_WAIT_TIMEOUT_MS", 100)
	cfg.Set("OM_CACHE_IN_WAIT_TIMEOUT_MS", 100)
	tc.Replicator = memoryReplicator.New(cfg)
	ctx := context.Background()
	go tc.OutgoingReplicationQueue(ctx)
	go tc.IncomingReplicationQueue(ctx)
	s := &grpcServer{}
	const settle = 1200 * time.Millisecond
	ext := vsym.Param("maxTickets", 2)
	var ts []*vTicket
	pools := map[string]*pb.Pool{"p": {Name: "p", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}}}

	// invoke runs the matchmaking function once, which answers with the
	// matches, and checks the pool.
	invoke := func(ms ...*pb.StreamedMmfResponse) {
		f := &vMmf{results: ms}
		c := &vCaller{}
		before := time.Now()
		err := vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: pools}, Mmfs: vStartMmfs(f)}, c)
		vsym.Assert(err == nil && f.calls == 1, "invocation failed")
		vsym.Assert(len(c.sent) == len(ms), "not every match was returned")
		in := map[string]int{}
		for _, t := range vChunks(f)["p"] {
			in[t.GetId()]++
		}
		n := 0
		for _, t := range ts {
			k := in[t.id]
			vsym.Assert(k <= 1, "a pool holds a ticket twice")
			n += k
			if !t.active {
				vsym.Assert(k == 0, "an inactive ticket is in a pool")
			} else if t.exp.After(time.Now()) {
				vsym.Assert(k == 1, "an active ticket is missing from its pool")
				vsym.Reach("in pool")
			} else if t.exp.Before(before.Add(-settle)) {
				vsym.Assert(k == 0, "an expired ticket is in a pool")
				vsym.Reach("expired")
			}
		}
		vsym.Assert(n == len(in), "a ticket that was not created is in a pool")
	}
	ops := vsym.Param("ops", 4)
	for i := 0; i < ops; i++ {
		op := vsym.Choose(vN("op", i), 6)
		if i == 0 {
			vsym.Assume(op == 0)
		}
		var t *vTicket
		if op > 0 && op < 5 {
			t = ts[vsym.Choose(vN("ticket", i), len(ts))]
		}
		switch op {
		case 0:
			vsym.Assume(len(ts) < ext)
			req := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}}}
			exp := time.Now().Add(590 * time.Second)
			if vsym.Choose(vN("expires", i), 2) == 1 {
				sec := time.Now().Unix() + vsym.Int64(vN("expiration", i), 1, 40)
				req.ExpirationTime = &timestamppb.Timestamp{Seconds: sec}
				exp = time.Unix(sec, 0)
			}
			r, err := s.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: req})
			vsym.Assert(err == nil && r.GetTicketId() != "", "ticket not created")
			ts = append(ts, &vTicket{id: r.GetTicketId(), exp: exp})
		case 1:
			_, err := s.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{t.id}})
			vsym.Assert(err == nil, "activation failed")
			t.active = true
		case 2:
			_, err := s.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{t.id}})
			vsym.Assert(err == nil, "deactivation failed")
			t.active = false
		case 3:
			_, err := s.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{
				Assignment: &pb.Assignment{Connection: "c"}, Tickets: []*pb.Ticket{{Id: t.id}}}})
			vsym.Assert(err == nil, "assignment failed")
		case 4:
			cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", vsym.Choose(vN("wait", i), 2) == 1)
			invoke(&pb.StreamedMmfResponse{Match: &pb.Match{Id: vN("m", i), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: t.id}}}}}})
			t.active = false
			vsym.Reach("matched")
		case 5:
			time.Sleep(3 * time.Second)
		}
		time.Sleep(settle)
		if vsym.Param("each", 0) == 1 || i == ops-1 {
			invoke()
		}
	}
}
