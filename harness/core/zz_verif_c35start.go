package main

import (
	"errors"
	"time"

	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC35Start: RPCs to om-core as start() serves it are measured once each,
// and counted as an error if they are answered with one.
func VerifC35Start() {
	vSetup()
	m := vMetrics()
	port := vFreePort()
	cfg.Set("PORT", port)
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 2)
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		if r.Update.Key == "7-7" {
			return &store.StateResponse{Result: r.Update.Key, Err: errors.New("storage refused")}
		}
		return &store.StateResponse{Result: "9-9"}
	})
	cc := vUp(func() { start(cfg) }, port)
	n, failed := vsym.Choose("rpcs", vsym.Param("maxRpcs", 2)+1), 0
	for i := 0; i < n; i++ {
		id := []string{"8-8", "7-7"}[vsym.Choose(vN("fails", i), 2)]
		var req proto.Message
		rpc := []int{0, 2, 4, 5}[vsym.Choose(vN("rpc", i), 4)]
		switch rpc {
		case 0:
			r := &pb.CreateTicketRequest{}
			if id == "8-8" {
				r.Ticket = &pb.Ticket{}
			}
			req = r
		case 2:
			req = &pb.ActivateTicketsRequest{TicketIds: []string{id}}
		case 4:
			req = &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: []*pb.Ticket{{Id: id}}}}
		case 5:
			req = &pb.WatchAssignmentsRequest{TicketIds: []string{vOldId(i)}}
		}
		a := &vAnswer{}
		if vsym.Choose(vN("gateway", i), 2) == 1 {
			vRest(rpc, req, a)
		} else {
			vGrpc(pb.NewOpenMatchServiceClient(cc), req, a)
		}
		if a.code != codes.OK {
			failed++
			vsym.Reach("failed")
		}
	}
	time.Sleep(200 * time.Millisecond)
	d, e := m.get("om_core.rpc.duration"), m.get("om_core.rpc.errors")
	vsym.Assert(d.records == n, "an RPC was not measured once")
	vsym.Assert(e.total == float64(failed), "the counter of errors is not the number of RPCs that failed")
	vsym.Reach("measured")
}
