package main

import (
	"os"
	"time"

	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC31Main: the life of tickets in om-core as main() sets it up, its
// storage in memory, through the gateway or gRPC.
func VerifC31Main() {
	port := vFreePort()
	for k, v := range map[string]string{"PORT": port, "OM_STATE_STORAGE_TYPE": "memory", "OM_CACHE_OUT_WAIT_TIMEOUT_MS": "100", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "100", "OM_CACHE_TICKET_TTL_SECS": "8", "OM_LOGGING_LEVEL": "error"} {
		os.Setenv(k, v)
	}
	vsym.MapOrder(false)
	cc := vUp(main, port)
	c := pb.NewOpenMatchServiceClient(cc)
	rest := vsym.Choose("gateway", 2) == 1
	do := func(rpc int, req proto.Message) *vAnswer {
		a := &vAnswer{}
		if rest {
			vRest(rpc, req, a)
		} else {
			vGrpc(c, req, a)
		}
		vsym.Assert(a.code == codes.OK, "an RPC failed: "+a.message)
		return a
	}
	settle := func() { time.Sleep(1200 * time.Millisecond) }
	n := 1 + vsym.Choose("tickets", vsym.Param("maxTickets", 2))
	var ids []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		id := do(0, &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}}}}).id
		vsym.Assert(id != "" && !seen[id], "a ticket has no id of its own")
		seen[id] = true
		ids = append(ids, id)
	}
	born := time.Now()
	active := map[string]bool{}
	for i, id := range ids {
		if k := vsym.Choose(vN("state", i), 3); k > 0 {
			do(2, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
			active[id] = true
			if k == 2 {
				do(1, &pb.DeactivateTicketsRequest{TicketIds: []string{id}})
				active[id] = false
			}
		}
	}
	settle()
	pool := func(results ...*pb.StreamedMmfResponse) map[string]int {
		f := &vMmf{results: results}
		a := do(3, &pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"p": {Name: "p", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}}}}, Mmfs: vStartMmfs(f)})
		vsym.Assert(len(a.lines) == len(results), "not every match was returned")
		in := map[string]int{}
		for _, t := range vChunks(f)["p"] {
			in[t.GetId()]++
		}
		return in
	}
	check := func(in map[string]int) {
		sum := 0
		for _, id := range ids {
			want := 0
			if active[id] {
				want = 1
				vsym.Reach("in pool")
			}
			vsym.Assert(in[id] == want, "a pool does not hold exactly the active tickets")
			sum += want
		}
		vsym.Assert(sum == len(in), "a ticket that was not created is in a pool")
	}
	t := ids[vsym.Choose("matched", len(ids))]
	check(pool(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: t}}}}}}))
	settle()
	active[t] = false
	check(pool())
	do(4, &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Assignment: &pb.Assignment{Connection: "1.2.3.4:5"}, Tickets: []*pb.Ticket{{Id: t}}}})
	a := do(5, &pb.WatchAssignmentsRequest{TicketIds: []string{t}})
	vsym.Assert(len(a.lines) == 1 && a.lines[0] == t+" 1.2.3.4:5", "the assignment was not streamed")
	if vsym.Choose("expires", 2) == 1 {
		time.Sleep(time.Until(born.Add(10 * time.Second)))
		active = nil
		check(pool())
		vsym.Reach("expired")
	}
	vsym.Reach("over")
}
