package main

import (
	"time"

	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC08: CreateAssignments.
func VerifC08() {
	vSetup()
	kind := vsym.Choose("request", 4)
	conn := vsym.String("connection", 3)
	n := vsym.Choose("tickets", vsym.Param("maxTickets", 3)+1)
	late := vsym.Choose("late", 2) == 1
	var ids []string
	var fail []bool
	wantErr := false
	roster := &pb.Roster{Name: "r", Assignment: &pb.Assignment{Connection: conn}}
	for i := 0; i < n; i++ {
		id := ""
		f := false
		switch vsym.Choose(vN("ticket", i), 3) {
		case 0: // no id
			wantErr = true
		case 1:
			id = vsym.String(vN("id", i), 4)
			vsym.Assume(id != "")
		case 2:
			id = "1700000000000-" + string(rune('0'+i))
			f = true
			wantErr = true
		}
		roster.Tickets = append(roster.Tickets, &pb.Ticket{Id: id})
		if id != "" {
			ids = append(ids, id)
			fail = append(fail, f)
		}
	}
	req := &pb.CreateAssignmentsRequest{AssignmentRoster: roster}
	switch kind {
	case 0:
		req = nil
	case 1:
		req = &pb.CreateAssignmentsRequest{}
	case 2:
		roster.Assignment = nil
	}
	queued, answered := 0, 0
	ctx, midway := vCtx()
	check := func(i int, u store.StateUpdate) *store.StateResponse {
		queued++
		if i == 0 {
			midway()
		}
		vsym.Assert(i < len(ids), "more updates queued than tickets with an id")
		vsym.Assert(u.Cmd == store.Assign, "update of the wrong kind")
		vsym.Assert(u.Key == ids[i], "assignment queued for another ticket or out of order")
		a := &pb.Assignment{}
		vsym.Assert(proto.Unmarshal([]byte(u.Value), a) == nil, "the queued assignment does not decode")
		vsym.Assert(a.Connection == conn, "the queued assignment differs from the requested one")
		if fail[i] {
			return &store.StateResponse{Result: u.Key, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	}
	if late {
		go func() {
			for i := 0; ; i++ {
				r := <-tc.UpRequests
				resp := check(i, r.Update)
				vsym.After(time.Duration(i+1)*50*time.Millisecond, func() {
					answered++
					r.ResultsChan <- resp
				})
			}
		}()
	} else {
		vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
			answered++
			return check(i, r.Update)
		})
	}
	resp, err := (&grpcServer{}).CreateAssignments(ctx, req)
	if kind < 3 {
		vsym.Assert(status.Code(err) == codes.InvalidArgument, "a request without roster or assignment is not rejected with InvalidArgument")
		vsym.Assert(queued == 0, "a rejected request queued updates")
		vsym.Reach("rejected")
		return
	}
	vsym.Assert(queued == len(ids), "not exactly one update per ticket with an id")
	vsym.Assert(answered == len(ids), "returned before storage had answered every update")
	if wantErr {
		vsym.Assert(err != nil, "success although a ticket had no id or an update failed")
		vsym.Reach("error")
	} else {
		vsym.Assert(err == nil && resp != nil, "error although every ticket was assigned")
		vsym.Reach("ok")
	}
}
