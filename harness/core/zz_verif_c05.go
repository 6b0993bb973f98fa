package main

import (
	"context"
	"time"

	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC05: CreateTicket's answer is storage's answer.
func VerifC05() {
	vSetup()
	id := vsym.String("id", 6)
	fail := vsym.Choose("storageFails", 2) == 1
	kind := vsym.Choose("request", 5)
	n := 0
	ctx, midway := vCtx()
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		n++
		vsym.Assert(r.Update.Cmd == store.Ticket, "CreateTicket queued something else than a ticket creation")
		midway()
		if fail {
			return &store.StateResponse{Result: id, Err: vErrStorage}
		}
		return &store.StateResponse{Result: id}
	})
	var req *pb.CreateTicketRequest
	reject, bad := false, false
	switch kind {
	case 0: // nil request
		reject = true
	case 1:
		req = &pb.CreateTicketRequest{}
		reject = true
	case 2:
		req = &pb.CreateTicketRequest{Ticket: &pb.Ticket{}}
	case 3:
		req = &pb.CreateTicketRequest{Ticket: &pb.Ticket{Id: vsym.String("clientId", 3), Attributes: &pb.Ticket_FilterableData{Tags: []string{vsym.String("tag", 3)}}}}
	case 4: // not encodable: invalid UTF-8
		req = &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"a\xff"}}}}
		bad = true
	}
	resp, err := (&grpcServer{}).CreateTicket(ctx, req)
	vsym.Settle(20 * time.Millisecond)
	vsym.Assert(vTaken == n, "storage's answer is never received: the replication queue is stuck")
	switch {
	case reject:
		vsym.Assert(status.Code(err) == codes.InvalidArgument, "a request without a ticket is not rejected with InvalidArgument")
		vsym.Assert(n == 0, "a rejected request queued an update")
		vsym.Reach("rejected")
	case bad:
		vsym.Assert(err != nil, "a ticket that cannot be encoded was accepted")
		vsym.Assert(n == 0, "a ticket that cannot be encoded was queued")
		vsym.Reach("unencodable")
	case fail:
		vsym.Assert(n == 1, "not exactly one update queued")
		vsym.Assert(err != nil, "storage failed but CreateTicket reported success")
		vsym.Reach("storage error")
	default:
		vsym.Assert(n == 1, "not exactly one update queued")
		vsym.Assert(err == nil && resp != nil, "storage accepted the ticket but CreateTicket failed")
		vsym.Assert(resp.TicketId == id, "CreateTicket returned another id than storage assigned")
		vsym.Reach("created")
	}
}

// VerifC05Two: two calls at the same time, storage answering in any order.
func VerifC05Two() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	bad := vsym.Choose("refused", 3)
	delay := []time.Duration{0, 10 * time.Millisecond, 20 * time.Millisecond}
	dA, dB := delay[vsym.Choose("delayA", 3)], delay[vsym.Choose("delayB", 3)]
	go func() {
		for {
			r := <-tc.UpRequests
			tk := &pb.Ticket{}
			vsym.Assert(proto.Unmarshal([]byte(r.Update.Value), tk) == nil, "the stored ticket does not decode")
			who := tk.GetAttributes().GetTags()[0]
			d, resp := dA, &store.StateResponse{Result: "1-" + who}
			if who == "2" {
				d = dB
			}
			if who == string(rune('0'+bad)) {
				resp.Err = vErrStorage
			}
			vsym.After(d, func() { r.ResultsChan <- resp })
		}
	}()
	over := make(chan bool, 2)
	call := func(who string) {
		resp, err := (&grpcServer{}).CreateTicket(context.Background(), &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{who}}}})
		if who == string(rune('0'+bad)) {
			vsym.Assert(err != nil, "storage failed but CreateTicket reported success")
			vsym.Reach("refused")
		} else {
			vsym.Assert(err == nil && resp != nil, "storage accepted the ticket but CreateTicket failed")
			vsym.Assert(resp.GetTicketId() == "1-"+who, "CreateTicket returned the id of another ticket")
			vsym.Reach("created")
		}
		over <- true
	}
	go call("1")
	go call("2")
	<-over
	<-over
}
