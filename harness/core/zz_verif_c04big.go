package main

import (
	"context"
	"strconv"

	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC04Big: tickets with many attributes, or a large one; some are
// repeated, empty or unusual.
func VerifC04Big() {
	vSetup()
	n := []int{0, 1, 40, 130}[vsym.Choose("entries", 4)]
	a := &pb.Ticket_FilterableData{StringArgs: map[string]string{}, DoubleArgs: map[string]float64{}, CreationTime: &timestamppb.Timestamp{Seconds: 1700000000, Nanos: 1}}
	t := &pb.Ticket{Attributes: a, ExpirationTime: &timestamppb.Timestamp{Seconds: 1700000300}, Extensions: map[string]*anypb.Any{}}
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		a.Tags = append(a.Tags, []string{"tag", "tag", "", " x ", "T" + k}[i%5])
		a.StringArgs["s"+k] = []string{"", "v", " V", "v" + k}[i%4]
		a.DoubleArgs["d"+k] = []float64{0, -1.5, float64(i)}[i%3]
		t.Extensions["e"+k] = &anypb.Any{TypeUrl: []string{"", "t", "type.googleapis.com/google.protobuf.StringValue"}[i%3], Value: []byte([]string{"", "x", "\xff\xfe"}[i/3%3])}
	}
	if vsym.Choose("large", 2) == 1 {
		big := vsym.BigString("text", 1, 3900000)
		switch vsym.Choose("where", 3) {
		case 0:
			a.StringArgs["big"] = big
		case 1:
			a.Tags = append(a.Tags, big)
		case 2:
			t.Extensions["big"] = &anypb.Any{TypeUrl: "big", Value: []byte(big)}
		}
	}
	req := &pb.CreateTicketRequest{Ticket: t}
	orig := proto.Clone(t).(*pb.Ticket)
	var seen []store.StateUpdate
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		seen = append(seen, r.Update)
		return &store.StateResponse{Result: "1-0"}
	})
	resp, err := (&grpcServer{}).CreateTicket(context.Background(), req)
	vsym.Assert(err == nil && resp.GetTicketId() == "1-0", "CreateTicket failed although storage accepted the ticket")
	vsym.Assert(len(seen) == 1, "CreateTicket did not queue exactly one update")
	got := &pb.Ticket{}
	vsym.Assert(proto.Unmarshal([]byte(seen[0].Value), got) == nil, "the stored ticket does not decode")
	vsym.Assert(proto.Equal(got, orig), "the stored ticket is not the client's")
	vsym.Assert(proto.Equal(req.Ticket, orig), "the request was modified")
	vsym.Reach("stored")
}
