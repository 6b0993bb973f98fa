package main

import (
	"context"
	"errors"
	"io"
	"strconv"
	"strings"

	"verif/vsym"

	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

var vRoutes = []struct{ method, path string }{
	{"POST", "/v2/tickets"},
	{"DELETE", "/v2/tickets:deactivate"},
	{"POST", "/v2/tickets:activate"},
	{"POST", "/v2/matches:fetch"},
	{"POST", "/v2/assignments:create"},
	{"POST", "/v2/assignments:watch"},
}

// The documented mapping of gRPC codes to HTTP (google/rpc/code.proto).
var vHTTP = map[codes.Code]int{
	codes.OK: 200, codes.Canceled: 499, codes.Unknown: 500, codes.InvalidArgument: 400, codes.DeadlineExceeded: 504, codes.NotFound: 404,
	codes.AlreadyExists: 409, codes.PermissionDenied: 403, codes.Unauthenticated: 401, codes.ResourceExhausted: 429,
	codes.FailedPrecondition: 400, codes.Aborted: 409, codes.OutOfRange: 400, codes.Unimplemented: 501, codes.Internal: 500,
	codes.Unavailable: 503, codes.DataLoss: 500,
}

// vAnswer is what a caller sees of an RPC.
type vAnswer struct {
	id      string   // of the ticket created
	lines   []string // streamed
	code    codes.Code
	message string
	queued  []store.StateUpdate
}

func (a *vAnswer) fail(err error) {
	a.code, a.message = status.Code(err), status.Convert(err).Message()
}

// VerifC33Start: the server as start() sets it up gives the same answer to a
// request through the gateway and through gRPC.
func VerifC33Start() {
	vSetup()
	port := vFreePort()
	cfg.Set("PORT", port)
	cfg.Set("OM_MMF_TIMEOUT_SECS", 5)
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 2)
	refused := vsym.Choose("refused", 3) - 1
	var queued []store.StateUpdate
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		queued = append(queued, r.Update)
		if len(queued)-1 == refused {
			return &store.StateResponse{Result: r.Update.Key, Err: errors.New("storage refused")}
		}
		return &store.StateResponse{Result: "1700000000000-7"}
	})
	id := vOldId(0)
	tc.Assignments.Store(id, &pb.Assignment{Connection: "c"})
	ids := []string{id, vOldId(1), "no id"}[:vsym.Choose("ids", 4)]
	rpc := vsym.Choose("rpc", len(vRoutes))
	text := ""
	if vsym.Choose("text", 2) == 1 {
		text = vsym.String("any text", vsym.Param("len", 2))
	}
	var req proto.Message
	var f *vMmf
	switch rpc {
	case 0:
		r := &pb.CreateTicketRequest{}
		if len(ids) > 0 {
			r.Ticket = &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: 1500000000}, Attributes: &pb.Ticket_FilterableData{
				CreationTime: &timestamppb.Timestamp{Seconds: 1600000000, Nanos: 123456789}, Tags: []string{"t", text}, DoubleArgs: map[string]float64{"d": 0.1}}}
		}
		req = r
	case 1:
		req = &pb.DeactivateTicketsRequest{TicketIds: ids}
	case 2:
		req = &pb.ActivateTicketsRequest{TicketIds: ids}
	case 3:
		r := &pb.MmfRequest{}
		if len(ids) > 0 {
			r.Profile = &pb.Profile{Name: text}
			f = &vMmf{refuse: len(ids) == 3}
			for i := 1; i < len(ids); i++ {
				f.results = append(f.results, &pb.StreamedMmfResponse{Match: &pb.Match{Id: vN("m", i)}})
			}
			r.Mmfs = vStartMmfs(f)
		}
		req = r
	case 4:
		r := &pb.CreateAssignmentsRequest{}
		if text != "" || len(ids) > 0 {
			r.AssignmentRoster = &pb.Roster{Assignment: &pb.Assignment{Connection: text}}
			for _, id := range ids {
				r.AssignmentRoster.Tickets = append(r.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
			}
		}
		req = r
	case 5:
		req = &pb.WatchAssignmentsRequest{TicketIds: ids}
	}
	cc := vUp(func() { start(cfg) }, port)
	first := vsym.Choose("first", 2)
	var as [2]*vAnswer
	for i := 0; i < 2; i++ {
		queued = nil
		a := &vAnswer{}
		if i == first {
			vGrpc(pb.NewOpenMatchServiceClient(cc), req, a)
		} else {
			vRest(rpc, req, a)
		}
		a.queued = queued
		as[i] = a
	}
	g, h := as[first], as[1-first]
	vsym.Assert(g.code == h.code && g.message == h.message, "gateway and gRPC answer with different errors")
	vsym.Assert(g.id == h.id, "gateway and gRPC answer with different ids")
	vsym.Assert(len(g.lines) == len(h.lines), "gateway and gRPC stream different numbers of messages")
	for i := range g.lines {
		vsym.Assert(g.lines[i] == h.lines[i], "gateway and gRPC stream different messages")
		vsym.Reach("streamed")
	}
	vsym.Assert(len(g.queued) == len(h.queued), "requests through the gateway and gRPC have different effects")
	for i := range g.queued {
		a, b := g.queued[i], h.queued[i]
		vsym.Assert(a.Cmd == b.Cmd && a.Key == b.Key, "requests through the gateway and gRPC have different effects")
		if a.Cmd == store.Ticket {
			x, y := &pb.Ticket{}, &pb.Ticket{}
			vsym.Assert(proto.Unmarshal([]byte(a.Value), x) == nil && proto.Unmarshal([]byte(b.Value), y) == nil && proto.Equal(x, y), "requests through the gateway and gRPC store different tickets")
		} else if a.Cmd == store.Assign {
			x, y := &pb.Assignment{}, &pb.Assignment{}
			vsym.Assert(proto.Unmarshal([]byte(a.Value), x) == nil && proto.Unmarshal([]byte(b.Value), y) == nil && proto.Equal(x, y), "requests through the gateway and gRPC store different assignments")
		}
		vsym.Reach("queued")
	}
	if g.code != codes.OK {
		vsym.Reach("error")
	}
	if f != nil {
		vsym.Assert(f.refuse || f.calls == 2, "the function is not called once per invocation")
	}
	vsym.Reach("compared")
}

func vGrpc(c pb.OpenMatchServiceClient, req proto.Message, a *vAnswer) {
	ctx := context.Background()
	var err error
	switch r := req.(type) {
	case *pb.CreateTicketRequest:
		var resp *pb.CreateTicketResponse
		resp, err = c.CreateTicket(ctx, r)
		a.id = resp.GetTicketId()
	case *pb.DeactivateTicketsRequest:
		_, err = c.DeactivateTickets(ctx, r)
	case *pb.ActivateTicketsRequest:
		_, err = c.ActivateTickets(ctx, r)
	case *pb.CreateAssignmentsRequest:
		_, err = c.CreateAssignments(ctx, r)
	case *pb.MmfRequest:
		var s pb.OpenMatchService_InvokeMatchmakingFunctionsClient
		s, err = c.InvokeMatchmakingFunctions(ctx, r)
		for err == nil {
			var m *pb.StreamedMmfResponse
			if m, err = s.Recv(); err == nil {
				a.lines = append(a.lines, m.GetMatch().GetId())
			}
		}
	case *pb.WatchAssignmentsRequest:
		var s pb.OpenMatchService_WatchAssignmentsClient
		s, err = c.WatchAssignments(ctx, r)
		for err == nil {
			var m *pb.StreamedWatchAssignmentsResponse
			if m, err = s.Recv(); err == nil {
				a.lines = append(a.lines, m.GetId()+" "+m.GetAssignment().GetConnection())
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
	a.fail(err)
}

func vRest(rpc int, req proto.Message, a *vAnswer) {
	code, body := vHttp(vRoutes[rpc].method, vRoutes[rpc].path, vEncode(req))
	isError := func(b []byte, field string) bool {
		s := &spb.Status{}
		if !vDecode(b, field, s) {
			return false
		}
		a.code, a.message = codes.Code(s.GetCode()), s.GetMessage()
		return true
	}
	if rpc != 3 && rpc != 5 {
		if code == 200 {
			var out proto.Message = &pb.ActivateTicketsResponse{}
			switch rpc {
			case 0:
				t := &pb.CreateTicketResponse{}
				vsym.Assert(vDecode(body, "", t), "the gateway answers with another message")
				a.id = t.GetTicketId()
				return
			case 1:
				out = &pb.DeactivateTicketsResponse{}
			case 4:
				out = &pb.CreateAssignmentsResponse{}
			}
			vsym.Assert(vDecode(body, "", out), "the gateway answers with another message")
			return
		}
		vsym.Assert(isError(body, ""), "the gateway does not answer with a status")
		vsym.Assert(code == vHTTP[a.code], "the gateway answers with the status of another code: "+strconv.Itoa(code))
		return
	}
	for _, l := range strings.Split(strings.TrimSuffix(string(body), "\n"), "\n") {
		if l == "" {
			continue
		}
		if code != 200 {
			vsym.Assert(isError([]byte(l), "error") || isError([]byte(l), ""), "the gateway does not answer with a status")
			vsym.Assert(code == vHTTP[a.code], "the gateway answers with the status of another code: "+strconv.Itoa(code))
			continue
		}
		if m := (&pb.StreamedMmfResponse{}); rpc == 3 && vDecode([]byte(l), "result", m) {
			a.lines = append(a.lines, m.GetMatch().GetId())
		} else if m := (&pb.StreamedWatchAssignmentsResponse{}); rpc == 5 && vDecode([]byte(l), "result", m) {
			a.lines = append(a.lines, m.GetId()+" "+m.GetAssignment().GetConnection())
		} else {
			vsym.Assert(isError([]byte(l), "error"), "the gateway streams something else")
		}
	}
}
