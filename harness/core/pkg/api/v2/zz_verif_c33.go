package v2

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"verif/vsym"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

// vClient is the gRPC API behind the gateway. It notes the RPC and its
// request, and answers as told.
type vClient struct {
	rpc    []string
	req    proto.Message
	ctx    context.Context
	err    error
	answer proto.Message
	stream []proto.Message // a stream's messages, then end
	end    error
	during func() // while the RPC is underway
}

func (c *vClient) call(ctx context.Context, rpc string, in proto.Message) error {
	c.rpc = append(c.rpc, rpc)
	c.req = proto.Clone(in)
	c.ctx = ctx
	c.during()
	return c.err
}
func (c *vClient) CreateTicket(ctx context.Context, in *pb.CreateTicketRequest, _ ...grpc.CallOption) (*pb.CreateTicketResponse, error) {
	if err := c.call(ctx, "CreateTicket", in); err != nil {
		return nil, err
	}
	return c.answer.(*pb.CreateTicketResponse), nil
}
func (c *vClient) DeactivateTickets(ctx context.Context, in *pb.DeactivateTicketsRequest, _ ...grpc.CallOption) (*pb.DeactivateTicketsResponse, error) {
	if err := c.call(ctx, "DeactivateTickets", in); err != nil {
		return nil, err
	}
	return &pb.DeactivateTicketsResponse{}, nil
}
func (c *vClient) ActivateTickets(ctx context.Context, in *pb.ActivateTicketsRequest, _ ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	if err := c.call(ctx, "ActivateTickets", in); err != nil {
		return nil, err
	}
	return &pb.ActivateTicketsResponse{}, nil
}
func (c *vClient) CreateAssignments(ctx context.Context, in *pb.CreateAssignmentsRequest, _ ...grpc.CallOption) (*pb.CreateAssignmentsResponse, error) {
	if err := c.call(ctx, "CreateAssignments", in); err != nil {
		return nil, err
	}
	return &pb.CreateAssignmentsResponse{}, nil
}

type vStream struct {
	grpc.ClientStream
	c *vClient
	i int
}

func (s *vStream) Header() (metadata.MD, error) { return nil, nil }
func (s *vStream) next() (proto.Message, error) {
	if s.i == len(s.c.stream) {
		return nil, s.c.end
	}
	s.i++
	return s.c.stream[s.i-1], nil
}

type vMatches struct{ vStream }

func (s *vMatches) Recv() (*pb.StreamedMmfResponse, error) {
	m, err := s.next()
	if err != nil {
		return nil, err
	}
	return m.(*pb.StreamedMmfResponse), nil
}

type vAssignments struct{ vStream }

func (s *vAssignments) Recv() (*pb.StreamedWatchAssignmentsResponse, error) {
	m, err := s.next()
	if err != nil {
		return nil, err
	}
	return m.(*pb.StreamedWatchAssignmentsResponse), nil
}
func (c *vClient) InvokeMatchmakingFunctions(ctx context.Context, in *pb.MmfRequest, _ ...grpc.CallOption) (pb.OpenMatchService_InvokeMatchmakingFunctionsClient, error) {
	if err := c.call(ctx, "InvokeMatchmakingFunctions", in); err != nil {
		return nil, err
	}
	return &vMatches{vStream{c: c}}, nil
}
func (c *vClient) WatchAssignments(ctx context.Context, in *pb.WatchAssignmentsRequest, _ ...grpc.CallOption) (pb.OpenMatchService_WatchAssignmentsClient, error) {
	if err := c.call(ctx, "WatchAssignments", in); err != nil {
		return nil, err
	}
	return &vAssignments{vStream{c: c}}, nil
}

// vWriter keeps the HTTP response.
type vWriter struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (w *vWriter) Header() http.Header { return w.h }
func (w *vWriter) WriteHeader(code int) {
	if w.code == 0 {
		w.code = code
	}
}
func (w *vWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.body.Write(b)
}
func (w *vWriter) Flush() {}

// JSON: real on the compiled code, references to messages in the interpreter.

var vMsgs []interface{}

func vRef(v interface{}) []byte {
	vMsgs = append(vMsgs, v)
	return []byte("#" + strconv.Itoa(len(vMsgs)-1))
}
func vDeref(b []byte) interface{} {
	s := strings.TrimSuffix(string(b), "\n")
	if s[0] != '#' {
		return nil
	}
	i, err := strconv.Atoi(s[1:])
	vsym.Assert(err == nil, "a body that is not one message")
	return vMsgs[i]
}

func vEncode(m proto.Message) []byte {
	b, err := protojson.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}
func VM_api_vEncode(m proto.Message) []byte { return vRef(m) }

// vDecode reads a message, or a field of it.
func vDecode(b []byte, field string, m proto.Message) bool {
	if field != "" {
		var o map[string]json.RawMessage
		if json.Unmarshal(b, &o) != nil || len(o) != 1 || o[field] == nil {
			return false
		}
		b = o[field]
	}
	return protojson.Unmarshal(b, m) == nil
}
func VM_api_vDecode(b []byte, field string, m proto.Message) bool {
	v := vDeref(b)
	if field != "" {
		switch o := v.(type) {
		case map[string]interface{}:
			v = o[field]
		case map[string]proto.Message:
			v = o[field]
		default:
			return false
		}
	}
	x, ok := v.(proto.Message)
	return ok && vAssign(m, x)
}

func VM_runtime_JSONPb_Marshal(j *runtime.JSONPb, v interface{}) ([]byte, error) { return vRef(v), nil }

type vDecoder struct{ r io.Reader }

func (d *vDecoder) Decode(v interface{}) error {
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	if b[0] == '#' {
		if x, ok := vDeref(b).(proto.Message); ok && vAssign(v.(proto.Message), x) {
			return nil
		}
	}
	return errors.New("no such JSON")
}
func VM_runtime_JSONPb_NewDecoder(j *runtime.JSONPb, r io.Reader) runtime.Decoder { return &vDecoder{r} }

// vAssign makes to what from is.
func vAssign(to, from proto.Message) bool {
	switch t := to.(type) {
	case *pb.CreateTicketRequest:
		f, ok := from.(*pb.CreateTicketRequest)
		if ok {
			t.Ticket = f.Ticket
		}
		return ok
	case *pb.DeactivateTicketsRequest:
		f, ok := from.(*pb.DeactivateTicketsRequest)
		if ok {
			t.TicketIds = f.TicketIds
		}
		return ok
	case *pb.ActivateTicketsRequest:
		f, ok := from.(*pb.ActivateTicketsRequest)
		if ok {
			t.TicketIds = f.TicketIds
		}
		return ok
	case *pb.CreateAssignmentsRequest:
		f, ok := from.(*pb.CreateAssignmentsRequest)
		if ok {
			t.AssignmentRoster = f.AssignmentRoster
		}
		return ok
	case *pb.WatchAssignmentsRequest:
		f, ok := from.(*pb.WatchAssignmentsRequest)
		if ok {
			t.TicketIds = f.TicketIds
		}
		return ok
	case *pb.MmfRequest:
		f, ok := from.(*pb.MmfRequest)
		if ok {
			t.Profile, t.Mmfs = f.Profile, f.Mmfs
		}
		return ok
	case *pb.CreateTicketResponse:
		f, ok := from.(*pb.CreateTicketResponse)
		if ok {
			t.TicketId = f.TicketId
		}
		return ok
	case *pb.DeactivateTicketsResponse:
		_, ok := from.(*pb.DeactivateTicketsResponse)
		return ok
	case *pb.ActivateTicketsResponse:
		_, ok := from.(*pb.ActivateTicketsResponse)
		return ok
	case *pb.CreateAssignmentsResponse:
		_, ok := from.(*pb.CreateAssignmentsResponse)
		return ok
	case *pb.StreamedMmfResponse:
		f, ok := from.(*pb.StreamedMmfResponse)
		if ok {
			t.Match = f.Match
		}
		return ok
	case *pb.StreamedWatchAssignmentsResponse:
		f, ok := from.(*pb.StreamedWatchAssignmentsResponse)
		if ok {
			t.Assignment, t.Id = f.Assignment, f.Id
		}
		return ok
	case *spb.Status:
		f, ok := from.(*spb.Status)
		if ok {
			t.Code, t.Message = f.Code, f.Message
		}
		return ok
	}
	return false
}

var vCtx context.Context

func VM_http_Request_Context(r *http.Request) context.Context { return vCtx }

// vDo is an HTTP request to the gateway.
func vDo(mux http.Handler, method, path string, body []byte) *vWriter {
	w := &vWriter{h: http.Header{}}
	r := &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{"Content-Type": {"application/json"}},
		Host: "localhost:58081", RemoteAddr: "127.0.0.1:50000", Body: io.NopCloser(bytes.NewReader(body))}
	if vsym.Native() {
		r = r.WithContext(vCtx)
	}
	mux.ServeHTTP(w, r)
	return w
}

// The documented mapping of gRPC codes to HTTP (google/rpc/code.proto).
var vHTTP = map[codes.Code]int{
	codes.Canceled: 499, codes.Unknown: 500, codes.InvalidArgument: 400, codes.DeadlineExceeded: 504, codes.NotFound: 404,
	codes.AlreadyExists: 409, codes.PermissionDenied: 403, codes.Unauthenticated: 401, codes.ResourceExhausted: 429,
	codes.FailedPrecondition: 400, codes.Aborted: 409, codes.OutOfRange: 400, codes.Unimplemented: 501, codes.Internal: 500,
	codes.Unavailable: 503, codes.DataLoss: 500,
}

// The routes as documented (proto/v2/api.yaml).
var vRoutes = []struct{ method, path, rpc string }{
	{"POST", "/v2/tickets", "CreateTicket"},
	{"DELETE", "/v2/tickets:deactivate", "DeactivateTickets"},
	{"POST", "/v2/tickets:activate", "ActivateTickets"},
	{"POST", "/v2/matches:fetch", "InvokeMatchmakingFunctions"},
	{"POST", "/v2/assignments:create", "CreateAssignments"},
	{"POST", "/v2/assignments:watch", "WatchAssignments"},
}

func vText(name string) string { return vsym.String(name, vsym.Param("len", 3)) }

func vIds() []string {
	var ids []string
	for i := 0; i < vsym.Choose("ids", vsym.Param("maxIds", 2)+1); i++ {
		ids = append(ids, vText(vN("id", i)))
	}
	return ids
}

// vRequest is any request of an RPC.
func vRequest(rpc string) proto.Message {
	switch rpc {
	case "CreateTicket":
		r := &pb.CreateTicketRequest{}
		if vsym.Choose("ticket", 2) == 1 {
			r.Ticket = &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{vText("key"): vText("value")}, Tags: []string{vText("tag")}}}
		}
		return r
	case "DeactivateTickets":
		return &pb.DeactivateTicketsRequest{TicketIds: vIds()}
	case "ActivateTickets":
		return &pb.ActivateTicketsRequest{TicketIds: vIds()}
	case "WatchAssignments":
		return &pb.WatchAssignmentsRequest{TicketIds: vIds()}
	case "CreateAssignments":
		r := &pb.CreateAssignmentsRequest{}
		if vsym.Choose("roster", 2) == 1 {
			r.AssignmentRoster = &pb.Roster{Name: vText("name"), Assignment: &pb.Assignment{Connection: vText("connection")}}
			for _, id := range vIds() {
				r.AssignmentRoster.Tickets = append(r.AssignmentRoster.Tickets, &pb.Ticket{Id: id})
			}
		}
		return r
	}
	r := &pb.MmfRequest{}
	if vsym.Choose("profile", 2) == 1 {
		r.Profile = &pb.Profile{Name: vText("name"), Pools: map[string]*pb.Pool{"p": {Name: vText("pool")}}}
	}
	for i := 0; i < vsym.Choose("functions", 3); i++ {
		r.Mmfs = append(r.Mmfs, &pb.MatchmakingFunctionSpec{Name: vText(vN("function", i)), Port: int32(vsym.Int(vN("port", i), 0, 65535)), Type: pb.MatchmakingFunctionSpec_GRPC})
	}
	return r
}

func vEmpty(rpc string) proto.Message {
	switch rpc {
	case "CreateTicket":
		return &pb.CreateTicketRequest{}
	case "DeactivateTickets":
		return &pb.DeactivateTicketsRequest{}
	case "ActivateTickets":
		return &pb.ActivateTicketsRequest{}
	case "WatchAssignments":
		return &pb.WatchAssignmentsRequest{}
	case "CreateAssignments":
		return &pb.CreateAssignmentsRequest{}
	}
	return &pb.MmfRequest{}
}

// vFailure is any error of an RPC.
func vFailure(name string) error {
	c := vsym.Int(name+" code", 1, 16)
	return status.Error(codes.Code(c), vText(name+" message"))
}

func vGateway(c *vClient) *runtime.ServeMux {
	mux := runtime.NewServeMux()
	vsym.Assert(RegisterOpenMatchServiceHandlerClient(context.Background(), mux, c) == nil, "the gateway does not start")
	return mux
}

// VerifC33: a request of each RPC through the gateway.
func VerifC33() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vCtx = ctx
	gone := vsym.Choose("client goes away", 2) == 1
	c := &vClient{during: func() {
		if gone {
			cancel()
		}
	}}
	mux := vGateway(c)
	rt := vRoutes[vsym.Choose("rpc", len(vRoutes))]
	var body []byte
	var want proto.Message
	bad := false
	switch vsym.Choose("body", 3) {
	case 0:
		want = vRequest(rt.rpc)
		body = vEncode(want)
	case 1:
		want = vEmpty(rt.rpc)
	case 2:
		body = []byte("{\"ticketIds\": [")
		bad = true
	}
	streams := rt.rpc == "InvokeMatchmakingFunctions" || rt.rpc == "WatchAssignments"
	end := "EOF"
	if vsym.Choose("fails", 2) == 1 {
		c.err = vFailure("error")
	} else if streams {
		for i := 0; i < vsym.Choose("messages", vsym.Param("maxMessages", 2)+1); i++ {
			if rt.rpc == "WatchAssignments" {
				c.stream = append(c.stream, &pb.StreamedWatchAssignmentsResponse{Id: vText(vN("ticket", i)), Assignment: &pb.Assignment{Connection: vText(vN("connection", i))}})
			} else {
				c.stream = append(c.stream, &pb.StreamedMmfResponse{Match: &pb.Match{Id: vText(vN("match", i))}})
			}
		}
		c.end = io.EOF
		if vsym.Choose("stream fails", 2) == 1 {
			c.end = vFailure("end")
			end = "error"
		}
	} else {
		c.answer = &pb.CreateTicketResponse{TicketId: vText("answer")}
	}
	w := vDo(mux, rt.method, rt.path, body)
	isStatus := func(b []byte, field string, err error) {
		s := &spb.Status{}
		vsym.Assert(vDecode(b, field, s), "an error is not answered with a status")
		vsym.Assert(codes.Code(s.GetCode()) == status.Code(err) && s.GetMessage() == status.Convert(err).Message(), "another error than the RPC's is answered")
	}
	if bad {
		vsym.Assert(len(c.rpc) == 0, "an RPC was called although the request does not decode")
		vsym.Assert(w.code == 400, "a request that does not decode is not answered with 400")
		s := &spb.Status{}
		vsym.Assert(vDecode(w.body.Bytes(), "", s) && codes.Code(s.GetCode()) == codes.InvalidArgument, "a request that does not decode is not answered with InvalidArgument")
		vsym.Reach("bad request")
		return
	}
	vsym.Assert(len(c.rpc) == 1 && c.rpc[0] == rt.rpc, "a request does not call the RPC of its path once")
	vsym.Assert(proto.Equal(c.req, want), "the RPC is called with another request")
	vsym.Assert((c.ctx.Err() != nil) || !gone, "the RPC goes on although the client went away")
	if c.err != nil {
		vsym.Assert(w.code == vHTTP[status.Code(c.err)], "an error is answered with another status than its code's")
		isStatus(w.body.Bytes(), "", c.err)
		vsym.Reach("error")
		return
	}
	if !streams {
		var answer, got proto.Message
		switch rt.rpc {
		case "CreateTicket":
			answer, got = c.answer, &pb.CreateTicketResponse{}
		case "DeactivateTickets":
			answer, got = &pb.DeactivateTicketsResponse{}, &pb.DeactivateTicketsResponse{}
		case "ActivateTickets":
			answer, got = &pb.ActivateTicketsResponse{}, &pb.ActivateTicketsResponse{}
		case "CreateAssignments":
			answer, got = &pb.CreateAssignmentsResponse{}, &pb.CreateAssignmentsResponse{}
		}
		vsym.Assert(w.code == 200, "success is not answered with 200")
		vsym.Assert(vDecode(w.body.Bytes(), "", got) && proto.Equal(got, answer), "another answer than the RPC's is sent")
		vsym.Reach("answered")
		return
	}
	// one line per message, and one for the error
	lines := vLines(w.body.Bytes())
	n := len(c.stream)
	if end == "error" {
		n++
	}
	vsym.Assert(len(lines) == n, "not one line per message of the stream")
	for i, m := range c.stream {
		var got proto.Message = &pb.StreamedMmfResponse{}
		if rt.rpc == "WatchAssignments" {
			got = &pb.StreamedWatchAssignmentsResponse{}
		}
		vsym.Assert(vDecode(lines[i], "result", got) && proto.Equal(got, m), "another message than the stream's is sent")
	}
	if len(c.stream) > 0 || end == "EOF" {
		vsym.Assert(w.code == 200 || w.code == 0, "a stream is not answered with 200")
	} else {
		vsym.Assert(w.code == vHTTP[status.Code(c.end)], "an error is answered with another status than its code's")
	}
	if end == "error" {
		isStatus(lines[n-1], "error", c.end)
		vsym.Reach("stream failed")
	}
	vsym.Reach("stream ended")
}

func vLines(b []byte) [][]byte {
	var ls [][]byte
	from := 0
	for i, x := range b {
		if x == '\n' {
			ls = append(ls, b[from:i])
			from = i + 1
		}
	}
	if from < len(b) {
		ls = append(ls, b[from:])
	}
	return ls
}

// VerifC33Other: requests that are not documented call nothing.
func VerifC33Other() {
	vCtx = context.Background()
	c := &vClient{during: func() {}}
	mux := vGateway(c)
	method := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}[vsym.Choose("method", 6)]
	path := []string{"/", "/v2", "/v2/tickets", "/v2/tickets/", "/v2/tickets:", "/v2/tickets:deactivate", "/v2/tickets:activate", "/v2/tickets:delete", "/v1/tickets", "/v2/matches", "/v2/matches:fetch", "/v2/assignments",
		"/v2/assignments:create", "/v2/assignments:watch", "/v2/assignments:fetch", "/v2/tickets/1:activate", "v2/tickets"}[vsym.Choose("path", 17)]
	for _, rt := range vRoutes {
		if rt.method == method && rt.path == path {
			vsym.Stop()
		}
	}
	w := vDo(mux, method, path, nil)
	vsym.Assert(len(c.rpc) == 0, "an undocumented request calls an RPC")
	vsym.Assert(w.code >= 400, "an undocumented request is not refused")
	vsym.Reach("refused")
}
