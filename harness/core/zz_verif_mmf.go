package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"verif/vsym"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// vMmf is one matchmaking function: what it answers and what it was sent.
type vMmf struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	host    string
	port    int32
	refuse  bool // the call cannot be made
	results []*pb.StreamedMmfResponse
	delay   time.Duration // before every result
	fails   bool          // the stream ends with an error
	calls   int
	done    bool // the function could do all of its work
	got     []*pb.ChunkedMmfRunRequest
	onMsg   func() // after every message received
}

var vMmfs []*vMmf

// vLoop makes streams to om-core itself, if it is served.
var vLoop func(target string, ctx context.Context, method string) (grpc.ClientStream, error)

// vStartMmfs makes the functions reachable and returns their specs.
func vStartMmfs(fs ...*vMmf) []*pb.MatchmakingFunctionSpec {
	vMmfs = fs
	var specs []*pb.MatchmakingFunctionSpec
	for i, f := range fs {
		if vsym.Native() {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", f.port))
			if err != nil {
				panic(err)
			}
			f.host, f.port = "127.0.0.1", int32(l.Addr().(*net.TCPAddr).Port)
			if f.refuse {
				l.Close()
			} else {
				s := grpc.NewServer()
				pb.RegisterMatchMakingFunctionServiceServer(s, f)
				go s.Serve(l)
			}
		} else {
			f.host = vN("mmf", i)
			if f.port == 0 {
				f.port = int32(50500 + i)
			}
		}
		specs = append(specs, &pb.MatchmakingFunctionSpec{Name: vN("f", i), Host: f.host, Port: f.port, Type: pb.MatchmakingFunctionSpec_GRPC})
	}
	return specs
}

// Run is the function as a server, for replays on the compiled code.
func (f *vMmf) Run(stream pb.MatchMakingFunctionService_RunServer) error {
	f.calls++
	for n := 1; ; n++ {
		c, err := stream.Recv()
		if err != nil {
			return err
		}
		f.got = append(f.got, c)
		if f.onMsg != nil {
			f.onMsg()
		}
		if int(c.GetNumChunks()) <= n {
			break
		}
	}
	for _, r := range f.results {
		select {
		case <-time.After(f.delay):
		case <-stream.Context().Done():
			return stream.Context().Err()
		}
		if err := stream.Send(r); err != nil {
			return err
		}
	}
	f.done = true
	if f.fails {
		return status.Error(codes.Unknown, "function failed")
	}
	return nil
}

// The transport as om-core's client sees it.

var vClosed = map[*grpc.ClientConn]bool{}

func VM_grpc_ClientConn_Close(cc *grpc.ClientConn) error {
	vClosed[cc] = true
	return nil
}

func VM_grpc_ClientConn_NewStream(cc *grpc.ClientConn, ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	target := vsym.ConnTarget(cc)
	if vLoop != nil && strings.HasPrefix(method, "/open_match.v2.OpenMatchService/") {
		return vLoop(target, ctx, method)
	}
	if i := strings.LastIndex(target, "/"); i >= 0 {
		target = target[i+1:]
	}
	for _, f := range vMmfs {
		if target == fmt.Sprintf("%s:%d", f.host, f.port) {
			if ctx.Err() != nil {
				return nil, status.Error(codes.DeadlineExceeded, "context done")
			}
			if vClosed[cc] {
				return nil, status.Error(codes.Canceled, "connection closing")
			}
			if f.refuse {
				return nil, status.Error(codes.Unavailable, "connection refused")
			}
			f.calls++
			return &vClient{f: f, ctx: ctx, cc: cc}, nil
		}
	}
	return nil, status.Error(codes.Unavailable, "no such host")
}

type vClient struct {
	f   *vMmf
	ctx context.Context
	cc  *grpc.ClientConn
	i   int
}

func (c *vClient) Header() (metadata.MD, error) { return nil, nil }
func (c *vClient) Trailer() metadata.MD         { return nil }
func (c *vClient) CloseSend() error             { return nil }
func (c *vClient) Context() context.Context     { return c.ctx }
func (c *vClient) SendMsg(m any) error {
	if c.ctx.Err() != nil || vClosed[c.cc] {
		return io.EOF
	}
	c.f.got = append(c.f.got, proto.Clone(m.(*pb.ChunkedMmfRunRequest)).(*pb.ChunkedMmfRunRequest))
	if c.f.onMsg != nil {
		c.f.onMsg()
	}
	return nil
}
func (c *vClient) RecvMsg(m any) error {
	if c.f.delay > 0 && c.i < len(c.f.results) {
		select {
		case <-time.After(c.f.delay):
		case <-c.ctx.Done():
		}
	}
	if c.ctx.Err() != nil {
		return status.Error(codes.DeadlineExceeded, "context done")
	}
	if vClosed[c.cc] {
		return status.Error(codes.Canceled, "connection closing")
	}
	if c.i < len(c.f.results) {
		m.(*pb.StreamedMmfResponse).Match = proto.Clone(c.f.results[c.i]).(*pb.StreamedMmfResponse).GetMatch()
		c.i++
		return nil
	}
	c.f.done = true
	if c.f.fails {
		return status.Error(codes.Unknown, "function failed")
	}
	return io.EOF
}

// vCaller is the stream back to the matchmaker.
type vCaller struct {
	sent   []*pb.Match
	busy   int
	over   bool
	onSend func(*pb.Match)
	ctx    context.Context // Background if nil
}

func (s *vCaller) Send(r *pb.StreamedMmfResponse) error {
	vsym.Assert(!s.over, "a match was sent to the caller after the invocation returned")
	s.busy++
	vsym.Assert(s.busy == 1, "concurrent sends on the caller's stream")
	if s.onSend != nil {
		s.onSend(r.GetMatch())
	}
	vsym.Yield()
	vsym.Assert(!s.over, "the invocation returned while a match was still being sent")
	s.sent = append(s.sent, proto.Clone(r).(*pb.StreamedMmfResponse).GetMatch())
	s.busy--
	if s.ctx != nil && s.ctx.Err() != nil {
		return status.FromContextError(s.ctx.Err()).Err()
	}
	return nil
}
func (s *vCaller) SetHeader(metadata.MD) error  { return nil }
func (s *vCaller) SendHeader(metadata.MD) error { return nil }
func (s *vCaller) SetTrailer(metadata.MD)       {}
func (s *vCaller) Context() context.Context {
	if s.ctx != nil {
		return s.ctx
	}
	return context.Background()
}
func (s *vCaller) SendMsg(any) error { return nil }
func (s *vCaller) RecvMsg(any) error { return nil }

// vInvoke calls the RPC and marks its end.
func vInvoke(req *pb.MmfRequest, s *vCaller) error {
	err := (&grpcServer{}).InvokeMatchmakingFunctions(req, s)
	s.over = true
	return err
}

// vChunks is what a function server would have put together: pools of the
// messages sent to f, and whether the announced number of messages was right.
func vChunks(f *vMmf) map[string][]*pb.Ticket {
	out := map[string][]*pb.Ticket{}
	for _, c := range f.got {
		vsym.Assert(int(c.GetNumChunks()) == len(f.got), "a message announces a wrong number of messages")
		for name, p := range c.GetProfile().GetPools() {
			out[name] = append(out[name], p.GetParticipants().GetTickets()...)
		}
	}
	return out
}
