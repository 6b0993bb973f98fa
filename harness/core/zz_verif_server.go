package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"verif/vsym"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// What start() sets up: in the interpreter these stand-ins note it and carry
// calls between client, server and gateway; the compiled code uses the real
// ones.

var vSrv struct {
	port    string // listening
	serving bool
	desc    *grpc.ServiceDesc
	impl    any
	stats   []stats.Handler
	unary   []grpc.UnaryServerInterceptor
	stream  []grpc.StreamServerInterceptor
	http    map[string]http.Handler
}

type vListener struct{ net.Listener }

func (vListener) Close() error { return nil }

func VM_net_Listen(network, addr string) (net.Listener, error) {
	vsym.Assert(network == "tcp", "not listening on TCP")
	vSrv.port = addr[strings.LastIndex(addr, ":"):]
	return vListener{}, nil
}
func VM_grpc_StatsHandler(h stats.Handler) grpc.ServerOption {
	vSrv.stats = append(vSrv.stats, h)
	return grpc.EmptyServerOption{}
}
func VM_grpc_UnaryInterceptor(i grpc.UnaryServerInterceptor) grpc.ServerOption {
	vSrv.unary = append(vSrv.unary, i)
	return grpc.EmptyServerOption{}
}
func VM_grpc_ChainUnaryInterceptor(is ...grpc.UnaryServerInterceptor) grpc.ServerOption {
	vSrv.unary = append(vSrv.unary, is...)
	return grpc.EmptyServerOption{}
}
func VM_grpc_StreamInterceptor(i grpc.StreamServerInterceptor) grpc.ServerOption {
	vSrv.stream = append(vSrv.stream, i)
	return grpc.EmptyServerOption{}
}
func VM_grpc_ChainStreamInterceptor(is ...grpc.StreamServerInterceptor) grpc.ServerOption {
	vSrv.stream = append(vSrv.stream, is...)
	return grpc.EmptyServerOption{}
}
func VM_grpc_NewServer(opts ...grpc.ServerOption) *grpc.Server { return new(grpc.Server) }
func VM_grpc_Server_RegisterService(s *grpc.Server, d *grpc.ServiceDesc, impl any) {
	vSrv.desc, vSrv.impl = d, impl
}
func VM_grpc_Server_Serve(s *grpc.Server, l net.Listener) error {
	vSrv.serving = true
	<-make(chan int)
	return nil
}
func vHandle(addr string, h http.Handler) {
	if vSrv.http == nil {
		vSrv.http = map[string]http.Handler{}
	}
	vSrv.http[addr[strings.LastIndex(addr, ":"):]] = h
	<-make(chan int)
}
func VM_http_ListenAndServe(addr string, h http.Handler) error {
	vHandle(addr, h)
	return nil
}
func VM_http_Server_ListenAndServe(s *http.Server) error {
	vHandle(s.Addr, s.Handler)
	return nil
}
func VM_http_HandlerFunc_ServeHTTP(f http.HandlerFunc, w http.ResponseWriter, r *http.Request) {
	f(w, r)
}

// vEnded is what the server makes of the error of a handler.
func vEnded(ctx context.Context, err error) error {
	for _, h := range vSrv.stats {
		h.HandleRPC(ctx, &stats.End{BeginTime: time.Unix(1700000000, 0), EndTime: time.Unix(1700000001, 0), Error: err})
	}
	if err == nil {
		return nil
	}
	if _, ok := status.FromError(err); !ok {
		return status.FromContextError(err).Err()
	}
	return err
}

func vReachable(target string) error {
	if i := strings.LastIndex(target, "/"); i >= 0 {
		target = target[i+1:]
	}
	if !vSrv.serving || target != "localhost"+vSrv.port && target != "127.0.0.1"+vSrv.port && target != vSrv.port {
		return status.Error(codes.Unavailable, "connection refused")
	}
	return nil
}

func vBegin(ctx context.Context, method string) context.Context {
	md, _ := metadata.FromOutgoingContext(ctx)
	ctx = metadata.NewIncomingContext(metadata.NewOutgoingContext(ctx, metadata.MD{}), md)
	for _, h := range vSrv.stats {
		ctx = h.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: method})
		h.HandleRPC(ctx, &stats.Begin{BeginTime: time.Unix(1700000000, 0)})
	}
	return ctx
}

func VM_grpc_ClientConn_Invoke(cc *grpc.ClientConn, ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	if err := vReachable(vsym.ConnTarget(cc)); err != nil {
		return err
	}
	return vServeUnary(ctx, method, args, reply)
}

func vServeUnary(ctx context.Context, method string, args, reply any) error {
	for _, m := range vSrv.desc.Methods {
		if "/"+vSrv.desc.ServiceName+"/"+m.MethodName != method {
			continue
		}
		var inter grpc.UnaryServerInterceptor
		if len(vSrv.unary) > 0 {
			inter = func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
				for i := len(vSrv.unary) - 1; i >= 0; i-- {
					next, f := h, vSrv.unary[i]
					h = func(ctx context.Context, req any) (any, error) { return f(ctx, req, info, next) }
				}
				return h(ctx, req)
			}
		}
		sctx := vBegin(ctx, method)
		out, err := m.Handler(vSrv.impl, sctx, func(to any) error {
			if !vAssign(to.(proto.Message), proto.Clone(args.(proto.Message))) {
				return status.Error(codes.Internal, "another message")
			}
			return nil
		}, inter)
		if err := vEnded(sctx, err); err != nil {
			return err
		}
		vAssign(reply.(proto.Message), proto.Clone(out.(proto.Message)))
		return nil
	}
	return status.Error(codes.Unimplemented, "unknown method")
}

// vPipe is both ends of a stream.
type vPipe struct {
	ctx, sctx context.Context
	req       chan proto.Message
	c         chan proto.Message
	err       error
}

func (p *vPipe) Header() (metadata.MD, error) { return nil, nil }
func (p *vPipe) Trailer() metadata.MD         { return nil }
func (p *vPipe) CloseSend() error             { return nil }
func (p *vPipe) Context() context.Context     { return p.ctx }
func (p *vPipe) SendMsg(m any) error {
	p.req <- proto.Clone(m.(proto.Message))
	return nil
}
func (p *vPipe) RecvMsg(m any) error {
	x, ok := <-p.c
	if !ok {
		if p.err != nil {
			return p.err
		}
		return io.EOF
	}
	vAssign(m.(proto.Message), x)
	return nil
}

type vPipeServer struct{ *vPipe }

func (p vPipeServer) Context() context.Context     { return p.sctx }
func (p vPipeServer) SetHeader(metadata.MD) error  { return nil }
func (p vPipeServer) SendHeader(metadata.MD) error { return nil }
func (p vPipeServer) SetTrailer(metadata.MD)       {}
func (p vPipeServer) SendMsg(m any) error {
	p.c <- proto.Clone(m.(proto.Message))
	return nil
}
func (p vPipeServer) RecvMsg(m any) error {
	if !vAssign(m.(proto.Message), <-p.req) {
		return status.Error(codes.Internal, "another message")
	}
	return nil
}

func vServeStream(target string, ctx context.Context, method string) (grpc.ClientStream, error) {
	if err := vReachable(target); err != nil {
		return nil, err
	}
	for _, d := range vSrv.desc.Streams {
		if "/"+vSrv.desc.ServiceName+"/"+d.StreamName != method {
			continue
		}
		d := d
		p := &vPipe{ctx: ctx, sctx: vBegin(ctx, method), req: make(chan proto.Message, 1), c: make(chan proto.Message, 100)}
		h := func(srv any, s grpc.ServerStream) error { return d.Handler(srv, s) }
		for i := len(vSrv.stream) - 1; i >= 0; i-- {
			next, f := h, vSrv.stream[i]
			h = func(srv any, s grpc.ServerStream) error {
				return f(srv, s, &grpc.StreamServerInfo{FullMethod: method, IsServerStream: true}, next)
			}
		}
		go func() {
			p.err = vEnded(p.sctx, h(vSrv.impl, vPipeServer{p}))
			close(p.c)
		}()
		return p, nil
	}
	return nil, status.Error(codes.Unimplemented, "unknown method")
}

// JSON: real on the compiled code, references to messages in the interpreter.

var vMsgs []interface{}

func vRef(v interface{}) []byte {
	vMsgs = append(vMsgs, v)
	return []byte("#" + strconv.Itoa(len(vMsgs)-1))
}
func vDeref(b []byte) interface{} {
	s := strings.TrimSuffix(string(b), "\n")
	if s == "" || s[0] != '#' {
		return nil
	}
	i, err := strconv.Atoi(s[1:])
	vsym.Assert(err == nil, "a body that is not one message")
	return vMsgs[i]
}

func vEncode(m proto.Message) []byte {
	b, err := protojson.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}
func VM_core_vEncode(m proto.Message) []byte { return vRef(m) }

// vDecode reads a message, or a field of it.
func vDecode(b []byte, field string, m proto.Message) bool {
	if field != "" {
		var o map[string]json.RawMessage
		if json.Unmarshal(b, &o) != nil || len(o) != 1 || o[field] == nil {
			return false
		}
		b = o[field]
	}
	return protojson.Unmarshal(b, m) == nil
}
func VM_core_vDecode(b []byte, field string, m proto.Message) bool {
	v := vDeref(b)
	if field != "" {
		switch o := v.(type) {
		case map[string]interface{}:
			v = o[field]
		case map[string]proto.Message:
			v = o[field]
		default:
			return false
		}
	}
	x, ok := v.(proto.Message)
	return ok && vAssign(m, x)
}

func VM_runtime_JSONPb_Marshal(j *runtime.JSONPb, v interface{}) ([]byte, error) { return vRef(v), nil }

type vDecoder struct{ r io.Reader }

func (d *vDecoder) Decode(v interface{}) error {
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	if x, ok := vDeref(b).(proto.Message); ok && vAssign(v.(proto.Message), x) {
		return nil
	}
	return errors.New("no such JSON")
}
func VM_runtime_JSONPb_NewDecoder(j *runtime.JSONPb, r io.Reader) runtime.Decoder { return &vDecoder{r} }

// vAssign makes to what from is.
func vAssign(to, from proto.Message) bool {
	switch t := to.(type) {
	case *pb.CreateTicketRequest:
		f, ok := from.(*pb.CreateTicketRequest)
		if ok {
			t.Ticket = f.Ticket
		}
		return ok
	case *pb.DeactivateTicketsRequest:
		f, ok := from.(*pb.DeactivateTicketsRequest)
		if ok {
			t.TicketIds = f.TicketIds
		}
		return ok
	case *pb.ActivateTicketsRequest:
		f, ok := from.(*pb.ActivateTicketsRequest)
		if ok {
			t.TicketIds = f.TicketIds
		}
		return ok
	case *pb.CreateAssignmentsRequest:
		f, ok := from.(*pb.CreateAssignmentsRequest)
		if ok {
			t.AssignmentRoster = f.AssignmentRoster
		}
		return ok
	case *pb.WatchAssignmentsRequest:
		f, ok := from.(*pb.WatchAssignmentsRequest)
		if ok {
			t.TicketIds = f.TicketIds
		}
		return ok
	case *pb.MmfRequest:
		f, ok := from.(*pb.MmfRequest)
		if ok {
			t.Profile, t.Mmfs = f.Profile, f.Mmfs
		}
		return ok
	case *pb.CreateTicketResponse:
		f, ok := from.(*pb.CreateTicketResponse)
		if ok {
			t.TicketId = f.TicketId
		}
		return ok
	case *pb.DeactivateTicketsResponse:
		_, ok := from.(*pb.DeactivateTicketsResponse)
		return ok
	case *pb.ActivateTicketsResponse:
		_, ok := from.(*pb.ActivateTicketsResponse)
		return ok
	case *pb.CreateAssignmentsResponse:
		_, ok := from.(*pb.CreateAssignmentsResponse)
		return ok
	case *pb.StreamedMmfResponse:
		f, ok := from.(*pb.StreamedMmfResponse)
		if ok {
			t.Match = f.Match
		}
		return ok
	case *pb.StreamedWatchAssignmentsResponse:
		f, ok := from.(*pb.StreamedWatchAssignmentsResponse)
		if ok {
			t.Assignment, t.Id = f.Assignment, f.Id
		}
		return ok
	case *spb.Status:
		f, ok := from.(*spb.Status)
		if ok {
			t.Code, t.Message = f.Code, f.Message
		}
		return ok
	}
	return false
}

// The caller of om-core.

var vHttpCtx context.Context

func VM_http_Request_Context(r *http.Request) context.Context { return vHttpCtx }
func VM_http_Request_WithContext(r *http.Request, ctx context.Context) *http.Request {
	vHttpCtx = ctx
	return r
}

// vWriter keeps the HTTP response.
type vWriter struct {
	h    http.Header
	code int
	body bytes.Buffer
}

func (w *vWriter) Header() http.Header { return w.h }
func (w *vWriter) WriteHeader(code int) {
	if w.code == 0 {
		w.code = code
	}
}
func (w *vWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.body.Write(b)
}
func (w *vWriter) Flush() {}

// vHttp is an HTTP request to the gateway.
func vHttp(method, path string, body []byte) (int, []byte) {
	if vsym.Native() {
		r, err := http.NewRequest(method, "http://127.0.0.1:58081"+path, bytes.NewReader(body))
		if err != nil {
			panic(err)
		}
		r.Header.Set("Content-Type", "application/json")
		resp, err := http.DefaultClient.Do(r)
		vsym.Assert(err == nil, "the gateway does not answer")
		b, _ := io.ReadAll(resp.Body)
		return resp.StatusCode, b
	}
	vHttpCtx = context.Background()
	w := &vWriter{h: http.Header{}}
	h := vSrv.http[":58081"]
	vsym.Assert(h != nil, "the gateway is not served")
	h.ServeHTTP(w, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{"Content-Type": {"application/json"}},
		Host: "localhost:58081", RemoteAddr: "127.0.0.1:50000", Body: io.NopCloser(bytes.NewReader(body))})
	return w.code, w.body.Bytes()
}

// vUp runs f, which serves, and returns a connection when it does.
func vUp(f func(), port string) *grpc.ClientConn {
	vLoop = vServeStream
	go f()
	if vsym.Native() {
		for _, a := range []string{port, "58081"} {
			for i := 0; ; i++ {
				c, err := net.Dial("tcp", "127.0.0.1:"+a)
				if err == nil {
					c.Close()
					break
				}
				vsym.Assert(i < 200, "om-core does not listen")
				time.Sleep(50 * time.Millisecond)
			}
		}
	} else {
		vsym.Settle(100 * time.Millisecond)
		vsym.Assert(vSrv.serving && vSrv.impl != nil, "om-core does not serve")
	}
	cc, err := grpc.Dial("127.0.0.1:"+port, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	return cc
}

// vFreePort is a port nobody listens on.
func vFreePort() string {
	if !vsym.Native() {
		return []string{"50504", "51234"}[vsym.Choose("port", 2)]
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
}
