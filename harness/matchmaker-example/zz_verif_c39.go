package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"verif/vsym"

	"github.com/prometheus/client_golang/prometheus"
	"go.opentelemetry.io/otel/metric"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
)

// What main() counts: its counters in the interpreter, what it exports
// otherwise.

type vMeter struct{ metric.Meter }
type vCounter struct {
	metric.Int64Counter
	n *int64
}

func (c vCounter) Add(_ context.Context, n int64, _ ...metric.AddOption) { *c.n += n }

var vCounters = map[string]*int64{}

func (vMeter) Int64Counter(name string, _ ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	if vCounters[name] == nil {
		vCounters[name] = new(int64)
	}
	return vCounter{n: vCounters[name]}, nil
}
func VM_metric_NewMeterProvider(...sdkmetric.Option) *sdkmetric.MeterProvider {
	return new(sdkmetric.MeterProvider)
}
func VM_metric_MeterProvider_Meter(p *sdkmetric.MeterProvider, name string, _ ...metric.MeterOption) metric.Meter {
	return vMeter{}
}

func vCounted(name string) int64 {
	ms, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	n := 0.0
	for _, m := range ms {
		if strings.Contains(m.GetName(), name) {
			for _, x := range m.GetMetric() {
				n += x.GetCounter().GetValue()
			}
		}
	}
	return int64(n)
}
func VM_matchmaker_sample_vCounted(name string) int64 {
	for k, v := range vCounters {
		if strings.Contains(k, name) {
			return *v
		}
	}
	return 0
}

// Servers: in the interpreter these note what is served where.

type vListener struct {
	net.Listener
	addr string
}

var vServed = map[string]any{}
var vRegistered = map[*grpc.Server]any{}

func VM_net_Listen(network, addr string) (net.Listener, error) {
	return vListener{addr: addr[strings.LastIndex(addr, ":"):]}, nil
}
func VM_grpc_NewServer(opts ...grpc.ServerOption) *grpc.Server { return new(grpc.Server) }
func VM_grpc_Server_RegisterService(s *grpc.Server, d *grpc.ServiceDesc, impl any) {
	vRegistered[s] = impl
}
func VM_grpc_Server_Serve(s *grpc.Server, l net.Listener) error {
	vServed[l.(vListener).addr] = vRegistered[s]
	<-make(chan int)
	return nil
}
func VM_http_ListenAndServe(addr string, h http.Handler) error {
	<-make(chan int)
	return nil
}

// vAsk sends a request to the function that is served at port, and counts the
// matches.
func vAsk(host string, port int32, r *pb.ChunkedMmfRunRequest) (int, error) {
	var f interface {
		Recv() (*pb.StreamedMmfResponse, error)
	}
	if vsym.Native() {
		cc, err := grpc.Dial(fmt.Sprintf("%s:%d", host, port), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			return 0, err
		}
		defer cc.Close()
		s, err := pb.NewMatchMakingFunctionServiceClient(cc).Run(context.Background(), grpc.WaitForReady(true))
		if err != nil {
			return 0, err
		}
		if err := s.Send(r); err != nil {
			return 0, err
		}
		s.CloseSend()
		f = s
	} else {
		impl, ok := vServed[fmt.Sprint(":", port)].(pb.MatchMakingFunctionServiceServer)
		if host != "localhost" || !ok {
			return 0, errors.New("connection refused")
		}
		s := &vRun{req: r}
		if err := impl.Run(s); err != nil {
			return 0, err
		}
		f = &vSent{s.sent}
	}
	for n := 0; ; n++ {
		if _, err := f.Recv(); err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, err
		}
	}
}

type vRun struct {
	pb.MatchMakingFunctionService_RunServer
	req  *pb.ChunkedMmfRunRequest
	sent int
}

func (s *vRun) Context() context.Context { return context.Background() }
func (s *vRun) Send(*pb.StreamedMmfResponse) error {
	s.sent++
	return nil
}
func (s *vRun) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if s.req == nil {
		return nil, io.EOF
	}
	r := s.req
	s.req = nil
	return r, nil
}

type vSent struct{ n int }

func (s *vSent) Recv() (*pb.StreamedMmfResponse, error) {
	if s.n == 0 {
		return nil, io.EOF
	}
	s.n--
	return nil, nil
}

// om-core over gRPC.

type vCoreServer struct {
	pb.UnimplementedOpenMatchServiceServer
	c *vCore
}

var vTheCore *vCore

func (s vCoreServer) ActivateTickets(ctx context.Context, in *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	return s.c.ActivateTickets(ctx, in)
}
func (s vCoreServer) CreateTicket(ctx context.Context, in *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	return s.c.CreateTicket(ctx, in)
}
func (s vCoreServer) InvokeMatchmakingFunctions(in *pb.MmfRequest, out pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	var end error
	s.c.invoke(in, func(m *pb.StreamedMmfResponse, err error) {
		if err != nil {
			end = err
		} else if e := out.Send(m); e != nil {
			end = e
		}
	})
	return end
}

func vCopyIds(in *pb.ActivateTicketsRequest) *pb.ActivateTicketsRequest {
	return &pb.ActivateTicketsRequest{TicketIds: append([]string{}, in.GetTicketIds()...)}
}

func VM_grpc_ClientConn_Invoke(cc *grpc.ClientConn, ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	if vsym.ConnTarget(cc) != "core:1" {
		return status.Error(codes.Unavailable, "connection refused")
	}
	switch in := args.(type) {
	case *pb.ActivateTicketsRequest:
		_, err := vTheCore.ActivateTickets(ctx, vCopyIds(in))
		return err
	case *pb.CreateTicketRequest:
		r, err := vTheCore.CreateTicket(ctx, in)
		if err == nil {
			reply.(*pb.CreateTicketResponse).TicketId = r.TicketId
		}
		return err
	}
	return status.Error(codes.Unimplemented, method)
}

type vStream struct {
	ctx context.Context
	ms  []*pb.StreamedMmfResponse
	err error
}

func (s *vStream) Header() (metadata.MD, error) { return nil, nil }
func (s *vStream) Trailer() metadata.MD         { return nil }
func (s *vStream) CloseSend() error             { return nil }
func (s *vStream) Context() context.Context     { return s.ctx }
func (s *vStream) SendMsg(m any) error {
	vTheCore.invoke(m.(*pb.MmfRequest), func(m *pb.StreamedMmfResponse, err error) {
		if err != nil {
			s.err = err
		} else {
			s.ms = append(s.ms, m)
		}
	})
	return nil
}
func (s *vStream) RecvMsg(m any) error {
	if len(s.ms) > 0 {
		m.(*pb.StreamedMmfResponse).Match = s.ms[0].GetMatch()
		s.ms = s.ms[1:]
		return nil
	}
	if s.err != nil {
		return s.err
	}
	return io.EOF
}

func VM_grpc_ClientConn_NewStream(cc *grpc.ClientConn, ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	if vsym.ConnTarget(cc) != "core:1" || !strings.HasSuffix(method, "/InvokeMatchmakingFunctions") {
		return nil, status.Error(codes.Unavailable, "connection refused")
	}
	return &vStream{ctx: ctx}, nil
}

// vMatchmaker runs main() with an om-core.
func vMatchmaker(c *vCore, conn int, rands []int) {
	vTheCore = c
	flag.Set("conn", []string{"grpc", "http"}[conn])
	addr := "core:1"
	if vsym.Native() {
		http.DefaultTransport = c
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s := grpc.NewServer()
		pb.RegisterOpenMatchServiceServer(s, vCoreServer{c: c})
		go s.Serve(l)
		addr = l.Addr().String()
		vSeed(rands)
	} else {
		http.DefaultTransport = c
		vRand = func(n int) int {
			if n != 100 || len(rands) == 0 {
				return vsym.Int("rand", 0, n-1)
			}
			r := rands[0]
			rands = rands[1:]
			return r
		}
	}
	flag.Set("omhost", addr)
	os.Args = []string{"matchmaker"}
	main()
}

// vSeed makes the random numbers between 0 and 99 those given, or at least
// as small or large.
func vSeed(want []int) {
	os.Setenv("GODEBUG", "randseednop=0")
	for s := int64(1); s < 3e6; s++ {
		r := rand.New(rand.NewSource(s))
		ok := true
		for _, w := range want {
			if (r.Intn(100) <= 1) != (w <= 1) {
				ok = false
				break
			}
		}
		if ok {
			rand.Seed(s)
			return
		}
	}
}

// VerifC39: the example matchmaker over a few cycles of a few matches each.
func VerifC39() {
	vsym.Sched("delay", 0)
	conn := vsym.Choose("conn", 2)
	cycles := 1 + vsym.Choose("cycles", vsym.Param("maxCycles", 2))
	var rands []int
	var plan [][]int
	var fails []bool
	for i := 0; i < cycles; i++ {
		var shapes []int
		for j, n := 0, vsym.Choose(vN("matches", i), vsym.Param("maxMatches", 2)+1); j < n; j++ {
			shapes = append(shapes, 1+vsym.Choose(vN(vN("shape", i), j), 3))
			rands = append(rands, vsym.Int(vN(vN("rand", i), j), 0, 99))
		}
		plan = append(plan, shapes)
		fails = append(fails, vsym.Choose(vN("fails", i), 2) == 1 && len(shapes) > 0)
	}
	vCycles(conn, plan, fails, rands)
}

// VerifC39Empty: cycles without matches.
func VerifC39Empty() {
	vsym.Sched("delay", 0)
	conn := vsym.Choose("conn", 2)
	cycles := 1 + vsym.Choose("cycles", vsym.Param("maxCycles", 6))
	ignore := vsym.Choose("ignore", 2) == 1
	flag.Set("ignoreempty", fmt.Sprint(ignore))
	full := vsym.Choose("not empty", cycles+1) // none, or one of them
	plan := make([][]int, cycles)
	var rands []int
	if full < cycles {
		plan[full] = []int{1}
		rands = append(rands, 7)
	}
	got := vCycles(conn, plan, make([]bool, cycles), rands)
	if ignore {
		vsym.Assert(got == cycles, "stopped early though empty cycles are to be ignored")
	}
	empty := 0
	for i := 0; i < got; i++ {
		vsym.Assert(empty < 4, "goes on after several empty cycles in a row")
		empty++
		if i == full || ignore {
			empty = 0
		}
	}
	vsym.Assert(got == cycles || empty >= 3, "stopped early without three empty cycles in a row")
	vsym.Reach("empty cycles")
}

// VerifC39Big: rejected matches with many tickets.
func VerifC39Big() {
	vsym.Sched("delay", 0)
	conn := vsym.Choose("conn", 2)
	plan := [][]int{{499}, {300, 201}, {500, 501}, {10001}, {5000, 5002}}[vsym.Choose("tickets", 5)]
	rands := make([]int, len(plan))
	for i := range rands {
		rands[i] = 0
	}
	vCycles(conn, [][]int{plan, {1}}, make([]bool, 2), append(rands, 50))
	vsym.Reach("many tickets")
}

// vCycles runs main() for the cycles, which get the matches planned, each of
// so many tickets, and returns the number of cycles there were.
func vCycles(conn int, plan [][]int, fails []bool, rands []int) int {
	flag.Set("cycles", fmt.Sprint(len(plan)))
	flag.Set("sim", "false") // no simulated players
	core := &vCore{}
	at, called := 0, 0
	rejected, accepted := int64(0), int64(0)
	var groups [][]string
	end := func() {
		if at == 0 {
			return
		}
		vsym.Assert(core.ended == core.started, "a cycle was over before a call it started was complete")
		n := map[string]int{}
		for ; called < len(core.calls); called++ {
			c := core.calls[called]
			vsym.Assert(len(c) > 0 && len(c) <= 500, "an empty call, or more ids in a call than the core's default maximum")
			for _, id := range c {
				n[id]++
			}
		}
		back := int64(0)
		for _, g := range groups {
			first := n[g[0]]
			vsym.Assert(first < 2, "a ticket of a rejected match was activated more than once")
			for _, id := range g {
				vsym.Assert(n[id] == first, "some tickets of a match were activated, others not")
				delete(n, id)
			}
			back += int64(first)
		}
		vsym.Assert(len(n) == 0, "a ticket was activated that is in no match of the cycle")
		r, a := vCounted("matches_rejected")-rejected, vCounted("matches_accepted")-accepted
		rejected, accepted = rejected+r, accepted+a
		vsym.Assert(r+a == int64(len(groups)), "not every match was either accepted or rejected")
		vsym.Assert(back == r, "the matches whose tickets were activated are not those that were rejected")
		if r > 0 {
			vsym.Reach("rejected")
		}
	}
	core.invoke = func(r *pb.MmfRequest, send func(*pb.StreamedMmfResponse, error)) {
		end()
		vsym.Assert(at < len(plan), "more cycles than configured")
		vsym.Assert(len(r.GetMmfs()) > 0 && len(r.GetProfile().GetPools()) > 0, "a request without functions or pools")
		if at == 0 {
			vFunctions(r)
		}
		groups = nil
		for j, n := range plan[at] {
			var ids []string
			ts := []*pb.Ticket{}
			for k := 0; k < n; k++ {
				id := fmt.Sprint("t", at, "-", j, "-", k)
				ids = append(ids, id)
				ts = append(ts, &pb.Ticket{Id: id})
			}
			rosters := map[string]*pb.Roster{"a": {Tickets: ts}}
			if n > 1 {
				rosters = map[string]*pb.Roster{"a": {Tickets: ts[:1]}, "b": {Tickets: ts[1:]}, "c": {}}
			}
			groups = append(groups, ids)
			send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: fmt.Sprint("match ", j), Rosters: rosters}}, nil)
		}
		if fails[at] {
			send(nil, status.Error(codes.Unknown, "a function failed"))
			vsym.Reach("failed")
		}
		at++
	}
	vMatchmaker(core, conn, rands)
	end()
	vsym.Reach("over")
	return at
}

// vFunctions: the functions of a request are the samples, where they are
// served.
func vFunctions(r *pb.MmfRequest) {
	time.Sleep(300 * time.Millisecond)
	pool := func(name string, n int) *pb.Pool {
		p := &pb.Pool{Name: name, Participants: &pb.Roster{Name: name}}
		for i := 0; i < n; i++ {
			p.Participants.Tickets = append(p.Participants.Tickets, &pb.Ticket{Id: fmt.Sprint(name, i)})
		}
		return p
	}
	req := &pb.ChunkedMmfRunRequest{NumChunks: 1, Profile: &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"tank": pool("tank", 2), "healer": pool("healer", 2), "dps": pool("dps", 6)}}}
	names := map[string]bool{}
	for _, f := range r.GetMmfs() {
		n, err := vAsk(f.GetHost(), f.GetPort(), req)
		vsym.Assert(err == nil, "a function is not served where the request says")
		want := map[string]int{"soloduel": 5, "battleroyale": 0, "teamshooter": 1}
		w, known := want[f.GetName()]
		vsym.Assert(known && n == w, "another function is served")
		vsym.Assert(!names[f.GetName()], "a function is called twice")
		names[f.GetName()] = true
	}
	vsym.Assert(len(names) == 3, "a function is not called")
}

// VerifC39Players: main() with simulated players. Their tickets are activated
// once, and each is in a pool of the request for matches.
func VerifC39Players() {
	vsym.Sched("delay", 0)
	conn := vsym.Choose("conn", 2)
	secs, rate := 1+vsym.Choose("seconds", 2), vsym.Choose("rate", vsym.Param("maxRate", 2)+1)
	flag.Set("cycles", "4")
	flag.Set("ignoreempty", "true")
	flag.Set("dur", fmt.Sprint(secs))
	flag.Set("tix", fmt.Sprint(rate))
	core := &vCore{}
	made, atOnce := 0, 0
	var first time.Time
	var pools map[string]*pb.Pool
	var tickets []*pb.Ticket
	core.create = func(t *pb.Ticket) (string, error) {
		if made == 0 {
			first = time.Now()
		}
		if time.Since(first) < 600*time.Millisecond {
			atOnce++
		}
		made++
		tickets = append(tickets, t)
		return fmt.Sprint("id", made), nil
	}
	core.invoke = func(r *pb.MmfRequest, send func(*pb.StreamedMmfResponse, error)) {
		pools = r.GetProfile().GetPools()
	}
	vMatchmaker(core, conn, nil)
	vsym.Assert(atOnce == rate, "not the configured number of tickets was created in the first second")
	vsym.Assert(made == secs*rate, "not the configured number of tickets was created")
	n := map[string]int{}
	for _, c := range core.calls {
		for _, id := range c {
			n[id]++
		}
	}
	for i, t := range tickets {
		vsym.Assert(n[fmt.Sprint("id", i+1)] == 1, "a created ticket was not activated exactly once")
		in := 0
		for _, p := range pools {
			ok := true
			for _, f := range p.GetStringEqualsFilters() {
				if t.GetAttributes().GetStringArgs()[f.GetStringArg()] != f.GetValue() {
					ok = false
				}
			}
			if ok {
				in++
			}
		}
		vsym.Assert(in == 1, "a ticket of a simulated player is not in exactly one pool")
		vsym.Reach("player")
	}
	vsym.Assert(len(n) == made, "something was activated that was not created")
	vsym.Reach("over")
}
