package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"time"

	"verif/vsym"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
)

// In the interpreter these note what is served where.

type vListener struct {
	net.Listener
	addr string
}

var vServed = map[string]any{}
var vRegistered = map[*grpc.Server]any{}

func VM_net_Listen(network, addr string) (net.Listener, error) {
	vsym.Assert(network == "tcp", "not listening on TCP")
	return vListener{addr: addr}, nil
}
func VM_grpc_NewServer(opts ...grpc.ServerOption) *grpc.Server { return new(grpc.Server) }
func VM_grpc_Server_RegisterService(s *grpc.Server, d *grpc.ServiceDesc, impl any) {
	vsym.Assert(strings.HasSuffix(d.ServiceName, ".MatchMakingFunctionService"), "another service")
	vRegistered[s] = impl
}
func VM_grpc_Server_Serve(s *grpc.Server, l net.Listener) error {
	vServed[l.(vListener).addr] = vRegistered[s]
	<-make(chan int)
	return nil
}

type vRun struct {
	pb.MatchMakingFunctionService_RunServer
	reqs []*pb.ChunkedMmfRunRequest
	sent []*pb.StreamedMmfResponse
}

func (s *vRun) Context() context.Context { return context.Background() }
func (s *vRun) Send(m *pb.StreamedMmfResponse) error {
	s.sent = append(s.sent, m)
	return nil
}
func (s *vRun) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if len(s.reqs) == 0 {
		return nil, io.EOF
	}
	r := s.reqs[0]
	s.reqs = s.reqs[1:]
	return r, nil
}

// vAsk sends a request to the function served at port.
func vAsk(port string, reqs []*pb.ChunkedMmfRunRequest) ([]*pb.StreamedMmfResponse, error) {
	if !vsym.Native() {
		impl, ok := vServed[":"+port].(pb.MatchMakingFunctionServiceServer)
		if !ok {
			return nil, errors.New("connection refused")
		}
		s := &vRun{reqs: reqs}
		err := impl.Run(s)
		return s.sent, err
	}
	cc, err := grpc.Dial("localhost:"+port, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return nil, err
	}
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s, err := pb.NewMatchMakingFunctionServiceClient(cc).Run(ctx)
	if err != nil {
		return nil, err
	}
	for _, r := range reqs {
		if err := s.Send(r); err != nil {
			return nil, err
		}
	}
	s.CloseSend()
	var out []*pb.StreamedMmfResponse
	for {
		m, err := s.Recv()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, m)
	}
}

// VerifC27Main: the sample server, asked for matches of the tickets of up to
// three messages.
func VerifC27Main() {
	port := "8081"
	switch vsym.Choose("PORT", 6) {
	case 0:
		os.Unsetenv("PORT")
	case 1:
		os.Setenv("PORT", "")
	case 2:
		os.Setenv("PORT", "http")
	case 3:
		os.Setenv("PORT", "8081")
	case 4:
		port = "18083"
		os.Setenv("PORT", port)
	case 5:
		port = "50999"
		os.Setenv("PORT", port)
	}
	go main()
	if vsym.Native() {
		time.Sleep(time.Second)
	} else {
		vsym.Settle(time.Second)
	}
	for round := 0; round < 2; round++ {
		chunks := 1 + vsym.Choose(fmt.Sprint("messages", round), 3)
		var reqs []*pb.ChunkedMmfRunRequest
		given := map[string]bool{}
		for i := 0; i < chunks; i++ {
			p := &pb.Pool{Name: "p", Participants: &pb.Roster{Name: "p"}}
			for j, n := 0, vsym.Choose(fmt.Sprint("tickets", round, i), 3); j < n; j++ {
				id := fmt.Sprint(i, "-", j)
				given[id] = true
				p.Participants.Tickets = append(p.Participants.Tickets, &pb.Ticket{Id: id})
			}
			reqs = append(reqs, &pb.ChunkedMmfRunRequest{NumChunks: int32(chunks), Profile: &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"p": p}}})
		}
		n := len(given)
		out, err := vAsk(port, reqs)
		vsym.Assert(err == nil, "the function is not served on the port it should be, or fails")
		vsym.Assert(len(out) == n/2, "not as many matches as the tickets of all messages make")
		for _, m := range out {
			for _, r := range m.GetMatch().GetRosters() {
				vsym.Assert(len(r.GetTickets()) == 2, "not a duel")
				for _, t := range r.GetTickets() {
					vsym.Assert(given[t.GetId()], "a ticket that was not in a message, or twice")
					delete(given, t.GetId())
				}
			}
		}
		vsym.Assert(len(given) == n%2, "not as many matches as the tickets of all messages make")
	}
	vsym.Reach("served")
}
