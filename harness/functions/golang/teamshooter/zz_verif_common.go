package teamshooter

import (
	"context"
	"errors"
	"io"

	"verif/vsym"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

// vStream hands the pools to the function in one message and keeps what the
// function sends; the send number failAt and all later ones fail.
type vStream struct {
	req    *pb.ChunkedMmfRunRequest
	err    error
	read   bool
	sent   []*pb.Match
	failAt int
}

func (s *vStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	if s.err != nil {
		return nil, s.err
	}
	if s.read {
		return nil, io.EOF
	}
	s.read = true
	return s.req, nil
}
func (s *vStream) Send(r *pb.StreamedMmfResponse) error {
	vsym.Yield()
	s.sent = append(s.sent, proto.Clone(r.GetMatch()).(*pb.Match))
	if len(s.sent) >= s.failAt {
		return errors.New("stream failed")
	}
	return nil
}
func (s *vStream) SetHeader(metadata.MD) error  { return nil }
func (s *vStream) SendHeader(metadata.MD) error { return nil }
func (s *vStream) SetTrailer(metadata.MD)       {}
func (s *vStream) Context() context.Context     { return context.Background() }
func (s *vStream) SendMsg(any) error            { panic("not used") }
func (s *vStream) RecvMsg(any) error            { panic("not used") }

// fill makes the request. No two tickets have the same id.
func (s *vStream) fill(names []string, sizes []int, sym bool) map[string]int {
	pools := map[string]*pb.Pool{}
	of := map[string]int{}
	k := 0
	for i, n := range sizes {
		p := &pb.Pool{Name: names[i]}
		for j := 0; j < n; j++ {
			k++
			id := string([]byte{byte('a' + k/26/26%26), byte('a' + k/26%26), byte('a' + k%26)})
			if sym {
				c := vsym.String(vN("id", k), 1)
				vsym.Assume(len(c) == 1)
				id += c
			}
			of[id] = i
			if p.Participants == nil {
				p.Participants = &pb.Roster{Name: names[i]}
			}
			p.Participants.Tickets = append(p.Participants.Tickets, &pb.Ticket{Id: id})
		}
		pools[names[i]] = p
	}
	s.req = &pb.ChunkedMmfRunRequest{NumChunks: 1, Profile: &pb.Profile{Name: "profile", Pools: pools}}
	return of
}

// vRun runs the function over pools of the given sizes. It returns the matches, the pool of every ticket, and whether
// every send worked.
func vRun(names []string, sizes []int, sym bool) ([]*pb.Match, map[string]int, bool) {
	s := &vStream{failAt: vsym.Int("failAt", 1, 1000)}
	if vsym.Choose("no request", 2) == 1 {
		s.err = errors.New("stream failed")
	}
	of := s.fill(names, sizes, sym)
	(&MmfServer{}).Run(s)
	if s.err != nil {
		vsym.Assert(len(s.sent) == 0, "matches although no request arrived")
		vsym.Stop()
	}
	return s.sent, of, len(s.sent) < s.failAt
}

// vBig runs the function over large pools; every send works, or the last.
func vBig(names []string, sizes []int, last int) ([]*pb.Match, map[string]int, bool) {
	s := &vStream{failAt: 1000000}
	if vsym.Choose("last fails", 2) == 1 {
		s.failAt = last
	}
	of := s.fill(names, sizes, false)
	(&MmfServer{}).Run(s)
	vsym.Reach("large pools")
	return s.sent, of, len(s.sent) < s.failAt
}

// vTwo runs two requests with tickets in common on one server, one after the
// other or at the same time.
func vTwo(names []string, sizes func(k int) []int, check func(k int, sent []*pb.Match, of map[string]int, all bool)) {
	srv := &MmfServer{}
	var ss []*vStream
	var ofs []map[string]int
	for k := 0; k < 2; k++ {
		s := &vStream{failAt: 1000}
		if k == 0 && vsym.Choose("first fails", 2) == 1 {
			s.failAt = 1
		}
		ofs = append(ofs, s.fill(names, sizes(k), false))
		ss = append(ss, s)
	}
	together := vsym.Choose("together", 2) == 1
	if together {
		vsym.Sched("delay", vsym.Param("budget", 1))
		done := make(chan bool, 2)
		for _, s := range ss {
			go func(s *vStream) { srv.Run(s); done <- true }(s)
		}
		<-done
		<-done
		vsym.Reach("at the same time")
	}
	for k, s := range ss {
		if !together {
			srv.Run(s)
		}
		check(k, s.sent, ofs[k], len(s.sent) < s.failAt)
	}
	vsym.Reach("two runs")
}

// vCheck checks what holds for every function: count returns, for a match,
// the number of tickets from each pool in each roster.
func vCheck(sent []*pb.Match, of map[string]int, pools int, count func(rosters [][]int)) {
	used := map[string]bool{}
	ids := map[string]bool{}
	for _, m := range sent {
		vsym.Assert(!ids[m.GetId()], "two matches with the same id")
		ids[m.GetId()] = true
		var rs [][]int
		for _, r := range m.GetRosters() {
			c := make([]int, pools)
			for _, t := range r.GetTickets() {
				p, ok := of[t.GetId()]
				vsym.Assert(ok, "a match has a ticket that was not in the request")
				vsym.Assert(!used[t.GetId()], "a ticket was used twice")
				used[t.GetId()] = true
				c[p]++
			}
			rs = append(rs, c)
		}
		count(rs)
	}
}
