package server

import (
	"errors"
	"io"

	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

type vRequest struct {
	s       *vStream
	profile string
	want    map[string][]string
}

// vMake is a request of one or two messages with a pool or two.
func vMake(tag string, early bool) *vRequest {
	r := &vRequest{s: &vStream{err: io.EOF}, profile: vsym.String(tag+"profile", 1), want: map[string][]string{}}
	n := 1 + vsym.Choose(tag+"messages", 2)
	names := []string{"a", "b"}
	for i := 0; i < n; i++ {
		p := &pb.Profile{Name: r.profile, Pools: map[string]*pb.Pool{}}
		for j, name := range names {
			if vsym.Choose(vN(vN(tag+"pool", j), i), 2) == 0 {
				continue
			}
			id := vsym.String(vN(vN(tag+"id", j), i), 1)
			p.Pools[name] = &pb.Pool{Name: name, Participants: &pb.Roster{Name: name, Tickets: []*pb.Ticket{{Id: id}}}}
			r.want[name] = append(r.want[name], id)
		}
		r.s.msgs = append(r.s.msgs, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(n)})
	}
	if early {
		r.s.msgs = r.s.msgs[:n-1]
		if vsym.Choose(tag+"broken", 2) == 1 {
			r.s.err = errors.New("stream failed")
		}
	}
	return r
}

func (r *vRequest) check(got *pb.Profile) {
	vsym.Assert(got.GetName() == r.profile, "profile name changed")
	vsym.Assert(len(got.GetPools()) == len(r.want), "not exactly the pools that were sent")
	for name, ids := range r.want {
		po := got.GetPools()[name]
		ts := po.GetParticipants().GetTickets()
		vsym.Assert(po.GetName() == name, "pool name changed")
		vsym.Assert(len(ts) == len(ids), "not exactly the tickets that were sent")
		for i, id := range ids {
			vsym.Assert(ts[i].GetId() == id, "tickets changed or out of order")
		}
	}
}

// VerifC27Two: a request after another one that was complete or ended early,
// or two requests at the same time.
func VerifC27Two() {
	early := vsym.Choose("first ends early", 2) == 1
	a, b := vMake("first ", early), vMake("second ", false)
	var got, got2 *pb.Profile
	var err, err2 error
	if vsym.Choose("concurrent", 2) == 1 {
		vsym.Sched("delay", vsym.Param("budget", 1))
		done := make(chan struct{})
		go func() {
			got, err = GetChunkedRequest(a.s)
			close(done)
		}()
		got2, err2 = GetChunkedRequest(b.s)
		<-done
		vsym.Reach("concurrent")
	} else {
		got, err = GetChunkedRequest(a.s)
		if !early {
			vsym.Assert(err == nil && got != nil, "error on a complete stream")
			a.check(got)
		}
		got2, err2 = GetChunkedRequest(b.s)
		vsym.Reach("one after the other")
	}
	vsym.Assert((err != nil) == early && (got == nil) == early, "a profile although the stream ended early, or none although it was complete")
	vsym.Assert(err2 == nil && got2 != nil, "error on a complete stream")
	b.check(got2)
	if !early {
		a.check(got) // also after the second
	}
}
