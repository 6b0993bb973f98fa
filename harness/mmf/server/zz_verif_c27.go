package server

import (
	"context"
	"errors"
	"io"

	"verif/vsym"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

// vStream hands out the messages, then the error.
type vStream struct {
	msgs []*pb.ChunkedMmfRunRequest
	err  error
	n    int
}

func (s *vStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	vsym.Yield()
	s.n++
	if s.n > len(s.msgs) {
		return nil, s.err
	}
	return s.msgs[s.n-1], nil
}
func (s *vStream) Send(*pb.StreamedMmfResponse) error { panic("sent a response") }
func (s *vStream) SetHeader(metadata.MD) error        { return nil }
func (s *vStream) SendHeader(metadata.MD) error       { return nil }
func (s *vStream) SetTrailer(metadata.MD)             {}
func (s *vStream) Context() context.Context           { return context.Background() }
func (s *vStream) SendMsg(any) error                  { panic("sent a response") }
func (s *vStream) RecvMsg(any) error                  { panic("not used") }

type vPool struct {
	in  bool // in any message read
	ids []string
}

// VerifC27: all ways of spreading two pools over the messages of a stream,
// and all announced numbers of messages.
func VerifC27() {
	nM := vsym.Choose("messages", vsym.Param("maxMsgs", 2)+1)
	announced := vsym.Int("announced", -1<<31, 1<<31-1)
	names := []string{vsym.String("poolName0", 1), vsym.String("poolName1", 1)}
	vsym.Assume(names[0] != names[1])
	if vsym.Param("pools", 2) == 1 {
		names = names[:1]
	}
	filters := vsym.Choose("filters", 2) == 1
	tag, arg, lim := vsym.String("tag", 1), vsym.String("arg", 1), vsym.Float64("limit")
	from := vsym.Int64("from", -1<<40, 1<<40)
	profile := vsym.String("profile", 1)
	ext := &anypb.Any{TypeUrl: "x", Value: []byte(vsym.String("ext", 1))}
	withExt := filters
	odd := vsym.Choose("odd", 2) == 1 // messages do not agree on their number
	s := &vStream{err: io.EOF}
	if vsym.Choose("fails", 2) == 1 {
		s.err = errors.New("stream failed")
	}
	pools := make([]vPool, len(names))
	k := 0
	for i := 0; i < nM; i++ {
		p := &pb.Profile{Name: profile}
		if withExt {
			p.Extensions = map[string]*anypb.Any{"e": ext}
		}
		for j, name := range names {
			c := vsym.Choose(vN(vN("pool", j), i), vsym.Param("maxTickets", 2)+3)
			if c == 0 {
				continue
			}
			if p.Pools == nil {
				p.Pools = map[string]*pb.Pool{}
			}
			po := &pb.Pool{Name: name}
			if filters {
				po.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: tag}}
				po.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: arg, Value: tag}}
				po.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: arg, Maximum: lim}}
				po.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Seconds: from}}
				po.Extensions = map[string]*anypb.Any{"p": ext}
			}
			pools[j].in = true
			if c > 1 {
				po.Participants = &pb.Roster{Name: name}
				for t := 2; t < c; t++ {
					id := vsym.String(vN("id", k), 1)
					k++
					po.Participants.Tickets = append(po.Participants.Tickets, &pb.Ticket{Id: id})
					pools[j].ids = append(pools[j].ids, id)
				}
			}
			p.Pools[name] = po
		}
		n := announced
		if odd && i == nM-1 {
			n = vsym.Int("otherAnnounced", -1<<31, 1<<31-1)
			vsym.Assume(n != announced)
		}
		if p.Pools == nil && i > 0 && vsym.Choose(vN("noProfile", i), 2) == 1 && i < nM-1 {
			p = nil
		}
		s.msgs = append(s.msgs, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(n)})
	}
	got, err := GetChunkedRequest(s)
	vsym.Assert((got == nil) == (err != nil), "neither or both of profile and error returned")
	if odd {
		vsym.Reach("inconsistent")
		return
	}
	if announced < 1 || announced > nM {
		vsym.Assert(err != nil, "a profile although the stream ended early")
		vsym.Reach("ended early")
		return
	}
	if announced != nM {
		vsym.Assert(s.n == announced, "read past the last message")
		return
	}
	vsym.Assert(err == nil, "error on a complete stream")
	vsym.Assert(s.n == nM, "read past the last message")
	vsym.Assert(got.GetName() == profile, "profile name changed")
	vsym.Assert(len(got.GetExtensions()) == vsym.B2I(withExt), "profile extensions changed")
	if withExt {
		vsym.Assert(string(got.GetExtensions()["e"].GetValue()) == string(ext.Value), "profile extensions changed")
	}
	np := 0
	for j, name := range names {
		np += vsym.B2I(pools[j].in)
		po, ok := got.GetPools()[name]
		vsym.Assert(ok == pools[j].in, "not exactly the pools that were sent")
		if !ok {
			continue
		}
		vsym.Assert(po.GetName() == name, "pool name changed")
		nf := vsym.B2I(filters)
		vsym.Assert(len(po.GetTagPresentFilters()) == nf && len(po.GetStringEqualsFilters()) == nf && len(po.GetDoubleRangeFilters()) == nf &&
			(po.GetCreationTimeRangeFilter() != nil) == filters && len(po.GetExtensions()) == nf, "pool filters or extensions changed")
		if filters {
			d := po.GetDoubleRangeFilters()[0]
			vsym.Assert(vsym.And(po.GetTagPresentFilters()[0].GetTag() == tag, po.GetStringEqualsFilters()[0].GetStringArg() == arg,
				po.GetStringEqualsFilters()[0].GetValue() == tag, d.GetDoubleArg() == arg, vsym.Or(d.GetMaximum() == lim, lim != lim), d.GetMinimum() == 0,
				po.GetCreationTimeRangeFilter().GetStart().GetSeconds() == from, po.GetCreationTimeRangeFilter().GetEnd() == nil,
				string(po.GetExtensions()["p"].GetValue()) == string(ext.Value)), "pool filters or extensions changed")
		}
		ts := po.GetParticipants().GetTickets()
		vsym.Assert(len(ts) == len(pools[j].ids), "not exactly the tickets that were sent")
		for i, id := range pools[j].ids {
			vsym.Assert(ts[i].GetId() == id, "tickets changed or out of order")
		}
	}
	vsym.Assert(len(got.GetPools()) == np, "not exactly the pools that were sent")
	vsym.Reach("reassembled")
}
