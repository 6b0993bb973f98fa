package main

import (
	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC10: arbitrary cache contents, two kinds of filters per pool.
func VerifC10() {
	vSetup()
	nT := vsym.Choose("tickets", vsym.Param("maxTickets", 3)+1)
	nP := vsym.Choose("pools", vsym.Param("maxPools", 2)+1)
	type tk struct {
		t        *pb.Ticket
		copy     *pb.Ticket
		inactive bool
		s        string
		tag      string
	}
	var ts []tk
	for i := 0; i < nT; i++ {
		x := tk{s: vsym.String(vN("s", i), 1), tag: vsym.String(vN("tag", i), 1)}
		x.t = &pb.Ticket{Id: vN("170000000000-", i), Attributes: &pb.Ticket_FilterableData{
			StringArgs: map[string]string{"a": x.s}, Tags: []string{x.tag}},
			ExpirationTime: &timestamppb.Timestamp{Seconds: 1 << 33}}
		x.copy = proto.Clone(x.t).(*pb.Ticket)
		x.inactive = vsym.Choose(vN("inactive", i), 2) == 1
		tc.Tickets.Store(x.t.Id, x.t)
		if x.inactive {
			tc.InactiveSet.Store(x.t.Id, true)
		}
		ts = append(ts, x)
	}
	if vsym.Choose("dangling", 2) == 1 {
		tc.InactiveSet.Store("160000000000-0", true)
		tc.Assignments.Store("170000000000-0", &pb.Assignment{Connection: "c"})
	}
	pools := map[string]*pb.Pool{}
	want := make([]string, nP)
	tags := make([]string, nP)
	for j := 0; j < nP; j++ {
		want[j] = vsym.String(vN("want", j), 1)
		tags[j] = vsym.String(vN("needs", j), 1)
		pools[vN("pool", j)] = &pb.Pool{Name: vN("p", j),
			StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: "a", Value: want[j]}},
			TagPresentFilters:   []*pb.Pool_TagPresentFilter{{Tag: tags[j]}}}
	}
	f := &vMmf{}
	g := &vMmf{}
	req := &pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: pools}, Mmfs: vStartMmfs(f, g)}
	s := &vCaller{}
	vsym.Assert(vInvoke(req, s) == nil, "the invocation failed")
	for k, m := range []*vMmf{f, g} {
		vsym.Assert(m.calls == 1, "a function was not called exactly once")
		_ = k
		got := vChunks(m)
		vsym.Assert(len(got) <= nP, "a pool that is not in the profile was sent")
		for j := 0; j < nP; j++ {
			list := got[vN("pool", j)]
			for _, x := range ts {
				in := vsym.And(!x.inactive, x.s == want[j], x.tag == tags[j])
				n := 0
				for _, p := range list {
					if p.GetId() == x.t.Id {
						n++
						vsym.Assert(proto.Equal(p, x.copy), "a ticket in a pool differs from the cached ticket")
					}
				}
				vsym.Assert(vsym.Iff(in, n == 1), "a pool does not hold exactly the matching active tickets")
				vsym.Assert(n <= 1, "a ticket is in a pool twice")
			}
			total := 0
			for _, x := range ts {
				total += vsym.B2I(vsym.And(!x.inactive, x.s == want[j], x.tag == tags[j]))
			}
			vsym.Assert(len(list) == total, "a pool holds something else than cached tickets")
			if len(list) > 0 {
				vsym.Reach("nonempty pool")
			}
		}
	}
	for _, x := range ts {
		v, ok := tc.Tickets.Load(x.t.Id)
		vsym.Assert(ok, "the invocation removed a ticket")
		vsym.Assert(v == any(x.t), "the invocation replaced a ticket")
		vsym.Assert(proto.Equal(x.t, x.copy), "the invocation changed a ticket")
		_, in := tc.InactiveSet.Load(x.t.Id)
		vsym.Assert(in == x.inactive, "the invocation changed an inactive entry")
	}
	vsym.Assert(len(s.sent) == 0, "a match was sent that no function made")
}

// VerifC10Shapes: tickets and pools of every shape, up to three pools.
func VerifC10Shapes() {
	vSetup()
	nT := 1 + vsym.Choose("tickets", vsym.Param("maxTickets", 2))
	nP := 1 + vsym.Choose("pools", 3)
	d := vsym.Float64("mmr")
	var ts []*pb.Ticket
	shape := make([]int, nT)
	for i := 0; i < nT; i++ {
		t := &pb.Ticket{Id: vN("170000000000-", i)}
		shape[i] = vsym.Choose(vN("ticket", i), 5)
		switch shape[i] {
		case 1:
			t.Attributes = &pb.Ticket_FilterableData{}
		case 2:
			t.Attributes = &pb.Ticket_FilterableData{Tags: []string{"t", "u"}}
		case 3:
			t.Attributes = &pb.Ticket_FilterableData{Tags: []string{"t"}, DoubleArgs: map[string]float64{"mmr": d}}
		case 4:
			t.Attributes = &pb.Ticket_FilterableData{StringArgs: map[string]string{"mode": "m"}}
			t.Extensions = map[string]*anypb.Any{"e": {TypeUrl: "x"}}
		}
		vCached(vN("cached", i), t.Id)
		if _, ok := tc.Tickets.Load(t.Id); ok {
			tc.Tickets.Store(t.Id, t)
		}
		ts = append(ts, t)
	}
	pools := map[string]*pb.Pool{}
	kind := make([]int, nP)
	for j := 0; j < nP; j++ {
		p := &pb.Pool{Name: vN("p", j)}
		if j < 2 {
			kind[j] = vsym.Choose(vN("pool", j), 5)
		}
		switch kind[j] {
		case 1:
			p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "t"}}
		case 2:
			p.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "mmr", Minimum: 0, Maximum: 10, Bounds: pb.Pool_EXCLUDE_MAX}}
		case 3:
			p.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: "mode", Value: "m"}}
		case 4: // left over from the matchmaker
			p.Participants = &pb.Roster{Name: "old", Tickets: []*pb.Ticket{{Id: "old"}}}
		}
		pools[vN("pool", j)] = p
	}
	before := tcDump()
	f := &vMmf{}
	vsym.Assert(vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Pools: pools}, Mmfs: vStartMmfs(f)}, &vCaller{}) == nil, "the invocation failed")
	vsym.Assert(tcDump() == before, "the invocation changed the cache")
	got := vChunks(f)
	for j := 0; j < nP; j++ {
		total := 0
		for i, t := range ts {
			in := true
			switch kind[j] {
			case 1:
				in = shape[i] == 2 || shape[i] == 3
			case 2:
				in = vsym.And(shape[i] == 3, d >= 0, d < 10)
			case 3:
				in = shape[i] == 4
			}
			_, here := tc.Tickets.Load(t.Id)
			_, inactive := tc.InactiveSet.Load(t.Id)
			n := 0
			for _, p := range got[vN("pool", j)] {
				if p.GetId() == t.Id {
					n++
					vsym.Assert(proto.Equal(p, t), "a ticket in a pool differs from the cached ticket")
				}
			}
			in = vsym.And(in, here, !inactive)
			vsym.Assert(n <= 1, "a ticket is in a pool twice")
			vsym.Assert(vsym.Iff(in, n == 1), "a pool does not hold exactly the matching active tickets")
			total += n
		}
		vsym.Assert(len(got[vN("pool", j)]) == total, "a pool holds something else than cached tickets")
		if total > 1 {
			vsym.Reach("nonempty pool")
		}
	}
}

// VerifC10Reject: incomplete requests.
func VerifC10Reject() {
	vSetup()
	f := &vMmf{}
	req := &pb.MmfRequest{}
	ok := true
	if vsym.Choose("profile", 2) == 1 {
		req.Profile = &pb.Profile{Name: vsym.String("name", 2)}
	} else {
		ok = false
	}
	if vsym.Choose("mmfs", 2) == 1 {
		req.Mmfs = vStartMmfs(f)
	} else {
		ok = false
	}
	s := &vCaller{}
	err := vInvoke(req, s)
	if ok {
		vsym.Assert(err == nil, "a complete request was rejected")
		vsym.Assert(f.calls == 1, "a function was not called exactly once")
		vsym.Reach("accepted")
	} else {
		vsym.Assert(status.Code(err) == codes.InvalidArgument, "an incomplete request is not InvalidArgument")
		vsym.Assert(f.calls == 0, "a function was called for an incomplete request")
		vsym.Reach("rejected")
	}
}

// VerifC03Invoke: a profile with valid and invalid pools.
func VerifC03Invoke() {
	vSetup()
	nP := 1 + vsym.Choose("pools", vsym.Param("maxPools", 2))
	t := &pb.Ticket{Id: "170000000000-0", Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}}}
	tc.Tickets.Store(t.Id, t)
	pools := map[string]*pb.Pool{}
	valid := make([]bool, nP)
	tagged := make([]bool, nP)
	for j := 0; j < nP; j++ {
		p := &pb.Pool{Name: vN("p", j)}
		valid[j] = true
		if vsym.Choose(vN("range", j), 2) == 1 {
			// the range itself is C02's business: an invalid limit, or none
			switch vsym.Choose(vN("limit", j), 3) {
			case 0:
				p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Nanos: vsym.Int32(vN("nanos", j), -1<<31, -1)}}
			case 1:
				p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{End: &timestamppb.Timestamp{Seconds: vsym.Int64(vN("secs", j), vTsMax+1, 1<<62)}}
			case 2:
				p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Nanos: vsym.Int32(vN("nanos", j), 1000000000, 1<<31-1)}, End: &timestamppb.Timestamp{Seconds: 5}}
			}
			valid[j] = false
		}
		tagged[j] = vsym.Choose(vN("tag", j), 2) == 1
		if tagged[j] {
			p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "t"}}
		} else {
			p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "u"}}
		}
		pools[vN("pool", j)] = p
	}
	f := &vMmf{}
	req := &pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: pools}, Mmfs: vStartMmfs(f)}
	err := vInvoke(req, &vCaller{})
	vsym.Assert(err == nil, "an invalid pool failed the invocation")
	got := vChunks(f)
	for j := 0; j < nP; j++ {
		l := got[vN("pool", j)]
		if !valid[j] {
			vsym.Assert(len(l) == 0, "an invalid pool was filled")
			vsym.Reach("invalid pool")
		} else if tagged[j] {
			vsym.Assert(len(l) == 1, "a valid pool was not filled")
			vsym.Reach("valid pool")
		} else {
			vsym.Assert(len(l) == 0, "a ticket is in a pool it does not match")
		}
	}
}
