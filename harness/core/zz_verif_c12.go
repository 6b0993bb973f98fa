package main

import (
	"fmt"
	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

const vGrpcMax = 4 * 1024 * 1024

// VerifC12: tickets and profiles of arbitrary encoded size.
func VerifC12() {
	vSetup()
	nT := vsym.Choose("tickets", vsym.Param("maxTickets", 3)+1)
	nP := 1 + vsym.Choose("pools", vsym.Param("maxPools", 2))
	pools := map[string]*pb.Pool{}
	for j := 0; j < nP; j++ {
		pools[vN("pool", j)] = &pb.Pool{Name: vN("p", j), TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: vN("t", j)}}}
	}
	var ts []*pb.Ticket
	in := make([][]bool, nT)
	for i := 0; i < nT; i++ {
		t := &pb.Ticket{Id: vN("170000000000-", i), Attributes: &pb.Ticket_FilterableData{
			StringArgs: map[string]string{"pad": vsym.BigString(vN("pad", i), 0, 4100000)}}}
		for j := 0; j < nP; j++ {
			has := vsym.Choose(vN(vN("has", i)+".", j), 2) == 1
			in[i] = append(in[i], has)
			if has {
				t.Attributes.Tags = append(t.Attributes.Tags, vN("t", j))
			}
		}
		tc.Tickets.Store(t.Id, t)
		ts = append(ts, t)
	}
	profile := &pb.Profile{Name: "x", Pools: pools}
	if vsym.Choose("bigProfile", 2) == 1 {
		profile.Name = vsym.BigString("profile", 0, 3900000)
	}
	f := &vMmf{}
	err := vInvoke(&pb.MmfRequest{Profile: profile, Mmfs: vStartMmfs(f)}, &vCaller{})
	vsym.Assert(err == nil, "the invocation failed")
	got := vChunks(f)
	vsym.Assert(len(f.got) >= 1, "the function got no request")
	for _, c := range f.got {
		vsym.Assert(c.GetProfile().GetName() == profile.Name, "a message carries another profile name")
		n := 0
		alone := 0 // what the profile and this message's ticket need on their own
		for _, p := range c.GetProfile().GetPools() {
			for _, t := range p.GetParticipants().GetTickets() {
				n++
				one := proto.Clone(profile).(*pb.Profile)
				for name, q := range one.GetPools() {
					q.Participants = &pb.Roster{Name: name + "_roster"}
					if name == "pool0" {
						q.Participants.Tickets = []*pb.Ticket{t}
					}
				}
				alone = proto.Size(&pb.ChunkedMmfRunRequest{Profile: one, NumChunks: 1 << 30})
			}
		}
		size := proto.Size(c)
		if n > 1 {
			vsym.Assert(size <= vGrpcMax, "a message exceeds the 4 MiB limit")
			vsym.Reach("several tickets in a message")
		} else {
			vsym.Assert(vsym.Or(size <= vGrpcMax, alone > vGrpcMax), "a message exceeds the 4 MiB limit")
		}
	}
	if len(f.got) > 1 {
		vsym.Reach("several messages")
	}
	for i, t := range ts {
		for j := 0; j < nP; j++ {
			n := 0
			for _, p := range got[vN("pool", j)] {
				if p.GetId() == t.Id {
					n++
					vsym.Assert(proto.Equal(p, t), "a ticket was changed on its way")
				}
			}
			if in[i][j] {
				vsym.Assert(n == 1, "a ticket was lost from or repeated in a pool")
			} else {
				vsym.Assert(n == 0, "a ticket moved to another pool")
			}
		}
	}
	for j := 0; j < nP; j++ {
		want := 0
		for i := range ts {
			if in[i][j] {
				want++
			}
		}
		vsym.Assert(len(got[vN("pool", j)]) == want, "a pool holds foreign tickets")
	}
}

// VerifC12Small: very many small entries; the wire overhead of each counts.
func VerifC12Small() {
	vSetup()
	n := vsym.Param("tickets", 1200)
	nP := vsym.Param("pools", 100)
	num := func(i int) string {
		return string([]byte{byte('0' + i/1000%10), byte('0' + i/100%10), byte('0' + i/10%10), byte('0' + i%10)})
	}
	pools := map[string]*pb.Pool{}
	for j := 0; j < nP; j++ {
		pools[num(j)] = &pb.Pool{}
	}
	for i := 0; i < n; i++ {
		id := "1700000000000-" + num(i)
		tc.Tickets.Store(id, &pb.Ticket{Id: id, ExpirationTime: &timestamppb.Timestamp{Seconds: 1700000000}})
	}
	f := &vMmf{}
	profile := &pb.Profile{Pools: pools}
	if k := vsym.Param("maxName", 0); k > 0 {
		profile.Name = vsym.BigString("profile", 0, k)
	}
	err := vInvoke(&pb.MmfRequest{Profile: profile, Mmfs: vStartMmfs(f)}, &vCaller{})
	vsym.Assert(err == nil, "the invocation failed")
	total := 0
	for _, c := range f.got {
		vsym.Assert(proto.Size(c) <= vGrpcMax, "a message exceeds the 4 MiB limit")
		for _, p := range c.GetProfile().GetPools() {
			total += len(p.GetParticipants().GetTickets())
		}
	}
	vsym.Assert(total == n*nP, "tickets were lost or repeated")
	if len(f.got) > 1 {
		vsym.Reach("several messages")
	}
}

// VerifC13: the profile as the function sees it.
func VerifC13() {
	vSetup()
	L := vsym.Param("len", 2)
	tk := &pb.Ticket{Id: "170000000000-0", Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}, DoubleArgs: map[string]float64{"d": 1}}}
	if vsym.Choose("ticket", 2) == 1 {
		tc.Tickets.Store(tk.Id, tk)
	}
	any := func(n string) map[string]*anypb.Any {
		if vsym.Choose(n+".ext", 2) == 0 {
			return nil
		}
		return map[string]*anypb.Any{vsym.String(n+".extkey", L): {TypeUrl: vsym.String(n+".type", L), Value: []byte(vsym.String(n+".val", L))}}
	}
	profile := &pb.Profile{Name: vsym.String("name", L), Extensions: any("profile"), Pools: map[string]*pb.Pool{}}
	nP := vsym.Choose("pools", vsym.Param("maxPools", 2)+1)
	for j := 0; j < nP; j++ {
		p := &pb.Pool{Name: vsym.String(vN("pool", j), L), Extensions: any(vN("pool", j))}
		switch vsym.Choose(vN("filters", j), 5) {
		case 1:
			p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: vsym.String(vN("tag", j), L)}}
		case 2:
			p.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: vsym.String(vN("arg", j), L), Value: vsym.String(vN("value", j), L)}}
		case 3:
			p.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Maximum: vsym.Float64(vN("max", j)), Minimum: 1, Bounds: pb.Pool_FilterBounds(vsym.Int32(vN("bounds", j), 0, 3))}}
		case 4:
			s, _, _, v1 := vAnyTs(vN("start", j))
			vsym.Assume(vsym.Or(s == nil, v1))
			p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: s, Bounds: pb.Pool_FilterBounds(vsym.Int32(vN("bounds", j), 0, 3))}
		}
		profile.Pools[vN("key", j)] = p
	}
	orig := proto.Clone(profile).(*pb.Profile)
	f, g := &vMmf{}, &vMmf{}
	nF := 4
	if nP == 0 {
		nF = 6
		f.port = []int32{0, 80, 443, 65535}[vsym.Choose("port", 4)]
	}
	specs := vStartMmfs(f, g)
	call := []int{1, 1}
	switch vsym.Choose("functions", nF) {
	case 1:
		specs = specs[:1]
		call[1] = 0
	case 2: // two functions of the same name
		specs[1].Name = specs[0].Name
	case 3: // another function served at the same address
		specs = append(specs, &pb.MatchmakingFunctionSpec{Name: "other", Host: specs[0].Host, Port: specs[0].Port, Type: pb.MatchmakingFunctionSpec_GRPC})
		call[0] = 2
	case 4: // the port is part of the host
		specs[0].Host, specs[0].Port = fmt.Sprintf("%s:%d", specs[0].Host, specs[0].Port), 0
	case 5: // functions without a name
		specs[0].Name, specs[1].Name = "", ""
	}
	rest := vsym.Choose("rest", 2) == 1
	if rest {
		// a function of the unsupported type does not disturb the others
		specs = append([]*pb.MatchmakingFunctionSpec{{Name: "r", Host: "resthost", Port: 1, Type: pb.MatchmakingFunctionSpec_REST}}, specs...)
	}
	vsym.Assert(vInvoke(&pb.MmfRequest{Profile: profile, Mmfs: specs}, &vCaller{}) == nil, "the invocation failed")
	for k, m := range []*vMmf{f, g} {
		vsym.Assert(m.calls == call[k], "a function was not called exactly once at its host and port")
		if call[k] == 0 {
			continue
		}
		vsym.Assert(len(m.got) == call[k], "a small profile was sent in several messages")
		got := m.got[len(m.got)-1].GetProfile()
		vsym.Assert(got.GetName() == orig.GetName(), "the profile name changed")
		vsym.Assert(proto.Equal(&pb.Profile{Extensions: got.GetExtensions()}, &pb.Profile{Extensions: orig.GetExtensions()}), "the profile extensions changed")
		vsym.Assert(len(got.GetPools()) == nP, "a pool is missing or foreign")
		for j := 0; j < nP; j++ {
			p := got.GetPools()[vN("key", j)]
			vsym.Assert(p != nil, "a pool is missing")
			q := proto.Clone(p).(*pb.Pool)
			q.Participants = nil
			vsym.Assert(proto.Equal(q, orig.GetPools()[vN("key", j)]), "a pool's name, filters or extensions changed")
			vsym.Reach("pool checked")
		}
	}
	vsym.Assert(proto.Equal(profile, orig), "the caller's profile was modified")
}
