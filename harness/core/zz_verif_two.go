package main

import (
	"context"
	"time"

	"verif/vsym"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// Calls one after the other, or at the same time: nothing of one may reach
// another.

// VerifC10Two: two invocations with profiles and pools of the same names but
// other contents; the cache changes in between.
func VerifC10Two() {
	vSetup()
	nT := 2
	var ids, tags []string
	for i := 0; i < nT; i++ {
		ids = append(ids, vN("170000000000-", i))
		tags = append(tags, vId(vN("tag", i)))
	}
	set := func(when string, i int) (in bool) {
		tc.Tickets.Delete(ids[i])
		tc.InactiveSet.Delete(ids[i])
		k := vsym.Choose(vN(when, i), 3)
		if k > 0 {
			t := &pb.Ticket{Id: ids[i], Attributes: &pb.Ticket_FilterableData{Tags: []string{tags[i]}}}
			if vsym.Param("big", 0) == 1 {
				t.Attributes.StringArgs = map[string]string{"pad": vsym.BigString(vN(when+"pad", i), 2900000, 2900000)}
			}
			tc.Tickets.Store(ids[i], t)
		}
		if k == 1 {
			tc.InactiveSet.Store(ids[i], true)
		}
		return k == 2
	}
	f, g := &vMmf{}, &vMmf{}
	specs := vStartMmfs(f, g)
	together := vsym.Param("big", 0) == 0 && vsym.Choose("together", 2) == 1
	same := vsym.Choose("same function", 2) == 1 && !together
	names := []string{"x", "x"}
	if vsym.Choose("other profile", 2) == 1 {
		names[1] = "y"
	}
	type inv struct {
		f       *vMmf
		profile *pb.Profile
		needs   string
		in      []bool
		ext     string
	}
	mk := func(k int) *inv {
		v := &inv{f: f, needs: vId(vN("needs", k)), ext: vId(vN("ext", k))}
		if k == 1 && !same {
			v.f = g
		}
		p := &pb.Pool{Name: "p", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: v.needs}}}
		v.profile = &pb.Profile{Name: names[k], Pools: map[string]*pb.Pool{"pool": p}, Extensions: map[string]*anypb.Any{"e": {TypeUrl: v.ext}}}
		return v
	}
	spec := func(v *inv) []*pb.MatchmakingFunctionSpec {
		if v.f == f {
			return specs[:1]
		}
		return specs[1:]
	}
	check := func(v *inv) {
		vsym.Assert(v.f.calls == 1, "a function was not called exactly once")
		list := vChunks(v.f)["pool"]
		total := 0
		for i := 0; i < nT; i++ {
			in := vsym.And(v.in[i], tags[i] == v.needs)
			n := 0
			for _, p := range list {
				if p.GetId() == ids[i] {
					n++
				}
			}
			vsym.Assert(vsym.Iff(in, n == 1), "a pool does not hold exactly the matching active tickets")
			total += vsym.B2I(in)
		}
		vsym.Assert(len(list) == total, "a pool holds something else than cached tickets")
		for _, c := range v.f.got {
			p := c.GetProfile()
			vsym.Assert(p.GetName() == v.profile.Name && p.GetExtensions()["e"].GetTypeUrl() == v.ext, "a function was sent another invocation's profile")
			vsym.Assert(len(p.GetPools()) == 1 && p.GetPools()["pool"].GetTagPresentFilters()[0].GetTag() == v.needs, "a function was sent another invocation's filters")
			vsym.Assert(proto.Size(c) <= vGrpcMax, "a message exceeds the 4 MiB limit")
		}
		if len(v.f.got) > 1 {
			vsym.Reach("several messages")
		}
		v.f.calls, v.f.got = 0, nil
	}
	run := func(v *inv) {
		vsym.Assert(vInvoke(&pb.MmfRequest{Profile: v.profile, Mmfs: spec(v)}, &vCaller{}) == nil, "the invocation failed")
	}
	a, b := mk(0), mk(1)
	for i := 0; i < nT; i++ {
		a.in = append(a.in, set("before", i))
	}
	if together {
		vsym.Sched("delay", vsym.Param("budget", 1))
		vsym.MapOrder(false)
		b.in = a.in
		done := make(chan bool, 2)
		go func() { run(a); done <- true }()
		go func() { run(b); done <- true }()
		<-done
		<-done
		check(a)
		check(b)
		vsym.Reach("at the same time")
		return
	}
	run(a)
	check(a)
	for i := 0; i < nT; i++ {
		if i == 0 || vsym.Param("big", 0) == 0 {
			b.in = append(b.in, set("after", i))
		} else {
			b.in = append(b.in, a.in[i])
		}
	}
	run(b)
	check(b)
	vsym.Reach("one after the other")
}

// VerifC04Two: tickets created one after the other or at the same time.
func VerifC04Two() {
	vSetup()
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 600)
	type in struct {
		t       *pb.Ticket
		tag     string
		kind    int
		created int64
	}
	base := time.Now()
	var ins []*in
	for k := 0; k < 2; k++ {
		x := &in{tag: vId(vN("tag", k))}
		x.kind = vsym.Choose(vN("kind", k), 4)
		x.t = &pb.Ticket{}
		switch x.kind {
		case 1: // no time given
			x.t.Attributes = &pb.Ticket_FilterableData{Tags: []string{x.tag}}
		case 2, 3:
			x.created = base.Unix() - vsym.Int64(vN("age", k), 0, 500)
			x.t.Attributes = &pb.Ticket_FilterableData{Tags: []string{x.tag}, CreationTime: &timestamppb.Timestamp{Seconds: x.created}}
			if x.kind == 3 {
				x.t.ExpirationTime = &timestamppb.Timestamp{Seconds: x.created + 7}
			}
		}
		ins = append(ins, x)
	}
	var seen []*pb.Ticket
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		got := &pb.Ticket{}
		vsym.Assert(r.Update.Cmd == store.Ticket && proto.Unmarshal([]byte(r.Update.Value), got) == nil, "the stored ticket does not decode")
		seen = append(seen, got)
		return &store.StateResponse{Result: "1-0"}
	})
	call := func(x *in) {
		_, err := (&grpcServer{}).CreateTicket(context.Background(), &pb.CreateTicketRequest{Ticket: x.t})
		vsym.Assert(err == nil, "CreateTicket failed although storage accepted the ticket")
	}
	fits := func(g *pb.Ticket, x *in) bool {
		a := g.GetAttributes()
		c := a.GetCreationTime()
		if c == nil || g.GetExpirationTime() == nil || len(a.GetTags()) != vsym.B2I(x.kind > 0) {
			return false
		}
		ok := g.GetId() == ""
		if x.kind > 0 {
			ok = vsym.And(ok, a.GetTags()[0] == x.tag)
		}
		exp := g.ExpirationTime.Seconds - c.Seconds
		sameNs := g.ExpirationTime.Nanos == c.Nanos
		switch x.kind {
		case 0, 1:
			return vsym.And(ok, c.Seconds >= base.Unix(), exp == 600, sameNs)
		case 2:
			return vsym.And(ok, c.Seconds == x.created, c.Nanos == 0, exp == 600, sameNs)
		}
		return vsym.And(ok, c.Seconds == x.created, c.Nanos == 0, exp == 7, sameNs)
	}
	if vsym.Choose("together", 2) == 1 {
		vsym.Sched("delay", vsym.Param("budget", 1))
		done := make(chan bool, 2)
		for _, x := range ins {
			go func(x *in) { call(x); done <- true }(x)
		}
		<-done
		<-done
		vsym.Assert(len(seen) == 2, "not exactly one update per ticket")
		vsym.Assert(vsym.Or(vsym.And(fits(seen[0], ins[0]), fits(seen[1], ins[1])), vsym.And(fits(seen[0], ins[1]), fits(seen[1], ins[0]))),
			"a stored ticket mixes tickets, or its times are wrong")
		vsym.Reach("at the same time")
		return
	}
	for k, x := range ins {
		call(x)
		vsym.Assert(len(seen) == k+1, "not exactly one update per ticket")
		vsym.Assert(fits(seen[k], x), "a stored ticket carries something of an earlier one, or its times are wrong")
		time.Sleep(1500 * time.Millisecond)
	}
	vsym.Reach("one after the other")
}

// VerifC07After: a call after another one that failed, was rejected or
// succeeded, for the same tickets and others, of either kind.
func VerifC07After() {
	vSetup()
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", 2)
	names := []string{"1700000000001-0", "1700000000002-0", "no id"}
	var want []store.StateUpdate
	var fail []bool
	q := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		vsym.Assert(i < len(want) && r.Update.Key == want[i].Key, "queued updates are not the requested ids in request order")
		vsym.Assert(r.Update.Cmd == want[i].Cmd, "update of the wrong kind")
		q++
		if fail[i] {
			return &store.StateResponse{Result: r.Update.Key, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	for c := 0; c < 2; c++ {
		activate := vsym.Choose(vN("rpc", c), 2) == 0
		n := vsym.Choose(vN("ids", c), 4)
		var ids []string
		bad := map[string]bool{}
		nBad := 0
		for i := 0; i < n; i++ {
			id := names[vsym.Choose(vN(vN("id", c), i), 3)]
			ids = append(ids, id)
			if n > 2 || id == names[2] {
				continue
			}
			cmd := store.Deactivate
			if activate {
				cmd = store.Activate
			}
			f := vsym.Choose(vN(vN("fails", c), i), 2) == 1
			want, fail = append(want, store.StateUpdate{Cmd: cmd, Key: id}), append(fail, f)
			if f && !bad["ticketId/"+id] {
				bad["ticketId/"+id] = true
				nBad++
			}
		}
		err, _ := vCall(context.Background(), activate, ids)
		vsym.Assert(q == len(want), "not exactly one update per well-formed id")
		if n == 0 || n > 2 {
			vsym.Assert(status.Code(err) == codes.InvalidArgument, "a request with no ids or too many ids is not rejected with InvalidArgument")
			vsym.Reach("rejected")
			continue
		}
		st, _ := status.FromError(err)
		named := 0
		for _, d := range st.Details() {
			if br, ok := d.(*errdetails.BadRequest); ok {
				for _, v := range br.GetFieldViolations() {
					named++
					vsym.Assert(bad[v.GetField()], "the error names a ticket whose update did not fail")
				}
			}
		}
		vsym.Assert(named == nBad, "a failed ticket id is not named (once) in the error details")
		vsym.Assert(nBad == 0 || err != nil, "success although an update failed")
		if nBad > 0 {
			vsym.Reach("failures reported")
		}
	}
	vsym.Reach("both over")
}

// VerifC08Two: rosters one after the other or at the same time, with tickets in
// common.
func VerifC08Two() {
	vSetup()
	conns := []string{vId("connection0"), vId("connection1")}
	ids := make([][]string, 2)
	withErr := make([]bool, 2)
	fail := map[string]bool{}
	for c := 0; c < 2; c++ {
		n := vsym.Choose(vN("tickets", c), 3)
		for i := 0; i < n; i++ {
			id := []string{"", "a", "b"}[vsym.Choose(vN(vN("ticket", c), i), 3)]
			ids[c] = append(ids[c], id)
			if id == "" {
				withErr[c] = true
			} else if vsym.Choose(vN(vN("fails", c), i), 2) == 1 {
				withErr[c] = true
				fail[vN(vN("", c), i)] = true
			}
		}
	}
	pos := []int{0, 0}
	next := func(c int) (string, string, bool) { // the next ticket with an id
		for pos[c] < len(ids[c]) {
			i := pos[c]
			pos[c]++
			if ids[c][i] != "" {
				return ids[c][i], vN(vN("", c), i), true
			}
		}
		return "", "", false
	}
	together := vsym.Choose("together", 2) == 1
	if together {
		vsym.Assume(conns[0] != conns[1])
	}
	cur := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		a := &pb.Assignment{}
		vsym.Assert(r.Update.Cmd == store.Assign && proto.Unmarshal([]byte(r.Update.Value), a) == nil, "the queued assignment does not decode")
		c := cur
		if together {
			c = vsym.B2I(a.Connection == conns[1])
			vsym.Assert(vsym.Or(c == 1, a.Connection == conns[0]), "the queued assignment differs from the requested one")
		} else {
			vsym.Assert(a.Connection == conns[c], "the queued assignment differs from the requested one")
		}
		id, key, ok := next(c)
		vsym.Assert(ok && r.Update.Key == id, "assignment queued for another ticket or out of order")
		if fail[key] {
			return &store.StateResponse{Result: r.Update.Key, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	call := func(c int) {
		roster := &pb.Roster{Name: "r", Assignment: &pb.Assignment{Connection: conns[c]}}
		for _, id := range ids[c] {
			roster.Tickets = append(roster.Tickets, &pb.Ticket{Id: id})
		}
		_, err := (&grpcServer{}).CreateAssignments(context.Background(), &pb.CreateAssignmentsRequest{AssignmentRoster: roster})
		_, _, ok := next(c)
		vsym.Assert(!ok, "not exactly one update per ticket with an id")
		vsym.Assert((err != nil) == withErr[c], "success or failure does not reflect the tickets and updates of this call")
	}
	if together {
		vsym.Sched("delay", vsym.Param("budget", 1))
		done := make(chan bool, 2)
		for c := 0; c < 2; c++ {
			go func(c int) { call(c); done <- true }(c)
		}
		<-done
		<-done
		vsym.Reach("at the same time")
		return
	}
	call(0)
	cur = 1
	call(1)
	vsym.Reach("one after the other")
}

// VerifC09After: a watch after another that ended, with tickets in common, and
// an assignment that is replaced in between.
func VerifC09After() {
	vSetup()
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 2)
	id, other := vOldId(0), vOldId(1)
	first := vsym.Choose("first arrives", 3) // before, during, never
	if first == 0 {
		tc.Assignments.Store(id, &pb.Assignment{Connection: "1"})
	} else if first == 1 {
		vsym.After(300*time.Millisecond, func() { tc.Assignments.Store(id, &pb.Assignment{Connection: "1"}) })
	}
	watch := func(conn string, ids ...string) {
		st := &vWatchStream{}
		vsym.Assert((&grpcServer{}).WatchAssignments(&pb.WatchAssignmentsRequest{TicketIds: ids}, st) == nil, "the watch failed")
		st.over = true
		n := 0
		for _, r := range st.sent {
			if r.GetId() == id {
				n++
				vsym.Assert(r.GetAssignment().GetConnection() == conn, "not the current assignment was streamed")
			}
		}
		vsym.Assert(n == vsym.B2I(conn != ""), "an assignment known before the watch ended was not streamed exactly once")
	}
	conn := ""
	if first < 2 {
		conn = "1"
	}
	watch(conn, id)
	switch vsym.Choose("then", 3) {
	case 1:
		conn = "2"
		tc.Assignments.Store(id, &pb.Assignment{Connection: "2"})
	case 2:
		conn = ""
		tc.Assignments.Delete(id)
	}
	if vsym.Choose("more", 2) == 1 {
		watch(conn, other, id)
	} else {
		watch(conn, id)
	}
	vsym.Reach("watched twice")
}
