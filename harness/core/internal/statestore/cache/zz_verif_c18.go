package cache

import (
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC18: arbitrary updates on an arbitrary cache, far from any expiration.
func VerifC18() {
	tc := &ReplicatedTicketCache{Cfg: vCfg()}
	tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", 1<<40) // nothing expires here
	far := &timestamppb.Timestamp{Seconds: time.Now().Unix() + 1<<20}

	// the cache: two ids that may be equal, each with or without a ticket,
	// inactive entry, assignment
	probe := vId("probe")
	var ids []string
	inact, tick, asg := false, -1, -1 // what the cache says about probe
	var tix []*pb.Ticket
	var as []*pb.Assignment
	add := func(i int) {
		id := vId(vN("id", i))
		for _, o := range ids {
			vsym.Assume(o != id)
		}
		ids = append(ids, id)
		is := id == probe
		if vsym.Choose(vN("ticket", i), 2) == 1 {
			tix = append(tix, &pb.Ticket{Id: id, ExpirationTime: far, Attributes: &pb.Ticket_FilterableData{Tags: []string{vN("old", i)}}})
			tc.Tickets.Store(id, proto.Clone(tix[len(tix)-1]))
			tick = vsym.IteInt(is, len(tix)-1, tick)
		}
		if vsym.Choose(vN("inactive", i), 2) == 1 {
			tc.InactiveSet.Store(id, true)
			inact = vsym.Or(inact, is)
		}
		if vsym.Choose(vN("assigned", i), 2) == 1 {
			as = append(as, &pb.Assignment{Connection: vN("old", i)})
			tc.Assignments.Store(id, proto.Clone(as[len(as)-1]))
			asg = vsym.IteInt(is, len(as)-1, asg)
		}
	}
	for i := 0; i < vsym.Param("entries", 1); i++ {
		add(i)
	}

	// the updates
	n := 1 + vsym.Choose("updates", vsym.Param("maxUpdates", 2))
	var ups []*store.StateUpdate
	for i := 0; i < n; i++ {
		u := &store.StateUpdate{Cmd: vsym.Choose(vN("cmd", i), 4), Key: vId(vN("key", i))}
		is := u.Key == probe
		switch u.Cmd {
		case store.Ticket:
			t := &pb.Ticket{Id: []string{"", "a", "other"}[vsym.Choose(vN("own id", i), 3)], ExpirationTime: far,
				Attributes: &pb.Ticket_FilterableData{Tags: []string{vsym.String(vN("tag", i), 1), "new"},
					StringArgs: map[string]string{"s": vsym.String(vN("arg", i), 1)},
					DoubleArgs: map[string]float64{"d": vsym.Float64(vN("dbl", i))}}}
			u.Value = vBytes(t)
			want := proto.Clone(t).(*pb.Ticket)
			want.Id = u.Key
			tix = append(tix, want)
			tick = vsym.IteInt(is, len(tix)-1, tick)
			inact = vsym.Or(inact, is)
		case store.Activate:
			inact = vsym.And(inact, !is)
		case store.Deactivate:
			inact = vsym.Or(inact, is)
		case store.Assign:
			a := &pb.Assignment{Connection: vsym.String(vN("connection", i), 1)}
			u.Value = vBytes(a)
			as = append(as, a)
			asg = vsym.IteInt(is, len(as)-1, asg)
		}
		ups = append(ups, u)
	}
	// delivered in one or two polls
	cut := vsym.Choose("cut", n+1)
	tc.Replicator = &vScript{polls: [][]*store.StateUpdate{ups[:cut], ups[cut:]}}
	vCycles(tc, 2)

	_, ok := tc.InactiveSet.Load(probe)
	vsym.Assert(vsym.Iff(ok, inact), "an id is not in the inactive set exactly when the updates say so")
	v, ok := tc.Tickets.Load(probe)
	vsym.Assert(vsym.Iff(ok, tick >= 0), "a ticket is not in the cache exactly when the updates say so")
	if ok {
		for i, t := range tix {
			vsym.Assert(vsym.Implies(tick == i, proto.Equal(t, v.(*pb.Ticket))), "a cached ticket differs from the replicated one")
		}
		vsym.Reach("ticket")
	}
	v, ok = tc.Assignments.Load(probe)
	vsym.Assert(vsym.Iff(ok, asg >= 0), "an assignment is not in the cache exactly when the updates say so")
	if ok {
		for i, a := range as {
			vsym.Assert(vsym.Implies(asg == i, proto.Equal(a, v.(*pb.Assignment))), "a cached assignment differs from the replicated one")
		}
		vsym.Reach("assignment")
	}
	vsym.Reach("applied")
}

// VerifC18Order: several polls in a row, whoever is slow.
func VerifC18Order() {
	tc := &ReplicatedTicketCache{Cfg: vCfg()}
	tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", 1<<40)
	tc.Cfg.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 1+vsym.Choose("max per poll", 2))
	far := &timestamppb.Timestamp{Seconds: time.Now().Unix() + 1<<20}
	n := 2 + vsym.Choose("updates", vsym.Param("maxUpdates", 3)-1)
	st := &vScript{}
	inact, has, assigned, tick, asg := false, false, false, "", "" // what the updates make of the id
	for i := 0; i < n; i++ {
		u := &store.StateUpdate{Cmd: vsym.Choose(vN("cmd", i), 4), Key: "a"}
		switch u.Cmd {
		case store.Ticket:
			inact, tick = true, vsym.String(vN("tag", i), 1)
			has = true
			u.Value = vBytes(&pb.Ticket{ExpirationTime: far, Attributes: &pb.Ticket_FilterableData{Tags: []string{tick}}})
		case store.Activate:
			inact = false
		case store.Deactivate:
			inact = true
		case store.Assign:
			asg = vsym.String(vN("connection", i), 1)
			assigned = true
			u.Value = vBytes(&pb.Assignment{Connection: asg})
		}
		if i > 0 && vsym.Choose(vN("same poll", i), 2) == 1 {
			st.polls[len(st.polls)-1] = append(st.polls[len(st.polls)-1], u)
		} else {
			st.polls = append(st.polls, []*store.StateUpdate{u})
		}
	}
	tc.Replicator = st
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	vCycles(tc, n+1)
	_, ok := tc.InactiveSet.Load("a")
	vsym.Assert(ok == inact, "an id is not in the inactive set exactly when the updates, in order, say so")
	v, ok := tc.Tickets.Load("a")
	vsym.Assert(ok == has, "a ticket is not in the cache exactly when the updates say so")
	if ok {
		vsym.Assert(v.(*pb.Ticket).GetAttributes().GetTags()[0] == tick, "the cached ticket is not the last one replicated")
	}
	v, ok = tc.Assignments.Load("a")
	vsym.Assert(ok == assigned, "an assignment is not in the cache exactly when the updates say so")
	if ok {
		vsym.Assert(v.(*pb.Assignment).GetConnection() == asg, "the cached assignment is not the last one replicated")
	}
	vsym.Reach("ordered")
}
