package cache

import (
	"context"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC32: two instances, the same stream, different polls.
func VerifC32() {
	far := &timestamppb.Timestamp{Seconds: time.Now().Unix() + 1<<20}
	n := 1 + vsym.Choose("updates", vsym.Param("maxUpdates", 3))
	var ups []*store.StateUpdate
	for i := 0; i < n; i++ {
		u := &store.StateUpdate{Cmd: vsym.Choose(vN("cmd", i), 4), Key: vId(vN("key", i))}
		switch u.Cmd {
		case store.Ticket:
			u.Value = vBytes(&pb.Ticket{ExpirationTime: far, Attributes: &pb.Ticket_FilterableData{Tags: []string{vsym.String(vN("tag", i), 1)}}})
		case store.Assign:
			u.Value = vBytes(&pb.Assignment{Connection: vsym.String(vN("connection", i), 1)})
		}
		ups = append(ups, u)
	}
	probe := vId("probe")
	var tcs []*ReplicatedTicketCache
	for k := 0; k < 2; k++ {
		tc := &ReplicatedTicketCache{Cfg: vCfg()}
		tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", 1<<40)
		s := &vScript{}
		if k == 0 {
			s.polls = [][]*store.StateUpdate{ups} // all at once
		} else {
			tc.Cfg.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", vsym.Int("max per poll", 1, 3))
			last := 0
			for i := 1; i <= n; i++ {
				if i == n || vsym.Choose(vN("cut", i), 2) == 1 {
					s.polls = append(s.polls, ups[last:i])
					last = i
				}
			}
		}
		tc.Replicator = s
		tcs = append(tcs, tc)
	}
	go tcs[0].IncomingReplicationQueue(context.Background())
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	go tcs[1].IncomingReplicationQueue(context.Background())
	time.Sleep(time.Duration(n+2) * 500 * time.Millisecond)

	_, ok0 := tcs[0].InactiveSet.Load(probe)
	_, ok1 := tcs[1].InactiveSet.Load(probe)
	vsym.Assert(vsym.Iff(ok0, ok1), "two instances that read the same updates disagree on whether an id is inactive")
	t0, ok0 := tcs[0].Tickets.Load(probe)
	t1, ok1 := tcs[1].Tickets.Load(probe)
	vsym.Assert(vsym.Iff(ok0, ok1), "two instances that read the same updates disagree on whether there is a ticket")
	if ok0 {
		vsym.Assert(proto.Equal(t0.(*pb.Ticket), t1.(*pb.Ticket)), "two instances that read the same updates hold different tickets")
		vsym.Reach("ticket")
	}
	a0, ok0 := tcs[0].Assignments.Load(probe)
	a1, ok1 := tcs[1].Assignments.Load(probe)
	vsym.Assert(vsym.Iff(ok0, ok1), "two instances that read the same updates disagree on whether there is an assignment")
	if ok0 {
		vsym.Assert(proto.Equal(a0.(*pb.Assignment), a1.(*pb.Assignment)), "two instances that read the same updates hold different assignments")
		vsym.Reach("assignment")
	}
	vsym.Reach("compared")
}
