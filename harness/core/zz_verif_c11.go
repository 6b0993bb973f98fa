package main

import (
	"context"
	"strconv"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// vScript is state storage that delivers prepared updates, one list per poll.
type vScript struct {
	vStore
	polls [][]*store.StateUpdate
}

func (s *vScript) GetUpdates() []*store.StateUpdate {
	if len(s.polls) == 0 {
		time.Sleep(time.Hour)
		return nil
	}
	p := s.polls[0]
	s.polls = s.polls[1:]
	return p
}

func vTicketBytes(t *pb.Ticket) string {
	b, err := proto.Marshal(t)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// VerifC11: a maintenance cycle runs while an invocation takes its view.
//
//	x: inactive throughout, of any age and expiration
//	y: active throughout
//	z: arriving, activated or deactivated meanwhile
func VerifC11() {
	vSetup()
	vsym.Sched("delay", 0)
	vsym.MapOrder(false)
	now := time.Now()
	ttl := int64(cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) * 1000
	tick := func(id string, exp int64) *pb.Ticket {
		return &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}},
			ExpirationTime: &timestamppb.Timestamp{Seconds: exp}}
	}
	age := vsym.Int64("age of x", 0, 2*ttl)
	xid := strconv.FormatInt(now.UnixMilli()-age, 10) + "-7"
	x := tick(xid, now.Unix()+vsym.Int64("expiration of x", -700, 700))
	y := tick(vMsId(now, 1), now.Unix()+700)
	z := tick(vMsId(now, 2), now.Unix()+700)
	tc.Tickets.Store(y.Id, y)
	var ups []*store.StateUpdate
	up := func(cmd int, id, v string) { ups = append(ups, &store.StateUpdate{Cmd: cmd, Key: id, Value: v}) }
	xThere := vsym.Choose("x", 3)
	switch xThere {
	case 0: // in the cache already
		tc.InactiveSet.Store(xid, true)
		tc.Tickets.Store(xid, x)
	case 1: // expired already, entry in the inactive list still there
		tc.InactiveSet.Store(xid, true)
	}
	zThere := vsym.Choose("z", 3)
	switch zThere {
	case 1:
		tc.Tickets.Store(z.Id, z)
		tc.InactiveSet.Store(z.Id, true)
	case 2:
		tc.Tickets.Store(z.Id, z)
	}
	n := vsym.Choose("updates", vsym.Param("maxUpdates", 2)+1)
	for i := 0; i < n; i++ {
		switch vsym.Choose(vN("update", i), 6) {
		case 0:
			if xThere == 2 {
				up(store.Ticket, xid, vTicketBytes(x))
				xThere = 0
			}
		case 1:
			up(store.Deactivate, xid, "")
		case 2:
			up(store.Assign, xid, "")
		case 3:
			if zThere == 0 {
				up(store.Ticket, z.Id, vTicketBytes(z))
				zThere = 1
			}
		case 4:
			if zThere == 1 {
				up(store.Activate, z.Id, "")
				zThere = 2
			}
		case 5:
			if zThere == 2 {
				up(store.Deactivate, z.Id, "")
				zThere = 1
			}
		}
	}
	tc.Replicator = &vScript{polls: [][]*store.StateUpdate{ups}}
	f := &vMmf{}
	f.onMsg = func() {
		got := vChunks(f)["p"]
		ny := 0
		for _, p := range got {
			vsym.Assert(p.GetId() != xid, "a ticket that was never active is in a pool")
			if p.GetId() == y.Id {
				ny++
			}
		}
		vsym.Assert(ny == 1, "a ticket that is active throughout is not in its pool once")
		vsym.Assert(len(got) <= 2, "a pool holds a ticket twice")
		vsym.Reach("pool checked")
		if len(got) == 2 {
			vsym.Reach("other ticket in the pool")
		}
		if !vsym.Native() {
			vsym.Stop()
		}
	}
	req := &pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"p": {Name: "p",
		TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}}}}, Mmfs: vStartMmfs(f)}
	go tc.IncomingReplicationQueue(context.Background())
	// both the maintenance cycle and the invocation start now
	time.Sleep(time.Duration(cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")) * time.Millisecond)
	vsym.Sched(vSchedMode(), vsym.Param("budget", 2))
	vInvoke(req, &vCaller{})
}
