package main

import (
	"context"
	"errors"
	"time"

	"verif/vsym"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// vWatchStream records what is streamed to the caller.
type vWatchStream struct {
	sent []*pb.StreamedWatchAssignmentsResponse
	busy int
	over bool

	failAt int // this Send and all later ones fail, if not 0
}

func (s *vWatchStream) Send(r *pb.StreamedWatchAssignmentsResponse) error {
	vsym.Assert(!s.over, "sent to the caller's stream after the watch returned")
	s.busy++
	vsym.Assert(s.busy == 1, "concurrent sends on the caller's stream")
	s.sent = append(s.sent, proto.Clone(r).(*pb.StreamedWatchAssignmentsResponse))
	s.busy--
	if s.failAt > 0 && len(s.sent) >= s.failAt {
		return errors.New("stream failed")
	}
	return nil
}
func (s *vWatchStream) SetHeader(metadata.MD) error  { return nil }
func (s *vWatchStream) SendHeader(metadata.MD) error { return nil }
func (s *vWatchStream) SetTrailer(metadata.MD)       {}
func (s *vWatchStream) Context() context.Context     { return context.Background() }
func (s *vWatchStream) SendMsg(any) error            { return nil }
func (s *vWatchStream) RecvMsg(any) error            { return nil }

// VerifC09: assignments arrive before, during, near the end of, or after the
// watch, or never.
func VerifC09() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	const ttl = 3
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", ttl)
	n := 1 + vsym.Choose("ids", vsym.Param("maxIds", 2))
	var ids []string
	when := make([]int, n)
	late := false
	for i := 0; i < n; i++ {
		// ids from an hour ago: the watch lasts TTL from now
		ids = append(ids, vOldId(i))
		when[i] = vsym.Choose(vN("arrives", i), 5)
		a := &pb.Assignment{Connection: ids[i]}
		id := ids[i]
		switch when[i] {
		case 0: // known already
			tc.Assignments.Store(id, a)
		case 1: // during the watch
			vsym.After(1200*time.Millisecond, func() { tc.Assignments.Store(id, a) })
		case 2: // after the watch
			late = true
			vsym.After(3500*time.Millisecond, func() { tc.Assignments.Store(id, a) })
		case 3: // never
		case 4: // a second before the end, just after a poll
			vsym.After(1999*time.Millisecond, func() { tc.Assignments.Store(id, a) })
		}
	}
	if vsym.Choose("other", 2) == 1 {
		tc.Assignments.Store("1600000000000-9", &pb.Assignment{Connection: "other"})
	}
	before := tcDump()
	st := &vWatchStream{}
	err := (&grpcServer{}).WatchAssignments(&pb.WatchAssignmentsRequest{TicketIds: ids}, st)
	st.over = true
	vsym.Assert(err == nil, "the watch failed")
	got := map[string]int{}
	for _, r := range st.sent {
		got[r.GetId()]++
		vsym.Assert(r.GetAssignment().GetConnection() == r.GetId(), "an assignment of another ticket was streamed")
	}
	total := 0
	for i, id := range ids {
		switch when[i] {
		case 0, 1, 4:
			vsym.Assert(got[id] == 1, "an assignment known before the watch ended was not streamed exactly once")
			total++
		default:
			vsym.Assert(got[id] == 0, "an assignment was streamed before it existed")
		}
	}
	vsym.Assert(len(st.sent) == total, "something else was streamed")
	if total == n {
		for i := range ids {
			if when[i] == 1 || when[i] == 4 {
				before = "" // changed meanwhile
			}
		}
		vsym.Assert(before == "" || tcDump() == before, "the watch changed the cache")
	}
	// life goes on after the watch
	vsym.Settle(4 * time.Second)
	vsym.Assert(len(st.sent) == total, "streamed after the watch ended")
	if late {
		vsym.Reach("late assignment")
	}
	vsym.Reach("watched")
}

// VerifC09Two: two watches with tickets in common; ids of any form.
func VerifC09Two() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", 3)
	// also of instances whose clock is ahead, or was once
	forms := []string{vOldId(0), "", "-", "x-1", "0x10-0", "12", vMsId(time.Now().Add(2*time.Second), 3), vMsId(time.Now().Add(24*365*time.Hour), 3)}
	id := forms[vsym.Choose("form", len(forms))]
	other := vOldId(1)
	lists := [][]string{{id}, {other, id}, {id, other}}
	a, b := lists[vsym.Choose("first", 3)], lists[vsym.Choose("second", 3)]
	start := time.Duration(vsym.Choose("start", 2)) * 500 * time.Millisecond
	nA := 3
	if id == forms[7] {
		nA = 2 // or it would last for a year
	}
	at := vsym.Choose("arrives", nA)
	tc.Assignments.Store(other, &pb.Assignment{Connection: other})
	if at == 0 {
		tc.Assignments.Store(id, &pb.Assignment{Connection: id})
	} else if at == 1 {
		vsym.After(1200*time.Millisecond, func() { tc.Assignments.Store(id, &pb.Assignment{Connection: id}) })
	}
	done := make(chan bool, 2)
	watch := func(ids []string, wait time.Duration) {
		time.Sleep(wait)
		st := &vWatchStream{}
		err := (&grpcServer{}).WatchAssignments(&pb.WatchAssignmentsRequest{TicketIds: ids}, st)
		st.over = true
		vsym.Assert(err == nil, "the watch failed")
		for _, x := range ids {
			n, want := 0, 1
			for _, r := range st.sent {
				vsym.Assert(r.GetAssignment().GetConnection() == r.GetId(), "an assignment of another ticket was streamed")
				if r.GetId() == x {
					n++
				}
			}
			if x == id && at == 2 {
				want = 0
			}
			vsym.Assert(n == want, "an assignment known before the watch ended was not streamed exactly once")
		}
		done <- true
	}
	go watch(a, 0)
	go watch(b, start)
	<-done
	<-done
	if _, ok := tc.Assignments.Load(other); !ok {
		vsym.Assert(false, "the watch changed the cache")
	}
	vsym.Reach("watched")
}

func vOldId(i int) string {
	return vMsId(time.Now().Add(-time.Hour), i)
}
