package cache

import (
	"strconv"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

// vAgedId is an id whose leading part is an arbitrary instant around now, or
// no instant at all; age is its age in milliseconds at the given time.
func vAgedId(name string, at time.Time, i int) (id string, age int64) {
	ms := vsym.Int64(name+".ms", 0, 1<<46)
	num := strconv.FormatInt(ms, 10)
	switch vsym.Choose(name+".form", vsym.Param("forms", 4)) {
	case 0:
		return num + "-" + strconv.Itoa(i), at.UnixMilli() - ms
	case 1:
		return num, at.UnixMilli() - ms
	case 2:
		return vN("x", i) + "-" + num, at.UnixMilli()
	default:
		return vN("-", i), at.UnixMilli()
	}
}

// VerifC19: one maintenance cycle over arbitrary entries.
func VerifC19() {
	tc := &ReplicatedTicketCache{Cfg: vCfg(), Replicator: &vScript{}}
	ttl := vsym.Int("ttl", 0, 1<<24)
	more := vsym.Int("assignment ttl", 0, 1<<24)
	tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", ttl)
	tc.Cfg.Set("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", more)
	in := time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")) * time.Millisecond
	at := time.Now().Add(in) // when the cycle runs

	type entry struct {
		id                     string
		old, passed            bool
		ticket, inactive, asgd bool
		gone                   bool // assignment too old
		t                      *pb.Ticket
		a                      *pb.Assignment
	}
	var es []*entry
	n := 1 + vsym.Choose("entries", vsym.Param("maxEntries", 1))
	for i := 0; i < n; i++ {
		e := &entry{}
		id, age := vAgedId(vN("id", i), at, i)
		e.id = id
		for _, o := range es {
			vsym.Assume(o.id != id)
		}
		e.old = age > 1000*int64(ttl)
		e.gone = age > 1000*(int64(ttl)+int64(more))
		what := vsym.Choose(vN("what", i), 8)
		e.ticket, e.inactive, e.asgd = what&1 != 0, what&2 != 0, what&4 != 0
		if e.ticket {
			e.t = &pb.Ticket{Id: id}
			e.passed = true
			if vsym.Choose(vN("expires", i), 2) == 1 {
				s, ns := vsym.Int64(vN("sec", i), at.Unix()-1<<30, at.Unix()+1<<30), vsym.Int32(vN("nanos", i), 0, 999999999)
				e.t.ExpirationTime = &timestamppb.Timestamp{Seconds: s, Nanos: ns}
				e.passed = vsym.Or(s < at.Unix(), vsym.And(s == at.Unix(), int(ns) < at.Nanosecond()))
			}
			tc.Tickets.Store(id, e.t)
		}
		if e.inactive {
			tc.InactiveSet.Store(id, true)
		}
		if e.asgd {
			e.a = &pb.Assignment{Connection: vN("c", i)}
			tc.Assignments.Store(id, e.a)
		}
		es = append(es, e)
	}
	vCycles(tc, 1)
	count := func(e *entry) (bool, bool, bool) {
		v, ok1 := tc.Tickets.Load(e.id)
		if ok1 {
			vsym.Assert(v == any(e.t), "a ticket was replaced")
		}
		_, ok2 := tc.InactiveSet.Load(e.id)
		v, ok3 := tc.Assignments.Load(e.id)
		if ok3 {
			vsym.Assert(v == any(e.a), "an assignment was replaced")
		}
		return ok1, ok2, ok3
	}
	for _, e := range es {
		t, in, a := count(e)
		if e.ticket {
			vsym.Assert(vsym.Iff(t, vsym.And(!e.passed, !(vsym.And(e.inactive, e.old)))), "a ticket was not removed exactly when it had expired")
		} else {
			vsym.Assert(!t, "a ticket appeared")
		}
		if e.inactive {
			vsym.Assert(vsym.Iff(in, !e.old), "an inactive entry was not removed exactly when its id is older than the ticket TTL")
			vsym.Assert(vsym.Implies(!in, !t), "a ticket was revived: its inactive entry was removed, but it is still cached")
		} else {
			vsym.Assert(!in, "an inactive entry appeared")
		}
		if e.asgd {
			vsym.Assert(vsym.Iff(a, !e.gone), "an assignment was not removed exactly when its time was over")
		} else {
			vsym.Assert(!a, "an assignment appeared")
		}
		if e.ticket && e.inactive {
			if in {
				vsym.Reach("kept")
			} else {
				vsym.Reach("removed")
			}
		}
	}
}
