package cache

import (
	"context"
	"strconv"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/types/known/timestamppb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// Amounts that occur in production, for anything that depends on the amount.

func vBigId(ms int64, i int) string {
	return strconv.FormatInt(ms+int64(i), 10) + "-" + strconv.Itoa(i%3)
}

// VerifC17Big: calls of many updates each, at the same time, with the default
// threshold and others; one update fails.
func VerifC17Big() {
	tc := &ReplicatedTicketCache{Cfg: vCfg(), UpRequests: make(chan *UpdateRequest)}
	vsym.Sched("fixed", vsym.Param("budget", 0))
	st := &vStorage{max: []int{7, 50, 500}[vsym.Choose("threshold", 3)]}
	tc.Cfg.Set("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", st.max)
	st.took = []time.Duration{0, 700 * time.Millisecond}[vsym.Choose("storage", 2)]
	tc.Replicator = st
	go tc.OutgoingReplicationQueue(context.Background())
	per := [][]int{{130}, {60, 50, 1}}[vsym.Choose("calls", 2)]
	fail := vsym.Int("fails", -1, 160)
	st.failAt = func(i int) bool { return i == fail }
	done := make(chan bool, len(per))
	total := 0
	for c, n := range per {
		c, n := c, n
		total += n
		go func() {
			rc := make(chan *store.StateResponse, n)
			key := func(j int) string { return strconv.Itoa(c) + "-" + strconv.Itoa(j) }
			for j := 0; j < n; j++ {
				tc.UpRequests <- &UpdateRequest{Ctx: context.Background(), Update: store.StateUpdate{Cmd: store.Activate, Key: key(j)}, ResultsChan: rc}
			}
			got := map[string]*store.StateResponse{}
			for j := 0; j < n; j++ {
				r := <-rc
				vsym.Assert(r != nil && got[r.Result] == nil, "a requester did not get one response for each of its updates")
				got[r.Result] = r
			}
			for k, s := range st.sent {
				if r := got[s.u.Key]; r != nil {
					vsym.Assert(r == s.resp, "a requester got another update's response")
					vsym.Assert((r.Err != nil) == (k == fail), "a requester got another update's response")
				}
			}
			for j := 0; j < n; j++ {
				vsym.Assert(got[key(j)] != nil, "a requester did not get one response for each of its updates")
			}
			done <- true
		}()
	}
	for range per {
		<-done
	}
	vsym.Settle(3 * time.Second)
	vsym.Assert(len(st.sent) == total, "state storage did not get every update exactly once")
	next := make([]int, len(per))
	for _, s := range st.sent {
		c := int(s.u.Key[0] - '0')
		vsym.Assert(s.u.Key[2:] == strconv.Itoa(next[c]), "updates were sent in another order than queued")
		next[c]++
	}
	vsym.Reach("many answered")
}

// VerifC18Big: many updates in polls of any size, also more than the cycle's
// share, for tickets that are created, activated, assigned, deactivated.
func VerifC18Big() {
	tc := &ReplicatedTicketCache{Cfg: vCfg()}
	vsym.Sched("fixed", vsym.Param("budget", 0))
	tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", 1<<40)
	room := []int{3, 50, 10000}[vsym.Choose("max per poll", 3)]
	tc.Cfg.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", room)
	far := &timestamppb.Timestamp{Seconds: time.Now().Unix() + 1<<20}
	n := []int{12, 110}[vsym.Choose("tickets", 2)]
	active, last := 70, 50
	if n == 12 {
		active, last = vsym.Int("activated up to", 0, 12), vsym.Int("deactivated from", 0, 12)
	}
	var ups []*store.StateUpdate
	ids := make([]string, n)
	var want []bool
	for i := range ids {
		ids[i] = vBigId(1700000000000, i)
		ups = append(ups, &store.StateUpdate{Cmd: store.Ticket, Key: ids[i], Value: vBytes(&pb.Ticket{ExpirationTime: far, Attributes: &pb.Ticket_FilterableData{Tags: []string{ids[i]}}})})
	}
	for i, id := range ids {
		inact := true
		if i < active {
			ups = append(ups, &store.StateUpdate{Cmd: store.Activate, Key: id})
			inact = false
		}
		if i%2 == 0 {
			ups = append(ups, &store.StateUpdate{Cmd: store.Assign, Key: id, Value: vBytes(&pb.Assignment{Connection: "c" + id})})
		}
		if i >= last {
			ups = append(ups, &store.StateUpdate{Cmd: store.Deactivate, Key: id})
			inact = true
		}
		want = append(want, inact)
	}
	st := &vScript{}
	cycles := len(ups) / 3
	size := []int{9, len(ups)}[vsym.Choose("poll size", 2)]
	for len(ups) > 0 {
		if size > len(ups) {
			size = len(ups)
		}
		st.polls = append(st.polls, ups[:size])
		ups = ups[size:]
	}
	tc.Replicator = st
	vCycles(tc, len(st.polls)+cycles/room*3+3)
	for i, id := range ids {
		_, in := tc.InactiveSet.Load(id)
		vsym.Assert(in == want[i], "an id is not in the inactive set exactly when the updates, in order, say so")
		v, ok := tc.Tickets.Load(id)
		vsym.Assert(ok, "a replicated ticket is not in the cache")
		t := v.(*pb.Ticket)
		vsym.Assert(t.GetId() == id && t.GetAttributes().GetTags()[0] == id, "a cached ticket differs from the replicated one")
		v, ok = tc.Assignments.Load(id)
		vsym.Assert(ok == (i%2 == 0), "an assignment is not in the cache exactly when the updates say so")
		vsym.Assert(!ok || v.(*pb.Assignment).GetConnection() == "c"+id, "a cached assignment differs from the replicated one")
	}
	vsym.Reach("many applied")
}

// VerifC19Big: a cache of many entries, each with an inactive entry, ticket
// and assignment or some of them; what is older than any limit has expired.
func VerifC19Big() {
	tc := &ReplicatedTicketCache{Cfg: vCfg(), Replicator: &vScript{}}
	vsym.MapOrder(false)
	vsym.Sched("fixed", 0)
	const n = 60
	tc.Cfg.Set("OM_CACHE_TICKET_TTL_SECS", 3600)
	tc.Cfg.Set("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 600)
	now := time.Now().UnixMilli() + 500
	// ids a second apart; those up to old are older than the ticket TTL, those
	// up to gone also than the assignment TTL
	off := int64(vsym.Int("age", 0, n)) * 1000
	by := int64(vsym.Int("by ms", -1, 1))
	far := &timestamppb.Timestamp{Seconds: time.Now().Unix() + 1<<20}
	ids := make([]string, 2*n)
	for i := range ids {
		ms := now - 3600*1000 - off - by + int64(i%n)*1000
		if i >= n {
			ms -= 600 * 1000
		}
		ids[i] = strconv.FormatInt(ms, 10) + "-" + strconv.Itoa(i)
		if i%3 > 0 {
			tc.Tickets.Store(ids[i], &pb.Ticket{Id: ids[i], ExpirationTime: far})
		}
		if i%2 > 0 {
			tc.InactiveSet.Store(ids[i], true)
		}
		if i%5 > 0 {
			tc.Assignments.Store(ids[i], &pb.Assignment{Connection: ids[i]})
		}
	}
	vCycles(tc, 1)
	for i, id := range ids {
		over := off + by - int64(i%n)*1000 // by how much it is too old
		old := i >= n || over > 0
		gone := i >= n && over > 0
		_, t := tc.Tickets.Load(id)
		vsym.Assert(t == (i%3 > 0 && !(old && i%2 > 0)), "a ticket was not removed exactly when it had expired")
		_, in := tc.InactiveSet.Load(id)
		vsym.Assert(in == (i%2 > 0 && !old), "an inactive entry was not removed exactly when its id is older than the ticket TTL")
		_, a := tc.Assignments.Load(id)
		vsym.Assert(a == (i%5 > 0 && !gone), "an assignment was not removed exactly when its time was over")
	}
	vsym.Reach("many entries")
}
