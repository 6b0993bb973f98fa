package main

import (
	"context"
	"time"

	"verif/vsym"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	memoryReplicator "open-match.dev/core/internal/statestore/memory"
	redisReplicator "open-match.dev/core/internal/statestore/redis"
	pb "open-match.dev/pkg/pb/v2"
)

// vIsReplId: one or more digits, a dash, one or more digits.
func vIsReplId(s string) bool {
	i := 0
	for i < len(s) && vsym.And(s[i] >= '0', s[i] <= '9') {
		i++
	}
	if i == 0 || i == len(s) || s[i] != '-' || i+1 == len(s) {
		return false
	}
	for i++; i < len(s); i++ {
		if !vsym.And(s[i] >= '0', s[i] <= '9') {
			return false
		}
	}
	return true
}

// vCall runs ActivateTickets or DeactivateTickets.
func vCall(ctx context.Context, activate bool, ids []string) (error, bool) {
	if activate {
		r, err := (&grpcServer{}).ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		return err, r != nil
	}
	r, err := (&grpcServer{}).DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
	return err, r != nil
}

// VerifC06: arbitrary id lists against an arbitrary maximum.
func VerifC06() {
	vSetup()
	activate := vsym.Choose("rpc", 2) == 0
	if vsym.Choose("replicator", 2) == 0 {
		tc.Replicator = memoryReplicator.New(cfg)
	} else {
		tc.Replicator = redisReplicator.New(cfg)
	}
	n := vsym.Choose("ids", vsym.Param("maxIds", 2)+1)
	max := vsym.Int("max", 1, 6)
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", max)
	var ids []string
	for i := 0; i < n; i++ {
		if vsym.Choose(vN("dup", i), 2) == 1 && i > 0 {
			ids = append(ids, ids[0])
		} else {
			ids = append(ids, vsym.String(vN("id", i), vsym.Param("len", 4)))
		}
	}
	given := append([]string{}, ids...)
	var got []store.StateUpdate
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		got = append(got, r.Update)
		return &store.StateResponse{Result: r.Update.Key}
	})
	before := tcDump()
	err, _ := vCall(context.Background(), activate, ids)
	vsym.Assert(tcDump() == before, "the local cache was changed directly")
	if n == 0 || n > max {
		vsym.Assert(status.Code(err) == codes.InvalidArgument, "a request with no ids or too many ids is not rejected with InvalidArgument")
		vsym.Assert(len(got) == 0, "a rejected request queued updates")
		vsym.Reach("rejected")
		return
	}
	var want []string
	for _, id := range given {
		if vIsReplId(id) {
			want = append(want, id)
		}
	}
	vsym.Assert(len(got) == len(want), "number of queued updates differs from the number of well-formed ids")
	for i := range want {
		vsym.Assert(got[i].Key == want[i], "queued updates are not the requested ids in request order")
		if activate {
			vsym.Assert(got[i].Cmd == store.Activate, "update of the wrong kind")
		} else {
			vsym.Assert(got[i].Cmd == store.Deactivate, "update of the wrong kind")
		}
	}
	vsym.Assert(vsym.Or(err == nil, len(want) < n), "a request with only well-formed ids failed although storage accepted it")
	if len(want) == n {
		vsym.Reach("all well-formed")
	}
	if len(want) == 0 {
		vsym.Reach("none well-formed")
	}
}

// VerifC06Big: the limit at its default value.
func VerifC06Big() {
	vSetup()
	max := vsym.Int("max", 1, 40)
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", max)
	n := vsym.Choose("n", vsym.Param("maxIds", 12)+1)
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, "1700000000000-"+string(rune('a'-49+i%10)))
	}
	if n > 0 { // the format knows no limits
		ids[n-1] = []string{ids[n-1], "0-0", "18446744073709551615-18446744073709551615", "000000000000000000000000000000000001-00000000000000000000000000000000007"}[vsym.Choose("last", 4)]
	}
	for i := 0; i < n && i < 2; i++ {
		vCached(vN("cached", i), ids[i])
	}
	ctx, midway := vCtx()
	q := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		if i == 0 {
			midway()
		}
		vsym.Assert(i < n && r.Update.Key == ids[i], "update for another id or out of order")
		q++
		return &store.StateResponse{Result: r.Update.Key}
	})
	before := tcDump()
	err, _ := vCall(ctx, vsym.Choose("rpc", 2) == 0, ids)
	vsym.Assert(tcDump() == before, "the local cache was changed directly")
	if n == 0 || n > max {
		vsym.Assert(status.Code(err) == codes.InvalidArgument && q == 0, "limit on updates per call not enforced")
		vsym.Reach("rejected")
	} else {
		vsym.Assert(err == nil && q == n, "a request within the limit was not carried out")
		vsym.Reach("accepted")
	}
}

// VerifC07: all subsets of failing updates.
func VerifC07() {
	vSetup()
	activate := vsym.Choose("rpc", 2) == 0
	n := 1 + vsym.Choose("ids", vsym.Param("maxIds", 3))
	late := vsym.Choose("late", 2) == 1
	ctx, midway := vCtx()
	var ids []string
	fails := map[string]bool{}
	anyFail := false
	var fail []bool
	for i := 0; i < n; i++ {
		if i == 1 && vsym.Choose("repeated", 2) == 1 {
			ids = append(ids, ids[0])
		} else {
			ids = append(ids, "17000000000"+string(rune('0'+i))+"-"+string(rune('0'+i)))
		}
		f := vsym.Choose(vN("fails", i), 2) == 1
		fail = append(fail, f)
		fails["ticketId/"+ids[i]] = fails["ticketId/"+ids[i]] || f
		anyFail = anyFail || f
	}
	answered := 0
	resp := func(k string, f bool) *store.StateResponse {
		if f {
			return &store.StateResponse{Result: k, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	}
	if late {
		go func() {
			for i := 0; ; i++ {
				r := <-tc.UpRequests
				f := fail[i]
				if i == 0 {
					midway()
				}
				vsym.After(time.Duration(i+1)*50*time.Millisecond, func() {
					answered++
					r.ResultsChan <- resp(r.Update.Key, f)
				})
			}
		}()
	} else {
		vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
			if i == 0 {
				midway()
			}
			answered++
			return resp(r.Update.Key, fail[i])
		})
	}
	err, _ := vCall(ctx, activate, ids)
	vsym.Assert(answered == n, "the call returned before storage had answered all of its updates")
	if !anyFail {
		vsym.Assert(err == nil, "error although storage accepted every update")
		vsym.Reach("all accepted")
		return
	}
	vsym.Assert(err != nil, "success although an update failed")
	st, ok := status.FromError(err)
	vsym.Assert(ok && st.Code() == codes.InvalidArgument, "a failed update is not reported as InvalidArgument")
	named := map[string]int{}
	for _, d := range st.Details() {
		if br, ok := d.(*errdetails.BadRequest); ok {
			for _, v := range br.GetFieldViolations() {
				named[v.GetField()]++
				vsym.Assert(fails[v.GetField()], "the error names a ticket whose update did not fail")
			}
		}
	}
	for k, f := range fails {
		if f {
			vsym.Assert(named[k] == 1, "a failed ticket id is not named (once) in the error details")
		}
	}
	vsym.Reach("failures reported")
}

// VerifC07Two: two calls at the same time.
func VerifC07Two() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	fails := map[string]bool{}
	lists := make([][]string, 2)
	rpc := make([]int, 2)
	for c := 0; c < 2; c++ {
		rpc[c] = vsym.Choose(vN("rpc", c), 2)
		n := 1 + vsym.Choose(vN("ids", c), vsym.Param("maxIds", 2))
		for i := 0; i < n; i++ {
			id := vN(vN("170000000000", c)+"-", i)
			lists[c] = append(lists[c], id)
			fails[id] = vsym.Choose(vN(vN("fails", c), i), 2) == 1
		}
	}
	late := vsym.Choose("late", 2) == 1
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		id := r.Update.Key
		_, ok := fails[id]
		vsym.Assert(ok, "an update for a ticket nobody asked for")
		want := store.Deactivate
		if rpc[int(id[12]-'0')] == 0 {
			want = store.Activate
		}
		vsym.Assert(r.Update.Cmd == want, "an update of the other call's kind")
		if late {
			time.Sleep(50 * time.Millisecond)
		}
		if fails[id] {
			return &store.StateResponse{Result: id, Err: vErrStorage}
		}
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	done := make(chan bool, 2)
	call := func(c int) {
		err, _ := vCall(context.Background(), rpc[c] == 0, lists[c])
		named := map[string]bool{}
		st, _ := status.FromError(err)
		for _, d := range st.Details() {
			if br, ok := d.(*errdetails.BadRequest); ok {
				for _, v := range br.GetFieldViolations() {
					named[v.GetField()] = true
				}
			}
		}
		n := 0
		for _, id := range lists[c] {
			if fails[id] {
				n++
				vsym.Assert(named["ticketId/"+id], "a failed ticket id is not named in the error details")
			}
		}
		vsym.Assert(len(named) == n, "the error names a ticket whose update did not fail in this call")
		vsym.Assert((err == nil) == (n == 0), "success or failure does not reflect this call's updates")
		done <- true
	}
	for c := 0; c < 2; c++ {
		go call(c)
	}
	<-done
	<-done
	vsym.Reach("both over")
}
