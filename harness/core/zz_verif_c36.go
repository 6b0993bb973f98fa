package main

import (
	"context"
	"time"

	"verif/vsym"

	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC36: functions may work for as long as the configuration allows,
// whatever becomes of the caller and of other functions, and no longer.
func VerifC36() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	const limit = 2 * time.Second
	cfg.Set("OM_MMF_TIMEOUT_SECS", 2)
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", vsym.Choose("wait", 2) == 1)
	answered := map[string]int{}
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		id := r.Update.Key
		answered[id]++
		vsym.After(0, func() { tc.InactiveSet.Store(id, true) })
		return &store.StateResponse{Result: "9-9"}
	})
	var fs []*vMmf
	nF := 1 + vsym.Choose("functions", vsym.Param("maxMmfs", 2))
	k := 0
	inTime := make([]int, nF) // results that a function can make in time
	for i := 0; i < nF; i++ {
		f := &vMmf{}
		f.delay = []time.Duration{0, 700 * time.Millisecond, 1500 * time.Millisecond, 5 * time.Second}[vsym.Choose(vN("delay", i), 4)]
		n := 1 + vsym.Choose(vN("matches", i), vsym.Param("maxMatches", 2))
		for j := 0; j < n; j++ {
			m := &pb.Match{Id: vN("m", k), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: vN("1700000000000-", k)}}}}}
			f.results = append(f.results, &pb.StreamedMmfResponse{Match: m})
			k++
			if time.Duration(j+1)*f.delay < limit {
				inTime[i]++
			}
		}
		if i > 0 {
			switch vsym.Choose(vN("end", i), 3) {
			case 1:
				f.fails = true
			case 2:
				f.refuse = true
				inTime[i] = 0
			}
		}
		fs = append(fs, f)
	}
	ctx, cancel := context.WithCancel(context.Background())
	switch vsym.Choose("caller", 4) {
	case 1: // gone before the call
		cancel()
	case 2: // goes away meanwhile
		vsym.After(300*time.Millisecond, cancel)
		vsym.Reach("caller went away")
	case 3: // has less time than functions
		ctx, cancel = context.WithTimeout(ctx, 300*time.Millisecond)
	}
	_ = cancel
	start := time.Now()
	vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x"}, Mmfs: vStartMmfs(fs...)}, &vCaller{ctx: ctx})
	vsym.Assert(time.Since(start) < limit+time.Second, "functions were given more time than configured")
	k = 0
	for i, f := range fs {
		if !f.refuse {
			vsym.Assert(f.calls == 1, "a function was not called exactly once")
			if inTime[i] == len(f.results) {
				vsym.Assert(f.done, "a function was ended although it was in time")
			} else {
				vsym.Assert(!f.done, "a function was not ended when its time was over")
				vsym.Reach("ended by the limit")
			}
		}
		for j := range f.results {
			if j < inTime[i] {
				vsym.Assert(answered[vN("1700000000000-", k)] == 1, "the ticket of a match that was made in time was not deactivated once")
			}
			k++
		}
	}
	vsym.Reach("returned")
}
