package main

import (
	"errors"
	"strconv"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// vMatches runs one invocation of up to maxMmfs functions that stream up to
// maxMatches matches each, and checks what reaches the caller and when.
func vMatches(delivery bool) {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	vsym.MapOrder(false)
	wait := vsym.Choose("wait", 2) == 1
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", wait)
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", 1) // a limit for other calls
	slow := false
	if vsym.Param("slow", 0) == 1 && vsym.Choose("slow", 2) == 1 {
		// storage takes longer than functions may
		slow = true
		cfg.Set("OM_MMF_TIMEOUT_SECS", 1)
	}
	lag := time.Duration(0)
	if wait {
		lag = []time.Duration{0, 250 * time.Millisecond, 30 * time.Second, 90 * time.Second}[vsym.Choose("lag", 2)+2*vsym.Param("long", 0)]
	}

	// state storage: answers updates one after the other; what it stored is
	// applied to the local cache after the replication lag
	answered := map[string]int{}
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		vsym.Assert(r.Update.Cmd == store.Deactivate, "an update that is no deactivation was queued")
		id := r.Update.Key
		if slow {
			time.Sleep(1500 * time.Millisecond)
		}
		vsym.After(lag, func() { tc.InactiveSet.Store(id, true) })
		answered[id]++
		return &store.StateResponse{Result: "9-9"}
	})

	nF := 1 + vsym.Choose("functions", vsym.Param("maxMmfs", 2))
	var fs []*vMmf
	var orig []*pb.Match
	distinct := 0
	tick := func(name string) *pb.Ticket {
		if delivery {
			return &pb.Ticket{Id: "1700000000000-1"}
		}
		var id string
		if vsym.Param("long", 0) == 1 { // any pattern of equal ids
			c := vsym.Choose(name, distinct+1)
			if c == distinct {
				distinct++
			}
			id = vN("1700000000000-", c)
		} else {
			id = vId(name)
		}
		if name == "t00" && vsym.Param("long", 0) == 1 && vsym.Choose("known", 2) == 1 {
			tc.InactiveSet.Store(id, true)
		}
		return &pb.Ticket{Id: id}
	}
	k := 0
	for i := 0; i < nF; i++ {
		f := &vMmf{}
		n := vsym.Choose(vN("matches", i), vsym.Param("maxMatches", 1)+1)
		for j := 0; j < n; j++ {
			m := &pb.Match{Id: vN("m", k), Rosters: map[string]*pb.Roster{}}
			if delivery { // also ids that occur twice
				m.Id = vId(vN("id", k))
			}
			r := &pb.Roster{Name: "r0"}
			for t := 0; t <= k%2; t++ {
				r.Tickets = append(r.Tickets, tick(vN(vN("t", k), t)))
			}
			m.Rosters["r0"] = r
			if vsym.Choose(vN("two rosters", k), 2) == 1 {
				m.Rosters["r1"] = &pb.Roster{Name: "r1", Tickets: []*pb.Ticket{tick(vN("u", k))}}
			}
			k++
			orig = append(orig, proto.Clone(m).(*pb.Match))
			f.results = append(f.results, &pb.StreamedMmfResponse{Match: m})
		}
		if vsym.Param("fails", 1) == 1 {
			f.fails = vsym.Choose(vN("fails", i), 2) == 1
		}
		fs = append(fs, f)
	}
	if delivery && vsym.Choose("refused", 2) == 1 {
		fs = append(fs, &vMmf{refuse: true})
	}
	s := &vCaller{}
	s.onSend = func(m *pb.Match) {
		if delivery {
			return
		}
		for _, r := range m.GetRosters() {
			for _, t := range r.GetTickets() {
				vsym.Assert(answered[t.GetId()] > 0, "a match was sent before the deactivation of its tickets was answered")
				if wait && lag < time.Minute {
					_, ok := tc.InactiveSet.Load(t.GetId())
					vsym.Assert(ok, "a match was sent before its tickets were inactive in the local cache")
					vsym.Reach("waited")
				}
			}
		}
	}
	req := &pb.MmfRequest{Profile: &pb.Profile{Name: "x", Pools: map[string]*pb.Pool{"p": {Name: "p"}}}, Mmfs: vStartMmfs(fs...)}
	vInvoke(req, s)
	vsym.Reach("invoked")
	if !delivery {
		return
	}
	for _, m := range s.sent {
		n := 0
		for _, o := range orig {
			n += vsym.B2I(proto.Equal(o, m))
		}
		vsym.Assert(n > 0, "something was sent that no function made")
	}
	for _, o := range orig {
		n, want := 0, 0
		for _, p := range orig {
			want += vsym.B2I(proto.Equal(o, p))
		}
		for _, m := range s.sent {
			n += vsym.B2I(proto.Equal(o, m))
		}
		vsym.Assert(n >= want, "a match did not reach the caller before the invocation returned")
		vsym.Assert(n <= want, "a match was sent more than once")
	}
	vsym.Settle(2 * time.Second)
	vsym.Assert(len(s.sent) == k, "something was sent after the invocation returned")
	if k > 1 {
		vsym.Reach("several matches")
	}
}

func VerifC14() { vMatches(true) }
func VerifC15() { vMatches(false) }

var errVStore = errors.New("refused by storage")

// VerifC16: functions that answer anything.
func VerifC16() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", vsym.Choose("wait", 2) == 1)
	cfg.Set("OM_MAX_STATE_UPDATES_PER_CALL", 1) // a limit for other calls
	fail := vsym.Choose("storage", 2) == 1
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		id := r.Update.Key
		if fail || id == "" {
			return &store.StateResponse{Result: id, Err: errVStore}
		}
		vsym.After(0, func() { tc.InactiveSet.Store(id, true) })
		return &store.StateResponse{Result: "9-9"}
	})
	var fs []*vMmf
	nF := 1 + vsym.Choose("functions", vsym.Param("maxMmfs", 2))
	for i := 0; i < nF; i++ {
		f := &vMmf{}
		n := vsym.Choose(vN("results", i), vsym.Param("maxMatches", 1)+1)
		for j := 0; j < n; j++ {
			r := &pb.StreamedMmfResponse{}
			tk := &pb.Ticket{Id: "1700000000000-1"}
			switch vsym.Choose(vN(vN("shape", i), j), 8) {
			case 0: // no match at all
			case 1:
				r.Match = &pb.Match{}
			case 2:
				r.Match = &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"a": {}}}
			case 3:
				r.Match = &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{{}}}}}
			case 4:
				r.Match = &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{tk, tk}}, "b": {}}}
			case 5:
				r.Match = &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{tk, {}}}}}
			case 6:
				r.Match = &pb.Match{Id: "m", Rosters: map[string]*pb.Roster{"": {Name: "x", Tickets: []*pb.Ticket{{}, tk}}}}
			case 7:
				r.Match = &pb.Match{Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{tk}}, "b": {Tickets: []*pb.Ticket{tk, {Id: "not an id"}}}}}
			}
			f.results = append(f.results, r)
		}
		switch vsym.Choose(vN("end", i), 4) {
		case 1:
			f.fails = true
			vsym.Reach("failing function")
		case 2:
			f.refuse = true
		case 3: // slower than the time allowed
			if vsym.Native() {
				cfg.Set("OM_MMF_TIMEOUT_SECS", 1)
			}
			f.delay = time.Duration(2*cfg.GetInt("OM_MMF_TIMEOUT_SECS")) * time.Second
		}
		fs = append(fs, f)
	}
	specs := vStartMmfs(fs...)
	switch vsym.Choose("spec", 3) {
	case 1:
		specs = append(specs, &pb.MatchmakingFunctionSpec{})
	case 2:
		specs = append(specs, &pb.MatchmakingFunctionSpec{Host: "rest", Type: pb.MatchmakingFunctionSpec_REST})
	}
	s := &vCaller{}
	vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x"}, Mmfs: specs}, s)
	vsym.Reach("returned")
	n := len(s.sent)
	vsym.Settle(2 * time.Second)
	vsym.Assert(len(s.sent) == n, "something was sent after the invocation returned")
}

// VerifC16Many: functions of many results, which end well or badly.
func VerifC16Many() {
	vSetup()
	vsym.Sched("fixed", 0)
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", vsym.Choose("wait", 2) == 1)
	fail := vsym.Choose("storage", 2) == 1
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		id := r.Update.Key
		if fail || id == "" {
			return &store.StateResponse{Result: id, Err: errVStore}
		}
		vsym.After(0, func() { tc.InactiveSet.Store(id, true) })
		return &store.StateResponse{Result: "9-9"}
	})
	var fs []*vMmf
	for i := 0; i < 2; i++ {
		f := &vMmf{}
		n, ends := []int{3, 24, 70}, 4
		if i == 1 {
			n, ends = []int{0, 9}, 2
		}
		n = n[vsym.Choose(vN("results", i), len(n)):][:1]
		odd := vsym.Choose(vN("odd", i), 2) == 1
		for j := 0; j < n[0]; j++ {
			r := &pb.StreamedMmfResponse{Match: &pb.Match{Id: "1700000000000-"+strconv.Itoa(j), Rosters: map[string]*pb.Roster{"a": {Tickets: []*pb.Ticket{{Id: "1700000000000-"+strconv.Itoa(j)}}}}}}
			if odd && j == n[0]-1 {
				r.Match = nil
			}
			f.results = append(f.results, r)
		}
		switch vsym.Choose(vN("end", i), ends) {
		case 1:
			f.fails = true
			vsym.Reach("failing function")
		case 2:
			f.refuse = true
		case 3: // slower than the time allowed
			if vsym.Native() {
				cfg.Set("OM_MMF_TIMEOUT_SECS", 1)
			}
			f.delay = time.Duration(cfg.GetInt("OM_MMF_TIMEOUT_SECS")) * time.Second / 4
		}
		fs = append(fs, f)
	}
	s := &vCaller{}
	vInvoke(&pb.MmfRequest{Profile: &pb.Profile{Name: "x"}, Mmfs: vStartMmfs(fs...)}, s)
	vsym.Reach("returned")
	n := len(s.sent)
	vsym.Settle(2 * time.Second)
	vsym.Assert(len(s.sent) == n, "something was sent after the invocation returned")
}

// VerifC14Two: two invocations at the same time or one after the other, with
// functions of their own and in common.
func VerifC14Two() {
	vSetup()
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	vsym.MapOrder(false)
	cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", vsym.Choose("wait", 2) == 1)
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		id := r.Update.Key
		vsym.After(0, func() { tc.InactiveSet.Store(id, true) })
		return &store.StateResponse{Result: "9-9"}
	})
	var fs []*vMmf
	for i := 0; i < 3; i++ { // the last is called by both
		f := &vMmf{delay: time.Duration(vsym.Choose(vN("delay", i), 2)) * 300 * time.Millisecond}
		n := vsym.Choose(vN("matches", i), vsym.Param("maxMatches", 1)+1)
		for j := 0; j < n; j++ {
			m := &pb.Match{Id: vN(vN("m", i), j), Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{Id: vN("1700000000000-", i)}}}}}
			f.results = append(f.results, &pb.StreamedMmfResponse{Match: m})
		}
		if i < 2 {
			f.fails = vsym.Choose(vN("fails", i), 2) == 1
		}
		fs = append(fs, f)
	}
	specs := vStartMmfs(fs...)
	common := vsym.Choose("common", 2) == 1
	invoke := func(i int) {
		tags := []string{"a", "b"}
		req := &pb.MmfRequest{Profile: &pb.Profile{Name: tags[i], Pools: map[string]*pb.Pool{tags[i]: {Name: tags[i]}}}, Mmfs: specs[i : i+1]}
		want := len(fs[i].results)
		if common {
			req.Mmfs = []*pb.MatchmakingFunctionSpec{specs[i], specs[2]}
			want += len(fs[2].results)
		}
		s := &vCaller{}
		vInvoke(req, s)
		vsym.Assert(len(s.sent) == want, "not every match of the functions called reached the caller once")
		seen := map[string]bool{}
		for _, m := range s.sent {
			vsym.Assert(!seen[m.GetId()], "a match was sent more than once")
			seen[m.GetId()] = true
			f := m.GetId()[1]
			vsym.Assert(f == byte('0'+i) || common && f == '2', "a match of a function that was called for another invocation")
		}
		for _, c := range fs[i].got {
			vsym.Assert(c.GetProfile().GetName() == tags[i], "a function was sent another invocation's profile")
			_, ok := c.GetProfile().GetPools()[tags[i]]
			vsym.Assert(ok && len(c.GetProfile().GetPools()) == 1, "a function was sent another invocation's pools")
		}
	}
	if vsym.Choose("one after the other", 2) == 1 {
		invoke(0)
		invoke(1)
	} else {
		done := make(chan bool, 2)
		for i := 0; i < 2; i++ {
			go func(i int) { invoke(i); done <- true }(i)
		}
		<-done
		<-done
	}
	vsym.Reach("invoked")
}
