package redisReplicator

import (
	"time"

	"verif/vsym"

	store "open-match.dev/core/internal/statestore/datatypes"
)

// ids in stream order; as text they would sort differently
var vOrder = []string{"9-9", "9-10", "10-0", "10-2", "100-0", "1700000000000-0"}

// VerifC22: entries arrive between polls of every outcome.
func VerifC22() {
	cfg := vCfg()
	s := &vRedis{key: "om-replication"}
	total := 1 + vsym.Choose("entries", vsym.Param("maxEntries", 3))
	early := vsym.Choose("early", total+1) // there before the first poll
	keys := make([]string, total)
	for i := range keys {
		keys[i] = vsym.String(vN("key", i), 1)
		vsym.Assume(len(keys[i]) == 1)
	}
	put := func(i int) {
		s.mu.Lock()
		if i%2 == 0 {
			s.entries = append(s.entries, vEntry{vOrder[i], []string{"activate", keys[i]}})
		} else {
			s.entries = append(s.entries, vEntry{vOrder[i], []string{"ticket", keys[i]}})
		}
		s.mu.Unlock()
	}
	next := 0
	for ; next < early; next++ {
		put(next)
	}
	max := vsym.Int("max", 1, 3)
	cfg.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", max)
	mode := 0
	s.read = func(pending int) int {
		switch mode {
		case 1:
			return -1
		case 2:
			return -2
		case 3:
			return 1 // part of what is pending
		}
		return pending
	}
	s.fault = func(int) int {
		if mode >= 4 {
			return mode - 3
		}
		return 0
	}
	vStart(s, cfg)
	r := New(cfg)
	var got []*store.StateUpdate
	poll := func() {
		l := r.GetUpdates()
		vsym.Assert(len(l) <= max, "a poll returned more than the configured maximum of updates")
		got = append(got, l...)
	}
	nP := vsym.Choose("polls", vsym.Param("maxPolls", 2)+1)
	for p := 0; p < nP; p++ {
		mode = vsym.Choose(vN("poll", p), 6)
		poll()
		if next < total && vsym.Choose(vN("arrives", p), 2) == 1 {
			put(next)
			next++
		}
	}
	for ; next < total; next++ {
		put(next)
	}
	// from now on, redis answers
	mode = 0
	for i := 0; i < total+1; i++ {
		poll()
	}
	vsym.Assert(len(got) <= total, "an entry was read twice")
	vsym.Assert(len(got) >= total, "an entry was missed")
	for i, g := range got {
		if i%2 == 0 {
			vsym.Assert(vsym.And(g.Cmd == store.Activate, g.Key == keys[i]), "an entry was read out of order or repeated")
		} else {
			vsym.Assert(vsym.And(g.Cmd == store.Ticket, g.Key == vOrder[i], g.Value == keys[i]), "an entry was read out of order or repeated")
		}
	}
	vsym.Reach("all read")
}

// VerifC23: sends and polls that succeed or fail, with pools of any size.
func VerifC23() {
	cfg := vCfg()
	active, idle := vsym.Int("active", 1, 2), vsym.Int("idle", 0, 2)
	vsym.Assume(idle <= active)
	cfg.Set("OM_REDIS_POOL_MAX_ACTIVE", active)
	cfg.Set("OM_REDIS_POOL_MAX_IDLE", idle)
	s := &vRedis{}
	s.read = func(n int) int { return []int{n, -1, -2}[vsym.Choose(vN("read", s.xchgs), 3)] }
	s.fault = func(i int) int { return vsym.Choose(vN("fault", i), 3) }
	s.dial = func(i int) bool { return vsym.Choose(vN("dial", i), 2) == 0 }
	s.add = func(i int) (string, string) {
		if vsym.Choose(vN("refused", i), 2) == 1 {
			return "", "OOM"
		}
		return vN("1700000000000-", i), ""
	}
	vStart(s, cfg)
	r := New(cfg)
	n := 1 + vsym.Choose("ops", vsym.Param("maxOps", 3))
	pause := vsym.Choose("pause before", n+1)
	for i := 0; i < n; i++ {
		if i == pause { // long enough for idle connections to be tested
			time.Sleep(16 * time.Second)
		}
		switch vsym.Choose(vN("op", i), 4) {
		case 0:
			r.GetUpdates()
		case 1:
			r.SendUpdates([]*store.StateUpdate{{Cmd: store.Activate, Key: "k"}})
		case 2:
			r.SendUpdates([]*store.StateUpdate{{Cmd: store.Ticket}}) // invalid
		case 3:
			r.SendUpdates(nil)
		}
		vsym.Assert(s.conns <= 2*active, "more connections are open than the pools allow")
	}
	// everything was given back: one pool's worth of use is possible still
	s.dial = func(int) bool { return true }
	s.fault = func(int) int { return 0 }
	s.read = func(n int) int { return n }
	s.add = func(i int) (string, string) { return vN("1700000000000-", i), "" }
	for i := 0; i <= active; i++ {
		r.GetUpdates()
		r.SendUpdates([]*store.StateUpdate{{Cmd: store.Activate, Key: "k"}})
	}
	vsym.Reach("all done")
}
