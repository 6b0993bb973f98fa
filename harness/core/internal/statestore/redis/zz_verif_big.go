package redisReplicator

import (
	"strconv"

	"verif/vsym"

	store "open-match.dev/core/internal/statestore/datatypes"
)

// VerifC21Big: a batch of many updates, one of them invalid and one refused.
func VerifC21Big() {
	cfg := vCfg()
	s := &vRedis{}
	n := []int{20, 60}[vsym.Choose("updates", 2)]
	bad := vsym.Int("invalid", -1, n-1)
	refused := -1
	if n == 20 {
		refused = vsym.Int("refused", -1, n-1)
	} else {
		refused = []int{-1, 0, 31, 32, 49, 50, 58}[vsym.Choose("refused", 7)]
	}
	s.add = func(i int) (string, string) {
		if i == refused {
			return "", "OOM"
		}
		return "17000000000" + strconv.Itoa(10+i) + "-0", ""
	}
	vStart(s, cfg)
	var us []*store.StateUpdate
	for i := 0; i < n; i++ {
		u := &store.StateUpdate{Cmd: i % 4, Key: "key" + strconv.Itoa(i), Value: "value" + strconv.Itoa(i)}
		if i == bad {
			u.Key, u.Value = "", ""
		}
		us = append(us, u)
	}
	want := vCopies(us)
	w := New(cfg)
	rs := w.SendUpdates(us)
	vsym.Assert(len(rs) == n, "not one response for each update")
	at := 0
	var stored []int
	for i, r := range rs {
		vsym.Assert(r != nil, "an update got no response")
		if i == bad {
			vsym.Assert(r.Err != nil && r.Result == "", "an update that was not stored is reported as stored")
			continue
		}
		if at == refused {
			vsym.Assert(r.Err != nil && r.Result == want[i].Key, "an update that was not stored is reported as stored")
		} else {
			vsym.Assert(r.Err == nil && r.Result == "17000000000"+strconv.Itoa(10+at)+"-0", "a stored update's response does not carry its stream id")
			stored = append(stored, i)
		}
		at++
	}
	// and back
	cfg.Set("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 13)
	rd := New(cfg)
	k := 0
	for p := 0; p <= n/13+1; p++ {
		l := rd.GetUpdates()
		vsym.Assert(len(l) <= 13, "a poll returned more than the configured maximum of updates")
		for _, u := range l {
			vsym.Assert(k < len(stored), "an entry was read twice")
			o := want[stored[k]]
			if o.Cmd == store.Ticket {
				vsym.Assert(u.Key == rs[stored[k]].Result && u.Value == o.Value, "an update was read back with another key or value")
			} else {
				vsym.Assert(u.Key == o.Key && (o.Cmd != store.Assign || u.Value == o.Value), "an update was read back with another key or value")
			}
			vsym.Assert(u.Cmd == o.Cmd, "an update was read back as another kind")
			k++
		}
	}
	vsym.Assert(k == len(stored), "an entry was missed")
	vsym.Reach("large batch")
}
