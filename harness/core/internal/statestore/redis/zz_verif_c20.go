package redisReplicator

import (
	"strconv"
	"time"

	"verif/vsym"

	store "open-match.dev/core/internal/statestore/datatypes"
)

// vUpdates are arbitrary valid updates.
func vUpdates(n, maxLen int) (us []*store.StateUpdate) {
	for i := 0; i < n; i++ {
		u := &store.StateUpdate{Cmd: vsym.Choose(vN("cmd", i), 4)}
		ne := func(name string) string {
			s := vsym.String(vN(name, i), maxLen)
			vsym.Assume(len(s) > 0)
			return s
		}
		if u.Cmd != store.Ticket {
			u.Key = ne("key")
		}
		if u.Cmd == store.Ticket || u.Cmd == store.Assign {
			u.Value = ne("value")
		}
		us = append(us, u)
	}
	return
}

func vCopies(us []*store.StateUpdate) (out []store.StateUpdate) {
	for _, u := range us {
		out = append(out, *u)
	}
	return
}

// vStreamIds assigns increasing ids with arbitrary instants.
func vStreamIds(s *vRedis) {
	ms := int64(1700000000000)
	seq := 0
	s.add = func(i int) (string, string) {
		if step := vsym.Choose(vN("ms step", i), 2); step > 0 {
			ms += int64(vsym.Int(vN("ms", i), 1, 1000))
			seq = 0
		} else {
			seq++
		}
		return strconv.FormatInt(ms, 10) + "-" + strconv.Itoa(seq), ""
	}
}

// VerifC20: updates written by one instance are read by two others.
func VerifC20() {
	cfg := vCfg()
	s := &vRedis{}
	vStreamIds(s)
	vStart(s, cfg)
	w := New(cfg)
	n := 1 + vsym.Choose("updates", vsym.Param("maxUpdates", 2))
	us := vUpdates(n, vsym.Param("len", 2))
	want := vCopies(us)
	cut := 0
	if n > 1 {
		cut = vsym.Choose("batches", n)
	}
	var rs []*store.StateResponse
	if cut > 0 {
		rs = w.SendUpdates(us[:cut])
	}
	rs = append(rs, w.SendUpdates(us[cut:])...)
	vsym.Assert(len(rs) == n, "not one response for each update")
	vsym.Assert(len(s.entries) == n, "an update did not become exactly one stream entry")
	for i := range want {
		vsym.Assert(rs[i].Err == nil, "a stored update was reported as failed")
		vsym.Assert(rs[i].Result == s.entries[i].id, "the response does not carry the id of the stream entry")
		if want[i].Cmd == store.Ticket {
			want[i].Key = s.entries[i].id
		}
	}
	for _, r := range []*redisReplicator{New(cfg), w} {
		got := r.GetUpdates()
		vsym.Assert(len(got) == n, "an instance did not read every update")
		for i, g := range got {
			vsym.Assert(g.Cmd == want[i].Cmd, "an update was read back as another kind")
			vsym.Assert(g.Key == want[i].Key, "an update was read back with another key")
			vsym.Assert(g.Value == want[i].Value, "an update was read back with another value")
		}
	}
	vsym.Reach("round trip")
}

// VerifC21: arbitrary outcomes for every update of a batch.
func VerifC21() {
	cfg := vCfg()
	s := &vRedis{}
	vStart(s, cfg)
	n := vsym.Choose("updates", vsym.Param("maxUpdates", 2)+1)
	var us []*store.StateUpdate
	valid := make([]bool, n)
	var refused []bool // per XADD
	var ids []string
	at := make([]int, n) // index of the update's XADD
	nv := 0
	for i := 0; i < n; i++ {
		u := &store.StateUpdate{}
		if vsym.Param("simple", 0) == 1 { // longer batches of fewer kinds
			switch vsym.Choose(vN("kind", i), 3) {
			case 0:
				u.Cmd, u.Key = store.Activate, vOne(vN("key", i))
			case 1:
				u.Cmd, u.Value = store.Ticket, vOne(vN("value", i))
			case 2:
				u.Cmd, u.Key = store.Assign, vOne(vN("key", i))
			}
		} else {
			u.Cmd = vsym.Choose(vN("cmd", i), 5)
			if u.Cmd == 4 {
				u.Cmd = vsym.Int(vN("bad cmd", i), 4, 1000)
				if vsym.Choose(vN("negative", i), 2) == 1 {
					u.Cmd = -u.Cmd
				}
			}
			if vsym.Choose(vN("has key", i), 2) == 1 {
				u.Key = vOne(vN("key", i))
			}
			if vsym.Choose(vN("has value", i), 2) == 1 {
				u.Value = vOne(vN("value", i))
			}
		}
		switch u.Cmd {
		case store.Ticket:
			valid[i] = u.Value != ""
		case store.Activate, store.Deactivate:
			valid[i] = u.Key != ""
		case store.Assign:
			valid[i] = u.Key != "" && u.Value != ""
		}
		if valid[i] {
			at[i] = nv
			refused = append(refused, vsym.Choose(vN("refused", nv), 2) == 1)
			ids = append(ids, strconv.FormatInt(int64(vsym.Int(vN("ms", nv), 1000000000000, 9999999999999)), 10)+"-"+strconv.Itoa(nv))
			nv++
		}
		us = append(us, u)
	}
	keys := vCopies(us)
	s.add = func(i int) (string, string) {
		vsym.Assert(i < nv, "an invalid update was written to the stream")
		if refused[i] {
			return "", "OOM command not allowed when used memory > 'maxmemory'."
		}
		return ids[i], ""
	}
	lost := vsym.Choose("exchange", 4)
	s.fault = func(int) int {
		if lost == 3 {
			return 0
		}
		return lost
	}
	s.dial = func(i int) bool { return lost != 3 }
	rs := New(cfg).SendUpdates(us)
	vsym.Assert(len(rs) == n, "not one response for each update")
	for i, r := range rs {
		vsym.Assert(r != nil, "an update got no response")
		switch {
		case !valid[i] || lost != 0 || refused[at[i]]:
			vsym.Assert(r.Err != nil, "an update that was not stored is reported as stored")
			vsym.Assert(r.Result == keys[i].Key, "a failed update's response does not carry its key")
			vsym.Reach("failed")
		default:
			vsym.Assert(r.Err == nil, "a stored update is reported as failed")
			vsym.Assert(r.Result == ids[at[i]], "a stored update's response does not carry its stream id")
			vsym.Reach("stored")
		}
	}
	want := 0
	if lost == 0 || lost == 2 {
		want = nv
	}
	vsym.Assert(s.adds == want, "not every valid update, and no other, was written once")
	vsym.Reach("answered")
}

// VerifC24: the trim at the end of every batch.
func VerifC24() {
	cfg := vCfg()
	ttl := vsym.Int("ttl", 1, 315360000)
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", ttl)
	s := &vRedis{}
	if !vsym.Native() {
		vsym.StartTime(vsym.Int64("now", 1500000000, 4102444800), vsym.Int64("now.nsec", 0, 999999999))
	}
	vStart(s, cfg)
	w := New(cfg)
	nB := 1 + vsym.Choose("batches", 2)
	for b := 0; b < nB; b++ {
		n := 1 + vsym.Choose(vN("updates", b), 2)
		var us []*store.StateUpdate
		for i := 0; i < n; i++ {
			us = append(us, &store.StateUpdate{Cmd: store.Activate, Key: []string{"", "k"}[vsym.Choose(vN(vN("valid", b), i), 2)]})
		}
		t0 := time.Now()
		w.SendUpdates(us)
		t1 := time.Now()
		vsym.Assert(len(s.batches) == b+1, "a batch was not one exchange with redis")
		vsym.Assert(len(s.trims) == b+1, "a batch does not trim the stream once")
		cmds := s.batches[b]
		vsym.Assert(cmds[len(cmds)-1] == "XTRIM", "the trim is not the last command of the batch")
		a := s.trims[b]
		vsym.Assert(a[0] == "om-replication" && (s.key == "" || s.key == a[0]), "another stream is trimmed")
		vsym.Assert(a[1] == "MINID", "the stream is not trimmed by age")
		v := a[2]
		if v == "=" {
			v = a[3]
		}
		vsym.Assert(v != "~", "the stream is trimmed only approximately")
		thr, seq := vIdParts(v)
		if seq != 0 {
			thr++
		}
		lo, hi := t0.UnixMilli()-int64(ttl)*1000-1000, t1.UnixMilli()-int64(ttl)*1000
		vsym.Assert(thr <= hi, "entries younger than the ticket TTL are trimmed")
		vsym.Assert(thr >= lo, "entries older than the ticket TTL by more than a second are kept")
	}
	vsym.Reach("trimmed")
}
