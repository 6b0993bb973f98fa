package memoryReplicator

import (
	"strconv"
	"strings"
	"time"

	"verif/vsym"

	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

// VerifC25: batches sent at various instants while a reader polls. The clock
// goes on by any amount at every reading.
func VerifC25() {
	cfg := viper.New()
	cfg.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	cfg.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 500)
	mode := "delay"
	if vsym.Param("sched", 0) == 1 {
		mode = "preempt"
	}
	vsym.Sched(mode, vsym.Param("budget", 1))
	m := New(cfg)
	vsym.Ticking(2 * time.Millisecond)
	nB := 1 + vsym.Choose("batches", vsym.Param("maxBatches", 2))
	var want []store.StateUpdate
	var res []*store.StateResponse
	var pb [][]*store.StateUpdate
	for b := 0; b < nB; b++ {
		n := vsym.Choose(vN("updates", b), vsym.Param("maxUpdates", 2)+1)
		var us []*store.StateUpdate
		for i := 0; i < n; i++ {
			k := len(want)
			u := &store.StateUpdate{Cmd: vsym.Choose(vN("ticket", k), 2), Key: vsym.String(vN("key", k), 1), Value: vsym.String(vN("value", k), 1)}
			if u.Cmd == 1 {
				u.Cmd = vsym.Int(vN("cmd", k), 1, 3)
			}
			us = append(us, u)
			want = append(want, *u)
		}
		pb = append(pb, us)
	}
	done := make(chan bool, 1)
	pause := vsym.Choose("pause", 2) == 1
	go func() {
		for b, us := range pb {
			if b > 0 && pause {
				time.Sleep(700 * time.Millisecond)
			}
			rs := m.SendUpdates(us)
			vsym.Assert(len(rs) == len(us), "not one response for each update")
			res = append(res, rs...)
		}
		done <- true
	}()
	var got []store.StateUpdate
	sent := false
	slow := vsym.Choose("slow reader", 2) == 1
	for i := 0; i < 8; i++ {
		if slow {
			time.Sleep(1500 * time.Millisecond)
		}
		for _, u := range m.GetUpdates() {
			got = append(got, *u)
		}
		select {
		case <-done:
			sent = true
		default:
		}
	}
	vsym.Assert(sent, "a batch was not taken although the reader polls")
	vsym.Assert(len(got) <= len(want), "an update was delivered twice")
	vsym.Assert(len(got) >= len(want), "an update was not delivered")
	for i, r := range res {
		vsym.Assert(r.Err == nil, "an update was refused")
		l := strings.Split(r.Result, "-")
		vsym.Assert(len(l) == 2, "an id does not consist of two numbers")
		for _, x := range l {
			n, err := strconv.ParseInt(x, 10, 64)
			vsym.Assert(err == nil && n >= 0, "an id does not consist of two numbers")
		}
		for _, o := range res[:i] {
			vsym.Assert(o.Result != r.Result, "an id was assigned twice")
		}
		vsym.Assert(vsym.And(got[i].Cmd == want[i].Cmd, got[i].Value == want[i].Value), "updates were delivered changed or out of order")
		if want[i].Cmd == store.Ticket {
			vsym.Assert(got[i].Key == r.Result, "a created ticket does not have its id as key")
			vsym.Reach("ticket")
		} else {
			vsym.Assert(got[i].Key == want[i].Key, "an update's key was changed")
		}
	}
	vsym.Reach("delivered")
}
