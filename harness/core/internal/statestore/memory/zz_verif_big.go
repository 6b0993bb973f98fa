package memoryReplicator

import (
	"strconv"
	"time"

	"verif/vsym"

	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
)

// VerifC25Big: batches of many updates.
func VerifC25Big() {
	cfg := viper.New()
	cfg.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	cfg.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 7)
	vsym.Sched("fixed", 0)
	m := New(cfg)
	n := []int{13, 120}[vsym.Choose("updates", 2)]
	cut := vsym.Int("cut", 0, n)
	var us []*store.StateUpdate
	for i := 0; i < n; i++ {
		us = append(us, &store.StateUpdate{Cmd: i % 4, Key: strconv.Itoa(i), Value: "v" + strconv.Itoa(i)})
	}
	var res []*store.StateResponse
	done := make(chan bool, 1)
	cut = vsym.Concrete(cut)
	go func() {
		res = append(res, m.SendUpdates(us[:cut])...)
		res = append(res, m.SendUpdates(us[cut:])...)
		done <- true
	}()
	var got []store.StateUpdate
	for over := false; !over; {
		for _, u := range m.GetUpdates() {
			got = append(got, *u)
		}
		select {
		case <-done:
			over = true
		default:
		}
	}
	vsym.Assert(len(res) == n && len(got) == n, "not every update was delivered and answered once")
	seen := map[string]bool{}
	for i, r := range res {
		vsym.Assert(r.Err == nil && !seen[r.Result], "an id was assigned twice")
		seen[r.Result] = true
		key := strconv.Itoa(i)
		if i%4 == store.Ticket {
			key = r.Result
		}
		vsym.Assert(got[i].Cmd == i%4 && got[i].Key == key && got[i].Value == "v"+strconv.Itoa(i), "updates were delivered changed or out of order")
	}
	vsym.Reach("large batch")
}

// VerifC25Same: more updates within one millisecond than an index of few
// digits or bits can tell apart; the clock stands still, then goes on.
func VerifC25Same() {
	cfg := viper.New()
	cfg.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	cfg.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 500)
	vsym.Sched("fixed", 0)
	vsym.StartTime(vsym.Int64("now.sec", 1500000000, 4102444800), vsym.Int64("now.nsec", 0, 999999999))
	m := New(cfg)
	n := vsym.Param("updates", 1100)
	var us []*store.StateUpdate
	for i := 0; i < n; i++ {
		us = append(us, &store.StateUpdate{Cmd: store.Ticket, Value: "v"})
	}
	seen := map[string]bool{}
	done := make(chan bool, 1)
	got := 0
	go func() {
		for over := false; !over; {
			got += len(m.GetUpdates())
			select {
			case <-done:
				over = true
			default:
			}
		}
		done <- true
	}()
	for b := 0; b < 2; b++ {
		for _, r := range m.SendUpdates(us[:n-b*(n-5)]) {
			vsym.Assert(r.Err == nil && !seen[r.Result], "an id was assigned twice")
			seen[r.Result] = true
		}
		time.Sleep(time.Millisecond)
	}
	done <- true
	time.Sleep(2 * time.Second)
	<-done
	vsym.Assert(got == n+5, "not every update was delivered once")
	vsym.Reach("same millisecond")
}
