package cache

import (
	"context"
	"errors"
	"time"

	"verif/vsym"

	store "open-match.dev/core/internal/statestore/datatypes"
)

type vSent struct {
	u    store.StateUpdate
	resp *store.StateResponse
	at   time.Duration
}

// vStorage records what is sent and makes up an answer for each update.
type vStorage struct {
	vScript
	took  time.Duration
	max   int
	sent  []vSent
	batch int
	fails int // no, every, every other update

	failAt func(i int) bool
}

func (s *vStorage) SendUpdates(us []*store.StateUpdate) []*store.StateResponse {
	vsym.Assert(len(us) > 0, "an empty batch was sent")
	vsym.Assert(len(us) <= s.max, "a batch exceeds the configured threshold")
	s.batch++
	if len(us) > 1 {
		vsym.Reach("batch of several")
	}
	var out []*store.StateResponse
	for i, u := range us {
		r := &store.StateResponse{Result: u.Key}
		if s.fails == 1 || s.fails == 2 && len(s.sent)%2 == 1 || s.failAt != nil && s.failAt(len(s.sent)) {
			r.Err = errors.New("refused")
		}
		s.sent = append(s.sent, vSent{*us[i], r, vsym.Elapsed()})
		out = append(out, r)
	}
	time.Sleep(s.took)
	return out
}

// VerifC17: senders queue updates at several instants, as the RPC handlers do.
func VerifC17() {
	tc := &ReplicatedTicketCache{Cfg: vCfg(), UpRequests: make(chan *UpdateRequest)}
	vsym.Sched(vSchedMode(), vsym.Param("budget", 1))
	st := &vStorage{max: vsym.Int("threshold", 1, 3)}
	tc.Cfg.Set("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", st.max)
	wait := []int{500, 200}[vsym.Choose("wait", vsym.Param("waits", 1))]
	tc.Cfg.Set("OM_CACHE_OUT_WAIT_TIMEOUT_MS", wait)
	st.fails = vsym.Choose("fails", 3)
	st.took = []time.Duration{0, 700 * time.Millisecond}[vsym.Choose("storage", 2)]
	tc.Replicator = st
	go tc.OutgoingReplicationQueue(context.Background())

	nS := 1 + vsym.Choose("senders", vsym.Param("maxSenders", 2))
	type req struct {
		u   store.StateUpdate
		at  time.Duration
		got *store.StateResponse
		n   int
	}
	reqs := make([][]*req, nS)
	done := make(chan int, nS)
	total := 0
	ctx := context.Background()
	switch vsym.Choose("caller", 3) {
	case 1:
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	case 2:
		c, cancel := context.WithTimeout(ctx, 600*time.Millisecond)
		defer cancel()
		ctx = c
	}
	for i := 0; i < nS; i++ {
		n := 1 + vsym.Choose(vN("requests", i), vsym.Param("maxRequests", 2))
		start := []time.Duration{0, 300 * time.Millisecond, 500 * time.Millisecond}[vsym.Choose(vN("start", i), 3)]
		gap := vsym.Choose(vN("gap", i), 2) == 1 && n > 1
		for j := 0; j < n; j++ {
			reqs[i] = append(reqs[i], &req{u: store.StateUpdate{Cmd: vsym.Int(vN(vN("cmd", i), j), 0, 3), Key: vN(vN("k", i), j), Value: vsym.String(vN(vN("v", i), j), 2)}})
			total++
		}
		i := i
		go func() {
			time.Sleep(start)
			rc := make(chan *store.StateResponse, n)
			if n == 1 { // as CreateTicket does
				rc = make(chan *store.StateResponse)
			}
			for j, r := range reqs[i] {
				if j > 0 && gap {
					time.Sleep(300 * time.Millisecond)
				}
				tc.UpRequests <- &UpdateRequest{Ctx: ctx, Update: r.u, ResultsChan: rc}
				r.at = vsym.Elapsed()
			}
			for range reqs[i] {
				got := <-rc
				vsym.Assert(got != nil, "a requester got no response")
				for _, r := range reqs[i] {
					if r.u.Key == got.Result {
						r.got = got
						r.n++
					}
				}
			}
			done <- i
		}()
	}
	for i := 0; i < nS; i++ {
		<-done
	}
	vsym.Settle(3 * time.Second)
	vsym.Assert(len(st.sent) == total, "state storage did not get every update exactly once")
	for i := range reqs {
		last := -1
		for _, r := range reqs[i] {
			vsym.Assert(r.n == 1, "a requester did not get one response for each of its updates")
			found := -1
			for k, s := range st.sent {
				if s.u.Key == r.u.Key {
					vsym.Assert(found < 0, "an update was sent twice")
					found = k
					vsym.Assert(vsym.And(s.u.Cmd == r.u.Cmd, s.u.Value == r.u.Value), "an update was changed")
					vsym.Assert(r.got == s.resp, "a requester got another update's response")
					vsym.Assert(s.at-r.at <= time.Duration(wait)*time.Millisecond, "an update was sent later than the configured wait time")
				}
			}
			vsym.Assert(found >= 0, "an update was not sent")
			vsym.Assert(found > last, "updates were sent in another order than queued")
			last = found
		}
	}
	vsym.Reach("answered")
}
