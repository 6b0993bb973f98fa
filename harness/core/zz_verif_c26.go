package main

import (
	"context"

	"verif/vsym"

	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	memoryReplicator "open-match.dev/core/internal/statestore/memory"
	redisReplicator "open-match.dev/core/internal/statestore/redis"
)

// VerifC26: one id of arbitrary bytes against both formats.
func VerifC26() {
	vSetup()
	if vsym.Choose("replicator", 2) == 0 {
		tc.Replicator = memoryReplicator.New(cfg)
	} else {
		tc.Replicator = redisReplicator.New(cfg)
	}
	id := vsym.String("id", vsym.Param("len", 8))
	q := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		vsym.Assert(r.Update.Key == id, "an update for another id was queued")
		q++
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	vCall(context.Background(), vsym.Choose("rpc", 2) == 0, []string{id})
	// one dash, digits before and after it
	dash, dashes, ok := 0, 0, true
	for i := 0; i < len(id); i++ {
		d := id[i] == '-'
		dashes += vsym.B2I(d)
		dash = vsym.IteInt(d, i, dash)
		ok = vsym.And(ok, vsym.Or(d, vsym.And(id[i] >= '0', id[i] <= '9')))
	}
	ok = vsym.And(ok, dashes == 1, dash > 0, dash < len(id)-1)
	vsym.Assert(q <= 1, "more than one update for one id")
	vsym.Assert(vsym.Iff(q == 1, ok), "the id format does not accept exactly digits-dash-digits")
	if q == 1 {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
}

// VerifC26Long: ids of the lengths storage assigns, with an arbitrary byte
// inserted anywhere.
func VerifC26Long() {
	vSetup()
	if vsym.Choose("replicator", 2) == 0 {
		tc.Replicator = memoryReplicator.New(cfg)
	} else {
		tc.Replicator = redisReplicator.New(cfg)
	}
	good := vDigits("head", []int{13, 14, 20, 1}[vsym.Choose("headLen", 4)]) + "-" + vDigits("seq", []int{1, 3, 5, 20}[vsym.Choose("seqLen", 4)])
	bad := vsym.String("byte", 1)
	vsym.Assume(len(bad) == 1)
	vsym.Assume(vsym.Or(bad[0] < '0', bad[0] > '9'))
	id := good
	if at := vsym.Choose("at", 43); at > 0 {
		vsym.Assume(at-1 <= len(good))
		id = good[:at-1] + bad + good[at-1:]
	}
	q := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		q++
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	vCall(context.Background(), true, []string{id})
	vsym.Assert((q == 1) == (id == good), "the id format does not accept exactly the ids storage assigns")
	if q == 1 {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
}

// vDigits is any run of n digits.
func vDigits(name string, n int) string {
	s := vsym.String(name, n)
	vsym.Assume(len(s) == n)
	for i := 0; i < n; i++ {
		vsym.Assume(vsym.And(s[i] >= '0', s[i] <= '9'))
	}
	return s
}

// VerifC26Odd: texts that number parsers and lenient formats take for ids.
func VerifC26Odd() {
	vSetup()
	if vsym.Choose("replicator", 2) == 0 {
		tc.Replicator = memoryReplicator.New(cfg)
	} else {
		tc.Replicator = redisReplicator.New(cfg)
	}
	odd := []string{"\u0661\u0662-\u0663", "\uff11-\uff12", "1-\u0663", "\u0661-3", "+1-1", "1-+1", "-1-1", "1--1", "0x1f-0", "1_0-1", "1e3-0", "1.0-0",
		"1-1\n", "\n1-1", "x\n1-1", "1-1\nx", "1-1\r", "1-1\x00", "\ufeff1-1", "1\u20131", "1-*", "*", "$", "-", "0", "1-", "-1", "1-1-1", "\u00b2-1", " 1-1", "1 -1", "\xff1-1", "1-1\xff"}
	fine := []string{"0-0", "00-00", "1-1", "1700000000000-0", "18446744073709551616-99999999999999999999999"}
	i := vsym.Choose("id", len(odd)+len(fine))
	q := 0
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		q++
		return &store.StateResponse{Result: "1700000000999-0"}
	})
	activate := vsym.Choose("rpc", 2) == 0
	if i < len(odd) {
		vCall(context.Background(), activate, []string{odd[i]})
		vsym.Assert(q == 0, "the id format accepts a text that is not digits, dash, digits")
		vsym.Reach("rejected")
	} else {
		vCall(context.Background(), activate, []string{fine[i-len(odd)]})
		vsym.Assert(q == 1, "the id format rejects digits, dash, digits")
		vsym.Reach("accepted")
	}
}
