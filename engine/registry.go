package main

func filt(id, entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	return RunSpec{Mod: "core", Dir: "core/internal/filter", Pkg: "open-match.dev/core/internal/filter",
		Files: []string{"core/internal/filter/zz_verif_" + id + ".go"}, Entry: entry, Native: true, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

func invRun(id, entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	r := coreRun(id, entry, secs, p, tp, bounds, reach...)
	r.Files = append(r.Files, "core/zz_verif_mmf.go")
	return r
}

func cacheRun(id, entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	d := "core/internal/statestore/cache"
	return RunSpec{Mod: "core", Dir: d, Pkg: "open-match.dev/" + d, Fake: true, Stress: 20,
		Files: []string{d + "/zz_verif_common.go", d + "/zz_verif_" + id + ".go"}, Entry: entry, Native: true, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

func redisRun(id, entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	d := "core/internal/statestore/redis"
	return RunSpec{Mod: "core", Dir: d, Pkg: "open-match.dev/" + d,
		Files: []string{d + "/zz_verif_common.go", d + "/zz_verif_" + id + ".go"}, Entry: entry, Native: true, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

func coreRun(id, entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	return RunSpec{Mod: "core", Dir: "core", Pkg: "open-match.dev/core",
		Files: []string{"core/zz_verif_common.go", "core/zz_verif_" + id + ".go"}, Entry: entry, Native: true, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

// faked replays under the virtual clock.
func faked(r RunSpec) RunSpec {
	r.Fake, r.Stress = true, 20
	return r
}

func c26Run(entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	r := coreRun("c26", entry, secs, p, tp, bounds, reach...)
	r.Files = append(r.Files, "core/zz_verif_c06.go")
	return r
}

// more adds harness files to a run.
func more(r RunSpec, id string) RunSpec {
	r.Files = append(r.Files, r.Dir+"/zz_verif_"+id+".go")
	return r
}

// bigRun is a run of the large cases.
func bigRun(entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	return with(invRun("big", entry, secs, p, tp, bounds, reach...), "c06", "c09")
}

// twoRun is a run of calls in succession or at the same time.
func twoRun(entry string, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	return with(invRun("two", entry, [2]int{200, 600}, p, tp, bounds, reach...), "c06", "c09", "c12")
}

func mmfServerRun(entry string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	return RunSpec{Mod: "mmf/server", Dir: "mmf/server", Pkg: "open-match.dev/mmf/server",
		Files: []string{"mmf/server/zz_verif_c27.go"}, Entry: entry, Native: true, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

func fnRun(fn string, secs [2]int, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	d := "functions/golang/" + fn
	return RunSpec{Mod: d, Dir: d, Pkg: "open-match.dev/" + d,
		Files: []string{d + "/zz_verif_common.go", d + "/zz_verif_c28.go"}, Entry: "VerifC28", Native: true, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

// gatewayRun runs the generated gateway, of the workspace or the copy in core.
func gatewayRun(in, entry string, p, tp map[string]int, bounds string, reach ...string) RunSpec {
	d, mod := in+"pkg/api/v2", in
	if in == "" {
		mod = d
	}
	return RunSpec{Alone: in != "", Mod: mod, Dir: d, Pkg: "open-match.dev/pkg/api/v2", Files: []string{d + "/zz_verif_c33.go"}, Entry: entry, Native: true,
		Secs: [2]int{200, 850}, P: p, TP: tp, Bounds: bounds, Reach: reach}
}

// entry makes it a run of another function of the harness.
func entry(e string, r RunSpec) RunSpec {
	r.Entry = e
	return r
}

// with adds harness files of the core package.
func with(r RunSpec, ids ...string) RunSpec {
	for _, id := range ids {
		r.Files = append(r.Files, "core/zz_verif_"+id+".go")
	}
	return r
}

func tonly(r RunSpec) RunSpec {
	r.TOnly = true
	return r
}

type P = map[string]int

var checks = []CheckSpec{
	{ID: "C01", Runs: []RunSpec{
		filt("c01", "VerifC01Doubles", [2]int{100, 600}, P{"maxArgs": 2, "maxFilters": 2, "len": 1}, P{"maxArgs": 3, "maxFilters": 3, "len": 2}, "up to maxArgs double arguments and maxFilters filters, names up to len bytes, all 2^64 doubles", "in", "out"),
		filt("c01", "VerifC01Strings", [2]int{100, 600}, P{"maxArgs": 2, "maxFilters": 2, "len": 2}, P{"maxArgs": 3, "maxFilters": 3, "len": 3}, "up to maxArgs arguments, maxFilters filters, names and values up to len bytes", "in", "out"),
		filt("c01", "VerifC01Tags", [2]int{100, 600}, P{"maxTags": 3, "maxFilters": 2, "len": 2}, P{"maxTags": 4, "maxFilters": 3, "len": 3}, "up to maxTags tags, maxFilters filters, up to len bytes", "in", "out"),
		filt("c01", "VerifC01Mixed", [2]int{100, 300}, nil, nil, "absent or present attributes and argument maps, at most one filter per kind", "in", "out", "no attributes"),
		more(filt("c01", "VerifC01Big", [2]int{100, 300}, nil, nil, "tickets of 40 arguments of each kind with any values and 40 tags, any one missing; up to 40 filters of each kind", "in", "out"), "big"),
		more(filt("c01", "VerifC01Two", [2]int{100, 300}, nil, nil, "two tickets and two pools of any ids and names, three questions in any order", "in", "out"), "two"),
	}},
	{ID: "C02", Runs: []RunSpec{
		filt("c02", "VerifC02", [2]int{100, 300}, nil, nil, "all valid creation times, starts and ends; start/end set or unset; all bounds", "in", "out"),
		filt("c02", "VerifC02None", [2]int{30, 60}, nil, nil, "all valid creation times", "in"),
	}},
	{ID: "C03", Runs: []RunSpec{
		filt("c03", "VerifC03Validate", [2]int{60, 120}, nil, nil, "all seconds and nanos of start and end, set or unset", "accepted", "rejected"),
		more(filt("c01", "VerifC03Two", [2]int{60, 120}, nil, nil, "three pools of one name, any limits", "accepted", "rejected"), "two"),
		invRun("c10", "VerifC03Invoke", [2]int{100, 300}, P{"maxPools": 2}, P{"maxPools": 3}, "up to maxPools pools, each valid or invalid in one of three ways, one cached ticket", "invalid pool", "valid pool"),
	}},
	{ID: "C04", Runs: []RunSpec{
		faked(coreRun("c04", "VerifC04", [2]int{200, 600}, P{"len": 1}, P{"len": 3}, "arbitrary creation/expiration seconds and nanos (set or unset), any current time 2017..2100, TTL 0..10 years, up to 2 tags, one argument of each kind, one extension, strings up to len bytes", "stored")),
		twoRun("VerifC04Two", P{"budget": 1}, P{"budget": 2}, "two tickets of four shapes created one after the other or at the same time", "one after the other", "at the same time"),
		with(invRun("c04big", "VerifC04Big", [2]int{100, 300}, nil, nil, "tickets of up to 130 tags, arguments of each kind and extensions, with a text of up to 3.9 MB in any of three places", "stored")),
	}},
	{ID: "C05", Runs: []RunSpec{
		coreRun("c05", "VerifC05", [2]int{60, 120}, nil, nil, "ids up to 6 arbitrary bytes, storage accepts or fails, five request shapes, caller's context live, over or ending meanwhile", "rejected", "unencodable", "storage error", "created"),
		coreRun("c05", "VerifC05Two", [2]int{100, 600}, P{"budget": 1}, P{"budget": 2}, "two concurrent calls, storage answering each after 0, 10 or 20 ms, accepting both or refusing one; schedules with up to budget delays", "created", "refused"),
	}},
	{ID: "C06", Runs: []RunSpec{
		coreRun("c06", "VerifC06", [2]int{200, 600}, P{"maxIds": 2, "len": 4}, P{"maxIds": 3, "len": 4}, "up to maxIds ids of up to len arbitrary bytes (duplicates included), maximum 1..6, both RPCs, both replicators", "rejected", "all well-formed", "none well-formed"),
		coreRun("c06", "VerifC06Big", [2]int{60, 300}, P{"maxIds": 12}, P{"maxIds": 40}, "up to maxIds ids, maximum 1..40, the first two in any state in the local cache, any caller's context", "rejected", "accepted"),
		twoRun("VerifC07After", nil, nil, "two calls of either kind in succession with up to three of two well-formed ids and a malformed one, every pattern of failures, limit of two", "rejected", "failures reported", "both over"),
	}},
	{ID: "C07", Runs: []RunSpec{
		coreRun("c06", "VerifC07", [2]int{100, 600}, P{"maxIds": 3}, P{"maxIds": 6}, "1..maxIds ids, every subset of failing updates, storage answering at once or later", "all accepted", "failures reported"),
		coreRun("c06", "VerifC07Two", [2]int{100, 600}, P{"maxIds": 2, "budget": 1}, P{"maxIds": 2, "budget": 2}, "two concurrent calls of either kind with 1..maxIds ids each, every subset of failing updates, storage answering at once or later; schedules with up to budget delays", "both over"),
		twoRun("VerifC07After", nil, nil, "two calls of either kind in succession with up to three of two well-formed ids and a malformed one, every pattern of failures, limit of two", "rejected", "failures reported", "both over"),
		with(invRun("big", "VerifC07Big", [2]int{100, 300}, P{"sizes": 2}, P{"sizes": 4}, "20 to 500 ids, one or two failing updates at 15 positions", "large call"), "c06", "c09"),
	}},
	{ID: "C08", Runs: []RunSpec{
		coreRun("c08", "VerifC08", [2]int{100, 600}, P{"maxTickets": 3}, P{"maxTickets": 4}, "up to maxTickets roster tickets (no id, arbitrary id, failing update), storage answering at once or later", "rejected", "error", "ok"),
		with(invRun("big", "VerifC08Big", [2]int{100, 300}, P{"sizes": 3}, P{"sizes": 3}, "20 to 600 tickets, one without id or with a failing update at 15 positions", "large roster"), "c06", "c09"),
		twoRun("VerifC08Two", P{"budget": 1}, P{"budget": 2}, "two rosters of up to two tickets, some in common, every pattern of failures and missing ids, one after the other or at the same time", "one after the other", "at the same time"),
	}},
	{ID: "C09", Runs: []RunSpec{
		coreRun("c09", "VerifC09", [2]int{200, 800}, P{"maxIds": 2, "budget": 1}, P{"maxIds": 3, "budget": 2}, "1..maxIds ids; each assignment known before, arriving during or after the watch, or never; schedules with up to budget delays", "watched", "late assignment"),
		coreRun("c09", "VerifC09Two", [2]int{200, 800}, P{"budget": 0}, P{"budget": 1}, "two watches with tickets in common, starting together or 500 ms apart, ids of eight forms, also with a time to come; schedules with up to budget delays", "watched"),
		with(invRun("big", "VerifC09Big", [2]int{100, 300}, nil, nil, "20 or 120 tickets, all but one with an assignment, known before or arriving", "large watch"), "c06", "c09"),
		twoRun("VerifC09After", nil, nil, "a watch after another, with the assignment kept, replaced or removed in between", "watched twice"),
	}},
	{ID: "C10", Runs: []RunSpec{
		invRun("c10", "VerifC10", [2]int{300, 800}, P{"maxTickets": 2, "maxPools": 2}, P{"maxTickets": 3, "maxPools": 2}, "up to maxTickets cached tickets, up to maxPools pools with a string and a tag filter each, two functions", "nonempty pool"),
		invRun("c10", "VerifC10Shapes", [2]int{200, 600}, nil, nil, "tickets and pools of unusual shapes", "nonempty pool"),
		invRun("c10", "VerifC10Reject", [2]int{60, 60}, nil, nil, "profile and function list present or absent", "accepted", "rejected"),
		bigRun("VerifC10Big", [2]int{100, 300}, nil, nil, "30 or 260 tickets, 18 pools with filters of every kind", "large cache"),
		twoRun("VerifC10Two", P{"budget": 0}, P{"budget": 1}, "two invocations with profile and pool of the same name, any filters, tickets in any state before and between, one after the other or at the same time", "one after the other", "at the same time"),
	}},
	{ID: "C11", Runs: []RunSpec{
		invRun("c11", "VerifC11", [2]int{300, 850}, P{"maxUpdates": 1, "budget": 2}, P{"maxUpdates": 1, "budget": 3}, "one ticket inactive throughout (any age and expiration), one active throughout, one changing; up to maxUpdates replicated updates and one expiration pass interleaved with the invocation, up to budget preemptions at the granularity of cache operations", "pool checked", "other ticket in the pool"),
		tonly(invRun("c11", "VerifC11", [2]int{300, 850}, nil, P{"maxUpdates": 2, "budget": 2}, "as above", "pool checked", "other ticket in the pool")),
	}},
	{ID: "C12", Runs: []RunSpec{
		invRun("c12", "VerifC12", [2]int{300, 800}, P{"maxTickets": 3, "maxPools": 2}, P{"maxTickets": 4, "maxPools": 2}, "up to maxTickets tickets of 0..4.1 MB each, in any of up to maxPools pools, profile of up to 3.9 MB", "several tickets in a message", "several messages"),
		invRun("c12", "VerifC12Small", [2]int{300, 800}, P{"tickets": 1600, "pools": 100}, P{"tickets": 1600, "pools": 100, "maxName": 1000}, "that many 27-byte tickets in each of that many pools, profile name of 0..maxName bytes", "several messages"),
		twoRun("VerifC10Two", P{"big": 1}, P{"big": 1}, "as C10's, with tickets of 2.9 MB so that there are several messages", "one after the other", "several messages"),
	}},
	{ID: "C13", Runs: []RunSpec{
		invRun("c12", "VerifC13", [2]int{200, 800}, P{"maxPools": 1, "len": 2}, P{"maxPools": 2, "len": 2}, "up to maxPools pools with any one kind of filter, extensions present or absent, strings up to len bytes, one or two functions, functions of the same name or at the same address, an unsupported function beside them", "pool checked"),
		twoRun("VerifC10Two", P{"budget": 0}, P{"budget": 1}, "two invocations with profile and pool of the same name, any filters, tickets in any state before and between, one after the other or at the same time", "one after the other", "at the same time"),
	}},
	{ID: "C14", Runs: []RunSpec{
		invRun("c14", "VerifC14", [2]int{400, 850}, P{"maxMmfs": 2, "maxMatches": 1, "budget": 1}, P{"maxMmfs": 2, "maxMatches": 2, "budget": 2}, "1..maxMmfs functions with up to maxMatches matches each, any pattern of equal match ids, streams ending normally or in an error, a refused connection beside them, replication lag 0 or 250 ms; schedules with up to budget delays", "invoked", "several matches"),
		invRun("c14", "VerifC14", [2]int{400, 850}, P{"maxMmfs": 1, "maxMatches": 2, "budget": 0, "long": 1, "slow": 1}, P{"maxMmfs": 2, "maxMatches": 2, "budget": 0, "long": 1, "slow": 1}, "as above, with a replication lag of 30 or 90 s, storage answering at once or later than functions may take", "invoked", "several matches"),
		invRun("c14", "VerifC14Two", [2]int{300, 850}, P{"maxMatches": 1, "budget": 0}, P{"maxMatches": 1, "budget": 1}, "two invocations at the same time or one after the other, with a function each and one in common or not, up to maxMatches matches each, functions answering at once or late; schedules with up to budget delays", "invoked"),
		bigRun("VerifC14Big", [2]int{100, 300}, nil, nil, "up to 12 functions, up to 130 matches, a match of 240 tickets", "many matches"),
	}},
	{ID: "C15", Runs: []RunSpec{
		invRun("c14", "VerifC15", [2]int{400, 850}, P{"maxMmfs": 1, "maxMatches": 2, "budget": 1, "fails": 0}, P{"maxMmfs": 2, "maxMatches": 1, "budget": 2}, "1..maxMmfs functions with up to maxMatches matches of one or two rosters each, any pattern of shared tickets, with and without waiting for deactivation, replication lag 0 or 250 ms; schedules with up to budget delays", "invoked", "waited"),
		invRun("c14", "VerifC15", [2]int{400, 850}, P{"maxMmfs": 2, "maxMatches": 1, "budget": 0, "long": 1, "slow": 1}, P{"maxMmfs": 1, "maxMatches": 3, "budget": 0, "long": 1, "slow": 1}, "as above, with a replication lag of 30 or 90 s, storage answering at once or later than functions may take", "invoked", "waited"),
		bigRun("VerifC14Big", [2]int{100, 300}, nil, nil, "up to 12 functions, up to 130 matches, a match of 240 tickets", "many matches"),
	}},
	{ID: "C16", Runs: []RunSpec{
		invRun("c14", "VerifC16", [2]int{400, 850}, P{"maxMmfs": 1, "maxMatches": 1, "budget": 1}, P{"maxMmfs": 2, "maxMatches": 1, "budget": 2}, "1..maxMmfs functions, up to maxMatches results of eight shapes each, normal end, error, refusal or timeout; storage accepting or refusing; schedules with up to budget delays", "returned", "failing function"),
		invRun("c14", "VerifC16", [2]int{100, 850}, P{"maxMmfs": 1, "maxMatches": 2, "budget": 0}, P{"maxMmfs": 1, "maxMatches": 2, "budget": 1}, "as above", "returned", "failing function"),
		invRun("c14", "VerifC16", [2]int{200, 850}, P{"maxMmfs": 2, "maxMatches": 1, "budget": 0}, P{"maxMmfs": 2, "maxMatches": 1, "budget": 1}, "as above", "returned", "failing function"),
		with(invRun("c14", "VerifC16Many", [2]int{100, 300}, nil, nil, "a function of 3, 24 or 70 results, normal end, error, refusal or timeout after 3 results, beside one of 0 or 9, normal end or error; the last result without a match or not; storage accepting or refusing", "returned", "failing function")),
	}},
	{ID: "C17", Runs: []RunSpec{
		cacheRun("c17", "VerifC17", [2]int{300, 850}, P{"maxSenders": 2, "maxRequests": 2, "budget": 1}, P{"maxSenders": 2, "maxRequests": 3, "budget": 2, "waits": 2}, "up to maxSenders requesters with up to maxRequests updates each, starting at three instants, with pauses; thresholds 1..3; storage answering at once or late, accepting or refusing each update; callers that stay, are gone or go away meanwhile; schedules with up to budget delays", "answered", "batch of several"),
		more(cacheRun("c17", "VerifC17Big", [2]int{200, 300}, nil, nil, "130 updates of one requester, or 60, 50 and 1 of three, thresholds 7, 50 and 500, storage answering at once or late, any one update refused", "many answered"), "big"),
	}},
	{ID: "C18", Runs: []RunSpec{
		cacheRun("c18", "VerifC18", [2]int{300, 850}, P{"entries": 1, "maxUpdates": 2}, P{"entries": 2, "maxUpdates": 3}, "up to maxUpdates updates of any kind with any pattern of ids, in up to two polls, over caches with entries ids in any state", "applied", "ticket", "assignment"),
		cacheRun("c18", "VerifC18Order", [2]int{200, 850}, P{"maxUpdates": 3, "budget": 1}, P{"maxUpdates": 4, "budget": 2}, "2..maxUpdates updates of any kind for one id, delivered in any way of splitting them into polls, with room for 1 or 2 updates per poll; schedules with up to budget delays", "ordered"),
		more(cacheRun("c17", "VerifC18Big", [2]int{200, 300}, nil, nil, "12 or 110 tickets created, any number of the first activated, every other assigned, any number of the last deactivated, in polls of 9 or all updates, with room for 3, 50 or 10000 per poll", "many applied"), "big"),
	}},
	{ID: "C19", Runs: []RunSpec{
		cacheRun("c19", "VerifC19", [2]int{300, 850}, P{"maxEntries": 2}, P{"maxEntries": 3}, "up to maxEntries ids with and without a timestamp, each with or without ticket, inactive entry, assignment; all instants to 2^46 ms, all expiration times within 2^30 s, all TTLs to 2^24 s", "kept", "removed"),
		more(cacheRun("c17", "VerifC19Big", [2]int{200, 300}, nil, nil, "120 ids with tickets, inactive entries and assignments, any number of them over either age limit, to the millisecond", "many entries"), "big"),
	}},
	{ID: "C20", Runs: []RunSpec{
		redisRun("c20", "VerifC20", [2]int{200, 850}, P{"maxUpdates": 2, "len": 2}, P{"maxUpdates": 4, "len": 3}, "up to maxUpdates updates of any kind, keys and values of 1..len arbitrary bytes, in one or two batches, arbitrary increasing stream ids", "round trip"),
		more(redisRun("c20", "VerifC21Big", [2]int{200, 300}, nil, nil, "batches of 20 or 60 updates, any one invalid and any one refused, read back 13 at a time", "large batch"), "big"),
	}},
	{ID: "C21", Runs: []RunSpec{
		redisRun("c20", "VerifC21", [2]int{200, 850}, P{"maxUpdates": 2}, P{"maxUpdates": 3}, "up to maxUpdates updates, each of any kind (also unknown), with or without key and value, each stored or refused; exchange lost before or after execution, or connection refused", "answered", "stored", "failed"),
		redisRun("c20", "VerifC21", [2]int{200, 850}, P{"maxUpdates": 3, "simple": 1}, P{"maxUpdates": 5, "simple": 1}, "longer batches of valid activations, valid tickets and invalid assignments, otherwise as above", "answered", "stored", "failed"),
		more(redisRun("c20", "VerifC21Big", [2]int{200, 300}, nil, nil, "batches of 20 or 60 updates, any one invalid and any one refused, read back 13 at a time", "large batch"), "big"),
	}},
	{ID: "C22", Runs: []RunSpec{
		redisRun("c22", "VerifC22", [2]int{200, 850}, P{"maxEntries": 3, "maxPolls": 2}, P{"maxEntries": 5, "maxPolls": 4}, "up to maxEntries entries arriving before or between up to maxPolls polls that succeed, time out, fail, lose the connection or return a part; maximum 1..3 per poll", "all read"),
		more(redisRun("c20", "VerifC21Big", [2]int{200, 300}, nil, nil, "batches of 20 or 60 updates, any one invalid and any one refused, read back 13 at a time", "large batch"), "big"),
	}},
	{ID: "C23", Runs: []RunSpec{
		redisRun("c22", "VerifC23", [2]int{200, 850}, P{"maxOps": 2}, P{"maxOps": 3}, "up to maxOps sends and polls with every pattern of faults, pools of 1 or 2 connections with every idle limit; redigo's pool code is executed", "all done"),
	}},
	{ID: "C24", Runs: []RunSpec{
		redisRun("c20", "VerifC24", [2]int{200, 850}, nil, nil, "one or two batches of one or two updates, valid or not; every clock value 2017..2100 and TTL up to 10 years", "trimmed"),
	}},
	{ID: "C25", Runs: []RunSpec{
		{Mod: "core", Dir: "core/internal/statestore/memory", Pkg: "open-match.dev/core/internal/statestore/memory", Fake: true, Stress: 20, Native: true,
			Files: []string{"core/internal/statestore/memory/zz_verif_c25.go"}, Entry: "VerifC25", Secs: [2]int{300, 850}, P: P{"maxBatches": 2, "maxUpdates": 2, "budget": 1}, TP: P{"maxBatches": 3, "maxUpdates": 2, "budget": 2},
			Bounds: "up to maxBatches batches of up to maxUpdates updates of any kind, with and without a pause, beside a reader that polls at once or with pauses; the clock goes on by 0..2 ms at every reading; schedules with up to budget delays", Reach: []string{"delivered", "ticket"}},
		{Mod: "core", Dir: "core/internal/statestore/memory", Pkg: "open-match.dev/core/internal/statestore/memory", Fake: true, Stress: 20, Native: true,
			Files: []string{"core/internal/statestore/memory/zz_verif_big.go"}, Entry: "VerifC25Big", Secs: [2]int{200, 300},
			Bounds: "batches of 13 or 120 updates cut anywhere in two, at most 7 per poll; the clock goes on by 0 or 1 ms at every reading", Reach: []string{"large batch"}},
		{Mod: "core", Dir: "core/internal/statestore/memory", Pkg: "open-match.dev/core/internal/statestore/memory", Fake: true, Stress: 20, Native: true,
			Files: []string{"core/internal/statestore/memory/zz_verif_big.go"}, Entry: "VerifC25Same", Secs: [2]int{200, 600}, P: P{"updates": 1100}, TP: P{"updates": 70000},
			Bounds: "that many updates within one millisecond, at any instant 2017..2100", Reach: []string{"same millisecond"}},
	}},
	{ID: "C26", Runs: []RunSpec{
		c26Run("VerifC26", [2]int{200, 800}, P{"len": 9}, P{"len": 16}, "ids of up to len arbitrary bytes, both replicators, both RPCs", "accepted", "rejected"),
		c26Run("VerifC26Long", [2]int{200, 800}, nil, nil, "1, 13, 14 or 20 digits, dash, 1, 3, 5 or 20 digits, with an arbitrary non-digit byte inserted anywhere", "accepted", "rejected"),
		c26Run("VerifC26Odd", [2]int{60, 60}, nil, nil, "33 texts that lenient parsers take for ids, five ids of unusual size; both replicators, both RPCs", "accepted", "rejected"),
	}},
	{ID: "C27", Runs: []RunSpec{
		mmfServerRun("VerifC27", [2]int{200, 850}, P{"maxMsgs": 2, "maxTickets": 1, "pools": 2}, P{"maxMsgs": 3, "maxTickets": 1, "pools": 2}, "up to maxMsgs messages, two pools that are in any of them with no roster, an empty one or up to maxTickets tickets; any announced number of messages, also inconsistent ones; the stream ends or fails after the last message", "reassembled", "ended early", "inconsistent"),
		mmfServerRun("VerifC27", [2]int{200, 850}, P{"maxMsgs": 3, "maxTickets": 2, "pools": 1}, P{"maxMsgs": 5, "maxTickets": 2, "pools": 1}, "as above, one pool", "reassembled", "ended early", "inconsistent"),
		more(mmfServerRun("VerifC27Two", [2]int{200, 850}, nil, P{"budget": 2}, "two requests of one or two messages with up to two pools, one after the other or at the same time, the first complete or ending early", "one after the other", "concurrent"), "two"),
		more(mmfServerRun("VerifC27Big", [2]int{200, 300}, nil, nil, "1, 7, 33 or 130 messages, 1 or 20 pools, 8 to 260 tickets spread over them, any announced number from 1", "many messages"), "big"),
		{Mod: "mmf", Dir: "mmf", Pkg: "open-match.dev/mmf", Native: true, Files: []string{"mmf/zz_verif_main.go"}, Entry: "VerifC27Main", Secs: [2]int{100, 200},
			Bounds: "the sample server on six values of PORT, two requests of up to three messages of up to two tickets", Reach: []string{"served"}},
	}},
	{ID: "C28", Runs: []RunSpec{
		fnRun("soloduel", [2]int{200, 800}, P{"pools": 2, "maxTickets": 3}, P{"pools": 3, "maxTickets": 4}, "pools pools of 0..maxTickets tickets in every map order, failure at any send, no request", "all sent", "send failed"),
		entry("VerifC28Two", fnRun("soloduel", [2]int{200, 800}, P{"budget": 1}, P{"budget": 2}, "two requests of several sizes with tickets in common, one after the other or at the same time, the first failing or not", "two runs", "at the same time")),
		entry("VerifC28Big", fnRun("soloduel", [2]int{100, 800}, P{"sizes": 4}, P{"sizes": 4}, "513 to 2105 tickets in one or two pools, the last send failing or not", "large pools")),
		fnRun("battleroyale", [2]int{200, 800}, P{"maxTickets": 210}, P{"maxTickets": 401, "edges": 0}, "0..maxTickets tickets (quick: near multiples of 50), with and without another pool, failure at any send, no request", "all sent", "send failed"),
		entry("VerifC28Two", fnRun("battleroyale", [2]int{200, 800}, P{"budget": 1}, P{"budget": 2}, "two requests of several sizes with tickets in common, one after the other or at the same time, the first failing or not", "two runs", "at the same time")),
		entry("VerifC28Big", fnRun("battleroyale", [2]int{100, 800}, P{"sizes": 3}, P{"sizes": 3}, "1099 to 10200 tickets, the last send failing or not", "large pools")),
		fnRun("teamshooter", [2]int{200, 800}, P{"maxTank": 5, "maxDps": 13}, P{"maxTank": 9, "maxDps": 25}, "0..maxTank tanks and healers, 0..maxDps dps, with and without another pool, failure at any send, no request", "all sent", "send failed"),
		entry("VerifC28Two", fnRun("teamshooter", [2]int{200, 800}, P{"budget": 1}, P{"budget": 2}, "two requests of several sizes with tickets in common, one after the other or at the same time, the first failing or not", "two runs", "at the same time")),
		entry("VerifC28Big", fnRun("teamshooter", [2]int{100, 800}, P{"sizes": 3}, P{"sizes": 3}, "up to 1052 matches, the last send failing or not", "large pools")),
	}},
	{ID: "C29", Runs: []RunSpec{
		{Mod: "matchmaker-example", Dir: "matchmaker-example", Pkg: "open-match.dev/matchmaker-sample", Fake: true, Stress: 20, Native: true,
			Files: []string{"matchmaker-example/zz_verif_c29.go"}, Entry: "VerifC29", Secs: [2]int{200, 850}, P: P{"maxQueued": 1001, "width": 1, "late": 1, "budget": 1}, TP: P{"maxQueued": 1501, "width": 2, "late": 2, "all": 1},
			Bounds: "0..maxQueued queued ids, at most width from a multiple of 500, late more arriving during the first call; calls over gRPC or HTTP that answer at once or late, in any order, or fail, the context being cancelled meanwhile or not; schedules with up to budget delays (gRPC; quick: up to 501 and 1000 ids)", Reach: []string{"drained", "several calls"}},
		{Mod: "matchmaker-example", Dir: "matchmaker-example", Pkg: "open-match.dev/matchmaker-sample", Fake: true, Stress: 20, Native: true,
			Files: []string{"matchmaker-example/zz_verif_c29.go"}, Entry: "VerifC29Big", Secs: [2]int{200, 400}, P: P{"budget": 0}, TP: P{"budget": 0},
			Bounds: "2499 to 10501 queued ids, otherwise as above; default schedule", Reach: []string{"long queue"}},
	}},
	{ID: "C30", Runs: []RunSpec{
		{Mod: "core", Dir: "core/internal/logging", Pkg: "open-match.dev/core/internal/logging", Native: true,
			Files: []string{"core/internal/logging/zz_verif_c30.go"}, Entry: "VerifC30", Secs: [2]int{200, 800}, P: P{"len": 8}, TP: P{"len": 16},
			Bounds: "all ASCII strings of up to len bytes as configured or default level, every format", Reach: []string{"debug", "info", "warning"}},
	}},
	{ID: "C31", Runs: []RunSpec{
		invRun("c31", "VerifC31", [2]int{300, 850}, P{"ops": 4, "maxTickets": 2}, P{"ops": 6, "maxTickets": 2}, "every history of ops operations over up to maxTickets tickets (create with any expiration, activate, deactivate, assign, match with and without waiting, pause), the last followed by an invocation; handlers, queues, cache and in-memory storage together, default schedule", "in pool", "expired", "matched"),
		with(invRun("main", "VerifC31Main", [2]int{200, 850}, P{"maxTickets": 2}, P{"maxTickets": 3}, "om-core as main() sets it up from its environment, storage in memory: up to maxTickets tickets created, activated or not, deactivated again or not, matched, assigned, watched and expired; through gRPC or the gateway", "in pool", "expired", "over"), "server", "c33", "c09"),
	}},
	{ID: "C32", Runs: []RunSpec{
		cacheRun("c32", "VerifC32", [2]int{300, 850}, P{"maxUpdates": 2, "budget": 1}, P{"maxUpdates": 3, "budget": 2}, "up to maxUpdates updates of any kind with any pattern of ids; one instance gets them in one poll, the other in any way of splitting them, with room for 1..3 updates per poll; schedules with up to budget delays", "compared", "ticket", "assignment"),
		cacheRun("c32", "VerifC32", [2]int{300, 850}, P{"maxUpdates": 3, "budget": 0}, P{"maxUpdates": 4, "budget": 0}, "as above, default schedule", "compared", "ticket", "assignment"),
	}},
	{ID: "C33", Runs: []RunSpec{
		gatewayRun("", "VerifC33", P{"len": 3, "maxIds": 2, "maxMessages": 2}, P{"len": 6, "maxIds": 3, "maxMessages": 3}, "one request of every RPC, any texts of up to len bytes, up to maxIds ids; empty and malformed bodies; any error of any code; up to maxMessages streamed messages; the HTTP client staying or going away", "bad request", "error", "answered", "stream failed", "stream ended"),
		gatewayRun("", "VerifC33Other", nil, nil, "six methods and 17 paths", "refused"),
		gatewayRun("core/", "VerifC33", P{"len": 3, "maxIds": 2, "maxMessages": 2}, P{"len": 6, "maxIds": 3, "maxMessages": 3}, "as above, the copy of the gateway in core", "bad request", "error", "answered", "stream failed", "stream ended"),
		gatewayRun("core/", "VerifC33Other", nil, nil, "as above, the copy of the gateway in core", "refused"),
		with(invRun("c33", "VerifC33Start", [2]int{200, 850}, P{"len": 2}, P{"len": 4}, "om-core as start() serves it: one request of each RPC of up to three ids, any text of up to len bytes, storage accepting or refusing one update, a function answering, refusing or absent; through the gateway and through gRPC, in both orders", "streamed", "queued", "error", "compared"), "server", "c09"),
	}},
	{ID: "C34", Runs: []RunSpec{
		{Mod: "core", Dir: "core/internal/config", Pkg: "open-match.dev/core/internal/config", Native: true,
			Files: []string{"core/internal/config/zz_verif_c34.go"}, Entry: "VerifC34", Secs: [2]int{200, 600}, P: P{"len": 4}, TP: P{"len": 10},
			Bounds: "any one of the 30 settings set to any ASCII text of 1..len bytes, any 32-bit number, a switch or a duration, or none set", Reach: []string{"none set", "text", "number", "switch", "duration"}},
		{Mod: "core", Dir: "core/internal/config", Pkg: "open-match.dev/core/internal/config", Native: true,
			Files: []string{"core/internal/config/zz_verif_c34.go"}, Entry: "VerifC34All", Secs: [2]int{100, 100},
			Bounds: "all settings set to different numbers, or all but one", Reach: []string{"all set"}},
	}},
	{ID: "C35", Runs: []RunSpec{
		cacheRun("c35", "VerifC35Cache", [2]int{200, 850}, P{"maxEntries": 2}, P{"maxEntries": 3}, "up to maxEntries ids of four ages, each with or without ticket, inactive entry and assignment, any expiration time within 1000 s; two cycles", "scraped", "both kinds"),
		with(invRun("c35", "VerifC35Matches", [2]int{200, 850}, P{"maxMmfs": 2, "maxMatches": 2}, P{"maxMmfs": 3, "maxMatches": 2}, "1..maxMmfs functions with up to maxMatches matches each, streams ending normally, in an error or refused; two invocations", "invoked", "several matches"), "meter", "c09"),
		with(invRun("c35", "VerifC35Watch", [2]int{200, 850}, P{"maxWatches": 2, "maxIds": 2, "budget": 0}, P{"maxWatches": 2, "maxIds": 2, "budget": 1}, "1..maxWatches watches of up to maxIds tickets whose assignments are known before, arrive meanwhile, or never; schedules with up to budget delays", "looked", "timed out", "over"), "meter", "c09"),
		with(invRun("c35", "VerifC35Calls", [2]int{200, 850}, P{"maxIds": 3}, P{"maxIds": 4}, "one or two calls with up to maxIds ids, well-formed or not", "recorded"), "meter", "c09"),
		with(invRun("c35start", "VerifC35Start", [2]int{200, 850}, P{"maxRpcs": 2}, P{"maxRpcs": 3}, "om-core as start() serves it: up to maxRpcs RPCs of four kinds, succeeding or not, through gRPC or the gateway", "failed", "measured"), "server", "c33", "meter", "c09"),
		with(invRun("c35", "VerifC35Rpc", [2]int{200, 850}, nil, nil, "up to two RPCs of six durations, failing or not", "measured"), "meter", "c09"),
	}},
	{ID: "C36", Runs: []RunSpec{
		invRun("c36", "VerifC36", [2]int{200, 850}, P{"maxMmfs": 2, "maxMatches": 2, "budget": 0}, P{"maxMmfs": 2, "maxMatches": 2, "budget": 1}, "1..maxMmfs functions that take 0 s to 10 s for up to maxMatches matches, others failing or refused, with a limit of 2 s; the caller stays, is gone before, goes away meanwhile, or has less time; schedules with up to budget delays", "returned", "caller went away", "ended by the limit"),
	}},
	{ID: "C37", Runs: []RunSpec{
		{Mod: "core", Dir: "core/internal/statestore/redis", Pkg: "open-match.dev/core/internal/statestore/redis", Native: true,
			Files: []string{"core/internal/statestore/redis/zz_verif_c37.go"}, Entry: "VerifC37", Secs: [2]int{200, 850}, P: P{"len": 1}, TP: P{"len": 3},
			Bounds: "same and different hosts and ports for reading and writing; users and passwords of 0..len characters; the address for reading or writing refusing connections or not", Reach: []string{"talked", "refused", "two servers", "authenticated"}},
	}},
	{ID: "C38", Runs: []RunSpec{
		{Mod: "matchmaker-example", Dir: "matchmaker-example", Pkg: "open-match.dev/matchmaker-sample", Fake: true, Stress: 20, Native: true,
			Files: []string{"matchmaker-example/zz_verif_c29.go", "matchmaker-example/zz_verif_c38.go"}, Entry: "VerifC38", Secs: [2]int{200, 850}, P: P{"maxSecs": 2, "maxRate": 2, "budget": 0}, TP: P{"maxSecs": 2, "maxRate": 2, "budget": 1},
			Bounds: "1..maxSecs seconds of up to maxRate tickets each, created at once or late or refused; activation at once or late, over gRPC or HTTP; schedules with up to budget delays", Reach: []string{"activated", "over"}},
		{Mod: "matchmaker-example", Dir: "matchmaker-example", Pkg: "open-match.dev/matchmaker-sample", Fake: true, Stress: 20, Native: true,
			Files: []string{"matchmaker-example/zz_verif_c29.go", "matchmaker-example/zz_verif_c38.go"}, Entry: "VerifC38Big", Secs: [2]int{200, 300},
			Bounds: "20 to 502 tickets within one to four seconds, none, all or every third or fifth created late or refused; default schedule", Reach: []string{"many tickets"}},
	}},
	{ID: "C39", Runs: []RunSpec{
		loopRun("VerifC39", [2]int{300, 850}, P{"maxCycles": 2, "maxMatches": 2}, P{"maxCycles": 3, "maxMatches": 2}, "main() for up to maxCycles cycles of up to maxMatches matches of 1, 2 or 3 tickets each, every random choice, streams that end or fail; over gRPC or HTTP, default schedule", "rejected", "failed", "over"),
		loopRun("VerifC39Empty", [2]int{200, 400}, P{"maxCycles": 6}, P{"maxCycles": 9}, "up to maxCycles cycles, at most one with a match, empty ones ignored or not", "empty cycles"),
		loopRun("VerifC39Big", [2]int{200, 400}, nil, nil, "one or two rejected matches of 201 to 10001 tickets", "many tickets"),
		loopRun("VerifC39Players", [2]int{200, 400}, P{"maxRate": 2}, P{"maxRate": 3}, "main() with up to maxRate simulated players in each of one or two seconds", "player", "over"),
	}},
}

func loopRun(entry string, secs [2]int, p, tp P, bounds string, reach ...string) RunSpec {
	return RunSpec{Mod: "matchmaker-example", Dir: "matchmaker-example", Pkg: "open-match.dev/matchmaker-sample", Native: true,
		Files: []string{"matchmaker-example/zz_verif_c29.go", "matchmaker-example/zz_verif_c38.go", "matchmaker-example/zz_verif_c39.go"},
		Entry: entry, Secs: secs, P: p, TP: tp, Bounds: bounds, Reach: reach}
}
