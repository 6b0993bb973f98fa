package main

import (
	"context"
	"errors"
	"flag"
	"net/http"
	"strconv"
	"time"

	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

var vRand func(n int) int

var vTurn int // 1 and up: the random numbers go round

// VM_rand_Intn stands in for rand.Intn.
func VM_rand_Intn(n int) int {
	if vRand != nil {
		return vRand(n)
	}
	if vTurn > 0 {
		vTurn++
		return vTurn % n
	}
	return vsym.Int("rand", 0, n-1)
}

// VerifC38: the example frontend over a few seconds.
func VerifC38() {
	conn := vsym.Choose("conn", 2)
	flag.Set("conn", []string{"grpc", "http"}[conn])
	vsym.Sched("delay", vsym.Param("budget", 0))
	secs := 1 + vsym.Choose("seconds", vsym.Param("maxSecs", 2))
	rate := vsym.Choose("rate", vsym.Param("maxRate", 2)+1)
	vFrontend(secs, rate, func(i int) int { return vsym.Choose(vN("answer", i), 4) })
}

// VerifC38Big: more tickets each second.
func VerifC38Big() {
	conn := vsym.Choose("conn", 2)
	flag.Set("conn", []string{"grpc", "http"}[conn])
	vsym.Sched("delay", 0)
	vTurn = 1
	c := [][]int{{4, 5}, {2, 26}, {1, 502}}[vsym.Choose("load", 3)]
	step, what := vsym.Choose("every", 4), vsym.Choose("answer", 4)
	vFrontend(c[0], c[1], func(i int) int {
		if step == 0 || i%(2*step-1) > 0 {
			return 0
		}
		return what
	})
	vsym.Reach("many tickets")
}

func vFrontend(secs, rate int, answer func(i int) int) {
	core := &vCore{}
	made, given := 0, map[string]bool{}
	core.slow = vsym.Choose("slow activation", 2) == 1
	core.create = func(t *pb.Ticket) (string, error) {
		i := made
		made++
		vsym.Assert(t.GetId() == "", "a ticket was created with an id")
		c := t.GetAttributes().GetStringArgs()["class"]
		vsym.Assert(c == "tank" || c == "healer" || c == "dps", "a ticket no pool is made for")
		switch answer(i) {
		case 1:
			time.Sleep(1500 * time.Millisecond)
		case 2:
			return "", errors.New("creation failed")
		case 3:
			time.Sleep(1500 * time.Millisecond)
			return "", errors.New("creation failed")
		}
		id := "id" + strconv.Itoa(i)
		given[id] = true
		return id, nil
	}
	newMockMatchmakerFrontend(secs, rate, core, &http.Client{Transport: core}).Run(context.Background())
	vsym.Settle(10 * time.Second)
	vsym.Assert(made == secs*rate, "not the configured number of tickets was created")
	n := map[string]int{}
	for _, c := range core.calls {
		for _, id := range c {
			vsym.Assert(len(c) <= 500, "more ids in a call than the core's default maximum")
			vsym.Assert(given[id], "something was activated that was not created")
			n[id]++
		}
	}
	for id := range given {
		vsym.Assert(n[id] == 1, "a created ticket was not activated exactly once")
		vsym.Reach("activated")
	}
	vsym.Reach("over")
}
