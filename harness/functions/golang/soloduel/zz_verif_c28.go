package soloduel

import (
	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

// VerifC28: two tickets per match, from any pools.
func VerifC28() {
	vsym.MapOrder(true)
	var names []string
	var sizes []int
	total := 0
	for i := 0; i < vsym.Param("pools", 2); i++ {
		names = append(names, vN("pool", i))
		sizes = append(sizes, vsym.Int(vN("size", i), 0, vsym.Param("maxTickets", 4)))
		total += sizes[i]
	}
	sent, of, all := vRun(names, sizes, true)
	vDuels(sent, of, len(names), total, all)
}

func vDuels(sent []*pb.Match, of map[string]int, pools, total int, all bool) {
	vCheck(sent, of, pools, func(rs [][]int) {
		n := 0
		for _, r := range rs {
			for _, c := range r {
				n += c
			}
		}
		vsym.Assert(n == 2, "a match does not have two tickets")
	})
	vsym.Assert(len(sent) <= total/2, "more matches than possible")
	if all {
		vsym.Assert(len(sent) == total/2, "fewer matches than the pools allow")
		vsym.Reach("all sent")
	} else {
		vsym.Reach("send failed")
	}
}

// VerifC28Two: two requests.
func VerifC28Two() {
	total := []int{0, 0}
	vTwo([]string{"pool0", "pool1"}, func(k int) []int {
		a, b := vsym.Choose(vN("size0", k), 4), vsym.Choose(vN("size1", k), 4)
		total[k] = a + b
		return []int{a, b}
	}, func(k int, sent []*pb.Match, of map[string]int, all bool) { vDuels(sent, of, 2, total[k], all) })
}

// VerifC28Big: many tickets.
func VerifC28Big() {
	c := [][]int{{2100, 0}, {1, 2104}, {501, 501}, {255, 258}}[vsym.Choose("sizes", vsym.Param("sizes", 4))]
	total := c[0] + c[1]
	sent, of, all := vBig([]string{"pool0", "pool1"}, c, total/2)
	vDuels(sent, of, 2, total, all)
}
