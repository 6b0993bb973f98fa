package battleroyale

import (
	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

// VerifC28: 100 tickets of the competitive pool per match.
func VerifC28() {
	n := vsym.Int("size", 0, vsym.Param("maxTickets", 210))
	if vsym.Param("edges", 1) == 1 {
		vsym.Assume(vsym.Or(n%100 < 3, n%100 > 97, n%100 == 50))
	}
	other := vsym.Choose("other", 2) * 101
	sent, of, all := vRun([]string{"competitive", "casual"}, []int{n, other}, false)
	vRoyale(sent, of, n, all)
}

func vRoyale(sent []*pb.Match, of map[string]int, n int, all bool) {
	vCheck(sent, of, 2, func(rs [][]int) {
		comp, rest := 0, 0
		for _, r := range rs {
			comp += r[0]
			rest += r[1]
		}
		vsym.Assert(comp == 100 && rest == 0, "a match does not have 100 tickets of the competitive pool")
	})
	vsym.Assert(len(sent) <= n/100, "more matches than possible")
	if all {
		vsym.Assert(len(sent) == n/100, "fewer matches than the pool allows")
		vsym.Reach("all sent")
	} else {
		vsym.Reach("send failed")
	}
}

// VerifC28Two: two requests.
func VerifC28Two() {
	n := []int{0, 0}
	vTwo([]string{"competitive"}, func(k int) []int {
		n[k] = []int{0, 60, 100, 150, 200}[vsym.Choose(vN("size", k), 5)]
		return n[k : k+1]
	}, func(k int, sent []*pb.Match, of map[string]int, all bool) { vRoyale(sent, of, n[k], all) })
}

// VerifC28Big: many tickets.
func VerifC28Big() {
	n := []int{1099, 3337, 10200}[vsym.Choose("size", vsym.Param("sizes", 2))]
	sent, of, all := vBig([]string{"competitive"}, []int{n}, n/100)
	vRoyale(sent, of, n, all)
}
