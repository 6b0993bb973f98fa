package teamshooter

import (
	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

// VerifC28: two teams of one tank, one healer and three dps per match.
func VerifC28() {
	tank := vsym.Int("tank", 0, vsym.Param("maxTank", 5))
	healer := vsym.Int("healer", 0, vsym.Param("maxTank", 5))
	dps := vsym.Int("dps", 0, vsym.Param("maxDps", 13))
	other := vsym.Choose("other", 2)
	sent, of, all := vRun([]string{"tank", "healer", "dps", "other"}, []int{tank, healer, dps, other}, false)
	vTeams(sent, of, min(tank/2, healer/2, dps/6), all)
}

func vTeams(sent []*pb.Match, of map[string]int, want int, all bool) {
	vCheck(sent, of, 4, func(rs [][]int) {
		vsym.Assert(len(rs) == 2, "a match does not have two teams")
		for _, r := range rs {
			vsym.Assert(r[0] == 1 && r[1] == 1 && r[2] == 3 && r[3] == 0, "a team is not one tank, one healer and three dps")
		}
	})
	vsym.Assert(len(sent) <= want, "more matches than possible")
	if all {
		vsym.Assert(len(sent) == want, "fewer matches than the pools allow")
		vsym.Reach("all sent")
	} else {
		vsym.Reach("send failed")
	}
}

// VerifC28Two: two requests.
func VerifC28Two() {
	want := []int{0, 0}
	vTwo([]string{"tank", "healer", "dps"}, func(k int) []int {
		c := [][]int{{2, 2, 6}, {1, 2, 6}, {2, 1, 3}, {2, 2, 5}, {3, 2, 11}, {4, 4, 12}}[vsym.Choose(vN("sizes", k), 6)]
		want[k] = min(c[0]/2, c[1]/2, c[2]/6)
		return c
	}, func(k int, sent []*pb.Match, of map[string]int, all bool) { vTeams(sent, of, want[k], all) })
}

// VerifC28Big: many tickets.
func VerifC28Big() {
	c := [][]int{{230, 222, 700}, {300, 300, 779}, {2104, 2104, 6312}}[vsym.Choose("sizes", vsym.Param("sizes", 2))]
	want := min(c[0]/2, c[1]/2, c[2]/6)
	sent, of, all := vBig([]string{"tank", "healer", "dps"}, c, want)
	vTeams(sent, of, want, all)
}
