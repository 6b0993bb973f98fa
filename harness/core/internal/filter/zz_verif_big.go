package filter

import (
	"strconv"

	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

// VerifC01Big: pools of many filters and tickets of many arguments and tags.
func VerifC01Big() {
	const n = 40
	x := [][3]int{{n, 0, 0}, {0, n, 0}, {0, 0, n}, {0, 3, 21}, {24, 20, 22}}[vsym.Choose("filters", 5)]
	nd, ns, nt := x[0], x[1], x[2]
	a := &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{}, StringArgs: map[string]string{}}
	pool := &pb.Pool{Name: "p"}
	want := true
	vals := make([]float64, n)
	strs := make([]string, n)
	lost := n / 2
	if nt > 0 && nt != 22 {
		lost = vsym.Int("missing tag", -1, n-1)
	}
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		vals[i] = vsym.Float64("v" + k)
		strs[i] = vsym.String("s"+k, 1)
		a.DoubleArgs["d"+k], a.StringArgs["s"+k] = vals[i], strs[i]
		if i != lost {
			a.Tags = append(a.Tags, "t"+k)
		}
	}
	for j := 0; j < nd; j++ {
		i := (j*7 + 3) % n
		lo, hi := float64(i), float64(i+1)
		pool.DoubleRangeFilters = append(pool.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: "d" + strconv.Itoa(i), Minimum: lo, Maximum: hi, Bounds: pb.Pool_FilterBounds(j % 4)})
		want = vsym.And(want, specDouble(vals[i], lo, hi, int32(j%4)))
	}
	for j := 0; j < ns; j++ {
		i := (j*11 + 5) % n
		pool.StringEqualsFilters = append(pool.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: "s" + strconv.Itoa(i), Value: string(rune('A' + i))})
		want = vsym.And(want, strs[i] == string(rune('A'+i)))
	}
	for j := 0; j < nt; j++ {
		i := (j*13 + 7) % n
		pool.TagPresentFilters = append(pool.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: "t" + strconv.Itoa(i)})
		want = vsym.And(want, i != lost)
	}
	got := In(pool, &pb.Ticket{Attributes: a})
	vsym.Assert(got == want, "large pool: In differs from the specification")
	if got {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
}
