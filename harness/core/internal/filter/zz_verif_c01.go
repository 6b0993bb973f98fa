package filter

import (
	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

func vName(p string, i int) string { return p + string(rune('0'+i)) }

// specDouble: v lies between lo and hi, endpoints excluded as the bounds say.
func specDouble(v, lo, hi float64, bounds int32) bool {
	exMin := vsym.Or(bounds == 1, bounds == 3) // EXCLUDE_MIN, EXCLUDE_BOTH
	exMax := vsym.Or(bounds == 2, bounds == 3) // EXCLUDE_MAX, EXCLUDE_BOTH
	return vsym.And(
		vsym.Or(lo < v, vsym.And(lo == v, !exMin)),
		vsym.Or(v < hi, vsym.And(v == hi, !exMax)))
}

type vDouble struct {
	k string
	v float64
}

// VerifC01Doubles: up to nf double filters over up to na arguments.
func VerifC01Doubles() {
	na := vsym.Choose("args", vsym.Param("maxArgs", 2)+1)
	nf := vsym.Choose("filters", vsym.Param("maxFilters", 2)+1)
	slen := vsym.Param("len", 1)
	ticket := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
	var args []vDouble
	if na > 0 {
		ticket.Attributes.DoubleArgs = map[string]float64{}
	}
	for i := 0; i < na; i++ {
		a := vDouble{vsym.String(vName("key", i), slen), vsym.Float64(vName("val", i))}
		for _, b := range args {
			vsym.Assume(a.k != b.k)
		}
		args = append(args, a)
		ticket.Attributes.DoubleArgs[a.k] = a.v
	}
	pool := &pb.Pool{Name: "p"}
	want := true
	type flt struct {
		arg    string
		lo, hi float64
		b      int32
	}
	var fs []flt
	for j := 0; j < nf; j++ {
		f := flt{vsym.String(vName("arg", j), slen), vsym.Float64(vName("min", j)), vsym.Float64(vName("max", j)), vsym.Int32(vName("bounds", j), 0, 3)}
		fs = append(fs, f)
		pool.DoubleRangeFilters = append(pool.DoubleRangeFilters, &pb.Pool_DoubleRangeFilter{DoubleArg: f.arg, Minimum: f.lo, Maximum: f.hi, Bounds: pb.Pool_FilterBounds(f.b)})
		some := false
		for _, a := range args {
			some = vsym.Or(some, vsym.And(a.k == f.arg, specDouble(a.v, f.lo, f.hi, f.b)))
		}
		want = vsym.And(want, some)
	}
	got := In(pool, ticket)
	vsym.Assert(got == want, "double filters: In differs from the specification")
	// neither argument changed
	vsym.Assert(len(pool.DoubleRangeFilters) == nf && len(ticket.Attributes.DoubleArgs) == na, "In changed the number of filters or arguments")
	same := true
	for j, f := range fs {
		g := pool.DoubleRangeFilters[j]
		same = vsym.And(same, g.DoubleArg == f.arg, vsym.Or(g.Minimum == f.lo, f.lo != f.lo), vsym.Or(g.Maximum == f.hi, f.hi != f.hi), int32(g.Bounds) == f.b)
	}
	for _, a := range args {
		v, ok := ticket.Attributes.DoubleArgs[a.k]
		same = vsym.And(same, ok, vsym.Or(v == a.v, a.v != a.v))
	}
	vsym.Assert(same, "In changed the pool or the ticket")
	if got {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
}

type vStrArg struct{ k, v string }

// VerifC01Strings: string equality filters.
func VerifC01Strings() {
	na := vsym.Choose("args", vsym.Param("maxArgs", 2)+1)
	nf := vsym.Choose("filters", vsym.Param("maxFilters", 2)+1)
	slen := vsym.Param("len", 2)
	ticket := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
	var args []vStrArg
	if na > 0 {
		ticket.Attributes.StringArgs = map[string]string{}
	}
	for i := 0; i < na; i++ {
		a := vStrArg{vsym.String(vName("key", i), slen), vsym.String(vName("val", i), slen)}
		for _, b := range args {
			vsym.Assume(a.k != b.k)
		}
		args = append(args, a)
		ticket.Attributes.StringArgs[a.k] = a.v
	}
	pool := &pb.Pool{Name: "p"}
	want := true
	var fs []vStrArg
	for j := 0; j < nf; j++ {
		f := vStrArg{vsym.String(vName("arg", j), slen), vsym.String(vName("want", j), slen)}
		fs = append(fs, f)
		pool.StringEqualsFilters = append(pool.StringEqualsFilters, &pb.Pool_StringEqualsFilter{StringArg: f.k, Value: f.v})
		some := false
		for _, a := range args {
			some = vsym.Or(some, vsym.And(a.k == f.k, a.v == f.v))
		}
		want = vsym.And(want, some)
	}
	got := In(pool, ticket)
	vsym.Assert(got == want, "string filters: In differs from the specification")
	same := vsym.And(len(pool.StringEqualsFilters) == nf, len(ticket.Attributes.StringArgs) == na)
	for j, f := range fs {
		g := pool.StringEqualsFilters[j]
		same = vsym.And(same, g.StringArg == f.k, g.Value == f.v)
	}
	for _, a := range args {
		v, ok := ticket.Attributes.StringArgs[a.k]
		same = vsym.And(same, ok, v == a.v)
	}
	vsym.Assert(same, "In changed the pool or the ticket")
	if got {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
}

// VerifC01Tags: tag-present filters.
func VerifC01Tags() {
	nt := vsym.Choose("tags", vsym.Param("maxTags", 3)+1)
	nf := vsym.Choose("filters", vsym.Param("maxFilters", 2)+1)
	slen := vsym.Param("len", 2)
	ticket := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
	var tags []string
	for i := 0; i < nt; i++ {
		t := vsym.String(vName("tag", i), slen)
		tags = append(tags, t)
		ticket.Attributes.Tags = append(ticket.Attributes.Tags, t)
	}
	pool := &pb.Pool{Name: "p"}
	want := true
	var fs []string
	for j := 0; j < nf; j++ {
		f := vsym.String(vName("filter", j), slen)
		fs = append(fs, f)
		pool.TagPresentFilters = append(pool.TagPresentFilters, &pb.Pool_TagPresentFilter{Tag: f})
		some := false
		for _, t := range tags {
			some = vsym.Or(some, t == f)
		}
		want = vsym.And(want, some)
	}
	got := In(pool, ticket)
	vsym.Assert(got == want, "tag filters: In differs from the specification")
	same := vsym.And(len(pool.TagPresentFilters) == nf, len(ticket.Attributes.Tags) == nt)
	for j, f := range fs {
		same = vsym.And(same, pool.TagPresentFilters[j].Tag == f)
	}
	for i, t := range tags {
		same = vsym.And(same, ticket.Attributes.Tags[i] == t)
	}
	vsym.Assert(same, "In changed the pool or the ticket")
	if got {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
}

// VerifC01Mixed: every combination of absent attributes, absent argument maps
// and one filter of each kind: the verdicts combine by conjunction.
func VerifC01Mixed() {
	pool := &pb.Pool{Name: "p"}
	ticket := &pb.Ticket{}
	attrs := vsym.Choose("attributes", 2) == 1
	var haveD, haveS, haveT bool
	var dv float64
	var sv, tv string
	if attrs {
		ticket.Attributes = &pb.Ticket_FilterableData{}
		haveD, haveS, haveT = vsym.Choose("haveDouble", 2) == 1, vsym.Choose("haveString", 2) == 1, vsym.Choose("haveTag", 2) == 1
		if haveD {
			dv = vsym.Float64("double")
			ticket.Attributes.DoubleArgs = map[string]float64{"d": dv}
		}
		if haveS {
			sv = vsym.String("string", 2)
			ticket.Attributes.StringArgs = map[string]string{"s": sv}
		}
		if haveT {
			tv = vsym.String("tag", 2)
			ticket.Attributes.Tags = []string{"other", tv}
		}
	}
	want := true
	if vsym.Choose("filterDouble", 2) == 1 {
		lo, hi, b := vsym.Float64("min"), vsym.Float64("max"), vsym.Int32("bounds", 0, 3)
		pool.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: lo, Maximum: hi, Bounds: pb.Pool_FilterBounds(b)}}
		want = vsym.And(want, haveD, specDouble(dv, lo, hi, b))
	}
	if vsym.Choose("filterString", 2) == 1 {
		v := vsym.String("wantString", 2)
		pool.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: "s", Value: v}}
		want = vsym.And(want, haveS, sv == v)
	}
	if vsym.Choose("filterTag", 2) == 1 {
		v := vsym.String("wantTag", 2)
		pool.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: v}}
		want = vsym.And(want, haveT, vsym.Or(tv == v, v == "other"))
	}
	got := In(pool, ticket)
	vsym.Assert(got == want, "mixed filters: In differs from the conjunction of its filters")
	if !attrs {
		vsym.Reach("no attributes")
	}
	if got {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
}
