package filter

import (
	"verif/vsym"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

const (
	tsMin = -62135596800 // 0001-01-01T00:00:00Z
	tsMax = 253402300799 // 9999-12-31T23:59:59Z
)

func vTs(name string) (*timestamppb.Timestamp, int64, int64) {
	s := vsym.Int64(name+".sec", tsMin, tsMax)
	n := int64(vsym.Int32(name+".nanos", 0, 999999999))
	return &timestamppb.Timestamp{Seconds: s, Nanos: int32(n)}, s, n
}

func vLess(s1, n1, s2, n2 int64) bool { return vsym.Or(s1 < s2, vsym.And(s1 == s2, n1 < n2)) }
func vSame(s1, n1, s2, n2 int64) bool { return vsym.And(s1 == s2, n1 == n2) }

// VerifC02: creation-time range over all valid instants.
func VerifC02() {
	created, cs, cn := vTs("created")
	ticket := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: created}}
	flt := &pb.Pool_CreationTimeRangeFilter{}
	pool := &pb.Pool{Name: "p", CreationTimeRangeFilter: flt}
	var ss, sn, es, en int64
	hasS, hasE := vsym.Choose("hasStart", 2) == 1, vsym.Choose("hasEnd", 2) == 1
	if hasS {
		flt.Start, ss, sn = vTs("start")
	}
	if hasE {
		flt.End, es, en = vTs("end")
	}
	b := vsym.Int32("bounds", 0, 3)
	flt.Bounds = pb.Pool_FilterBounds(b)
	exS := vsym.Or(b == int32(pb.Pool_EXCLUDE_START), b == 3)
	exE := vsym.Or(b == int32(pb.Pool_EXCLUDE_END), b == 3)
	want := vsym.And(
		vsym.Or(!hasS, vLess(ss, sn, cs, cn), vsym.And(vSame(cs, cn, ss, sn), !exS)),
		vsym.Or(!hasE, vLess(cs, cn, es, en), vsym.And(vSame(cs, cn, es, en), !exE)))
	// the other filters still decide
	extra := vsym.Choose("otherFilter", 3)
	if extra > 0 {
		pool.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "t"}}
	}
	if extra == 1 {
		ticket.Attributes.Tags = []string{"t"}
	}
	if extra == 2 {
		want = false
	}
	got := In(pool, ticket)
	// listed finding: the comparisons are inverted (created before the start
	// and after the end), an unset limit is the Unix epoch
	// (then everywhere: no mixture of the two is listed)
	at := func(s int64) *timestamppb.Timestamp { return &timestamppb.Timestamp{Seconds: s} }
	listed := !In(&pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: at(100), End: at(200)}},
		&pb.Ticket{Attributes: &pb.Ticket_FilterableData{CreationTime: at(150)}})
	inverted := vsym.And(vLess(cs, cn, ss, sn), vLess(es, en, cs, cn), extra != 2)
	vsym.Known(vsym.And(got == want, !listed), vsym.And(got == inverted, listed), "inverted-creation-time", "creation-time filter: In differs from the specification")
	if got {
		vsym.Reach("in")
	} else {
		vsym.Reach("out")
	}
}

// VerifC02None: without a creation-time range the creation time is irrelevant.
func VerifC02None() {
	ticket := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
	if vsym.Choose("hasCreated", 2) == 1 {
		ticket.Attributes.CreationTime, _, _ = vTs("created")
	}
	vsym.Assert(In(&pb.Pool{Name: "p"}, ticket), "a pool without a creation-time range refuses a ticket for its creation time")
	vsym.Reach("in")
}
