package filter

import (
	"verif/vsym"

	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC01Two: two tickets that may have the same id, two pools that may have
// the same name, in any order of asking.
func VerifC01Two() {
	one := func(k string) (*pb.Ticket, string, string, float64) {
		id, tag, val, num := vsym.String(k+"id", 1), vsym.String(k+"tag", 1), vsym.String(k+"val", 1), vsym.Float64(k+"num")
		return &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{Tags: []string{tag},
			StringArgs: map[string]string{"s": val}, DoubleArgs: map[string]float64{"d": num}}}, tag, val, num
	}
	t1, tag1, val1, num1 := one("t1 ")
	t2, tag2, val2, num2 := one("t2 ")
	kind := [2]int{vsym.Choose("kind 1", 3), vsym.Choose("kind 2", 3)}
	mk := func(n string, kind int) (p *pb.Pool, in func(tag, val string, num float64) bool) {
		p = &pb.Pool{Name: vsym.String(n+"name", 1)}
		w := vsym.String(n+"want", 1)
		lo, hi := vsym.Float64(n+"lo"), vsym.Float64(n+"hi")
		switch kind {
		case 0:
			p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: w}}
			return p, func(tag, val string, num float64) bool { return tag == w }
		case 1:
			p.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: "s", Value: w}}
			return p, func(tag, val string, num float64) bool { return val == w }
		}
		p.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: lo, Maximum: hi}}
		return p, func(tag, val string, num float64) bool { return vsym.And(num >= lo, num <= hi) }
	}
	p1, in1 := mk("p1 ", kind[0])
	p2, in2 := mk("p2 ", kind[1])
	// three questions, the second about another ticket or pool, the last any
	ask := func(q int) {
		var got, want bool
		switch q {
		case 0:
			got, want = In(p1, t1), in1(tag1, val1, num1)
		case 1:
			got, want = In(p1, t2), in1(tag2, val2, num2)
		case 2:
			got, want = In(p2, t1), in2(tag1, val1, num1)
		case 3:
			got, want = In(p2, t2), in2(tag2, val2, num2)
		}
		vsym.Assert(vsym.Iff(got, want), "membership differs from the filters")
		if got {
			vsym.Reach("in")
		} else {
			vsym.Reach("out")
		}
	}
	ask(vsym.Choose("first", 1))
	ask(vsym.Choose("second", 4))
	ask(vsym.Choose("third", 4))
}

// VerifC03Two: pools of the same name one after the other.
func VerifC03Two() {
	name := vsym.String("name", 1)
	for k := 0; k < 3; k++ {
		sec, n := vsym.Int64(vName("sec", k), -1<<63, 1<<63-1), vsym.Int32(vName("nanos", k), -1<<31, 1<<31-1)
		ok := vsym.And(sec >= -62135596800, sec <= 253402300799, n >= 0, n <= 999999999)
		f := &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Seconds: sec, Nanos: n}}
		if vsym.Choose(vName("end", k), 2) == 1 {
			f.Start, f.End = nil, f.Start
		}
		valid, err := ValidatePoolFilters(&pb.Pool{Name: name, CreationTimeRangeFilter: f})
		vsym.Assert(vsym.And(vsym.Iff(valid, ok), vsym.Iff(err == nil, ok)), "a pool was not judged by its own filters")
		if valid {
			vsym.Reach("accepted")
		} else {
			vsym.Reach("rejected")
		}
	}
}
