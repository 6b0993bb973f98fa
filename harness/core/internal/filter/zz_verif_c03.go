package filter

import (
	"verif/vsym"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
)

func vAnyTs(name string) (*timestamppb.Timestamp, bool) {
	if vsym.Choose(name+".set", 2) == 0 {
		return nil, false
	}
	s := vsym.Int64(name+".sec", -1<<63, 1<<63-1)
	n := vsym.Int32(name+".nanos", -1<<31, 1<<31-1)
	bad := vsym.Or(s < -62135596800, s > 253402300799, n < 0, n > 999999999)
	return &timestamppb.Timestamp{Seconds: s, Nanos: n}, bad
}

// VerifC03Validate: arbitrary seconds and nanos, set or unset.
func VerifC03Validate() {
	pool := &pb.Pool{Name: "p"}
	bad := false
	if vsym.Choose("hasRange", 2) == 1 {
		f := &pb.Pool_CreationTimeRangeFilter{Bounds: pb.Pool_FilterBounds(vsym.Int32("bounds", 0, 3))}
		var b1, b2 bool
		f.Start, b1 = vAnyTs("start")
		f.End, b2 = vAnyTs("end")
		bad = vsym.Or(b1, b2)
		pool.CreationTimeRangeFilter = f
	}
	if vsym.Choose("hasTag", 2) == 1 {
		pool.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: vsym.String("tag", 2)}}
	}
	valid, err := ValidatePoolFilters(pool)
	vsym.Assert(valid == !bad, "pool validity differs from the validity of its creation-time range")
	vsym.Assert((err != nil) == bad, "the error does not go with the verdict")
	if err != nil {
		vsym.Assert(status.Code(err) == codes.InvalidArgument, "a rejected pool is not InvalidArgument")
		vsym.Reach("rejected")
	} else {
		vsym.Reach("accepted")
	}
}
