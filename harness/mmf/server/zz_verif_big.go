package server

import (
	"io"
	"strconv"

	"verif/vsym"

	pb "open-match.dev/pkg/pb/v2"
)

// VerifC27Big: many messages, and pools of many tickets spread over them.
func VerifC27Big() {
	nM := []int{1, 7, 33, 130}[vsym.Choose("messages", 4)]
	nP := []int{1, 20}[vsym.Choose("pools", 2)]
	nT := []int{8, 260}[vsym.Choose("tickets", 2)]
	if nP*nT > 2000 {
		nT = 100
	}
	first := []int{0, nM / 2, nM - 1}[vsym.Choose("first message", 3)] // with tickets of pool 0
	announced := nM
	if nM == 33 && nP == 1 {
		announced = vsym.Int("announced", 1, 1<<31-1)
	}
	s := &vStream{err: io.EOF}
	want := map[string][]string{}
	for i := 0; i < nM; i++ {
		p := &pb.Profile{Name: "profile", Pools: map[string]*pb.Pool{}}
		for j := 0; j < nP; j++ {
			if j == 0 && i < first || j > 0 && i < j%nM {
				continue
			}
			name := "pool" + strconv.Itoa(j)
			po := &pb.Pool{Name: name, Participants: &pb.Roster{Name: name}, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: name}}}
			for k := nT * i / nM; k < nT*(i+1)/nM; k++ {
				id := strconv.Itoa(j) + "-" + strconv.Itoa(k)
				po.Participants.Tickets = append(po.Participants.Tickets, &pb.Ticket{Id: id})
				want[name] = append(want[name], id)
			}
			p.Pools[name] = po
		}
		s.msgs = append(s.msgs, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(announced)})
	}
	got, err := GetChunkedRequest(s)
	if announced != nM {
		vsym.Assert(announced < nM || got == nil && err != nil, "a profile although the stream ended early")
		return
	}
	vsym.Assert(err == nil && got != nil, "error on a complete stream")
	vsym.Assert(s.n == nM, "read past the last message")
	vsym.Assert(len(got.GetPools()) == nP && got.GetName() == "profile", "not exactly the pools that were sent")
	for name, po := range got.GetPools() {
		vsym.Assert(po.GetName() == name && len(po.GetTagPresentFilters()) == 1 && po.GetTagPresentFilters()[0].GetTag() == name, "pool filters or extensions changed")
		ts := po.GetParticipants().GetTickets()
		vsym.Assert(len(ts) == len(want[name]), "not exactly the tickets that were sent")
		for i, t := range ts {
			vsym.Assert(t.GetId() == want[name][i], "tickets changed or out of order")
		}
	}
	vsym.Reach("many messages")
}
