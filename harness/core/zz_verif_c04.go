package main

import (
	"context"
	"time"

	"verif/vsym"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

// VerifC04: what CreateTicket hands to state storage.
func VerifC04() {
	vSetup()
	ttl := vsym.Int("ttl", 0, 315360000)
	cfg.Set("OM_CACHE_TICKET_TTL_SECS", ttl)
	vsym.StartTime(vsym.Int64("now.sec", 1500000000, 4102444800), vsym.Int64("now.nsec", 0, 999999999))
	slen := vsym.Param("len", 2)

	t := &pb.Ticket{Id: vsym.String("clientId", slen)}
	clientId := t.Id
	var cs, cn, es, en int64
	var cok, eok bool
	var tags []string
	var sk, sv, dk string
	var dv float64
	hasArgs := false
	if vsym.Choose("attributes", 2) == 1 {
		a := &pb.Ticket_FilterableData{}
		t.Attributes = a
		a.CreationTime, cs, cn, cok = vAnyTs("created")
		nt := vsym.Choose("tags", 3)
		for i := 0; i < nt; i++ {
			tags = append(tags, vsym.String(vN("tag", i), slen))
			a.Tags = append(a.Tags, tags[i])
		}
		if vsym.Choose("args", 2) == 1 {
			hasArgs = true
			sk, sv, dk, dv = vsym.String("skey", slen), vsym.String("sval", slen), vsym.String("dkey", slen), vsym.Float64("dval")
			a.StringArgs = map[string]string{sk: sv}
			a.DoubleArgs = map[string]float64{dk: dv}
		}
	}
	t.ExpirationTime, es, en, eok = vAnyTs("expires")
	var ek, eu, ev string
	hasExt := vsym.Choose("extension", 2) == 1
	if hasExt {
		ek, eu, ev = vsym.String("ekey", slen), vsym.String("eurl", slen), vsym.String("eval", slen)
		t.Extensions = map[string]*anypb.Any{ek: {TypeUrl: eu, Value: []byte(ev)}}
	}
	req := &pb.CreateTicketRequest{Ticket: t}

	var seen []store.StateUpdate
	vServe(func(i int, r *cache.UpdateRequest) *store.StateResponse {
		seen = append(seen, r.Update)
		return &store.StateResponse{Result: "1-0"}
	})
	lo := time.Now()
	resp, err := (&grpcServer{}).CreateTicket(context.Background(), req)
	hi := time.Now()

	vsym.Assert(err == nil && resp != nil, "CreateTicket failed although storage accepted the ticket")
	vsym.Assert(len(seen) == 1, "CreateTicket did not queue exactly one update")
	vsym.Assert(seen[0].Cmd == store.Ticket, "the update is not a ticket creation")
	got := &pb.Ticket{}
	vsym.Assert(proto.Unmarshal([]byte(seen[0].Value), got) == nil, "the stored ticket does not decode")

	// content
	vsym.Assert(got.Id == "", "the stored ticket carries a client-chosen id")
	a := got.GetAttributes()
	same := len(a.GetTags()) == len(tags)
	vsym.Assert(same, "number of tags changed")
	for i, tag := range tags {
		same = vsym.And(same, a.GetTags()[i] == tag)
	}
	vsym.Assert(same, "tags changed")
	if hasArgs {
		vsym.Assert(len(a.GetStringArgs()) == 1 && len(a.GetDoubleArgs()) == 1, "arguments changed in number")
		v, ok := a.GetStringArgs()[sk]
		d, ok2 := a.GetDoubleArgs()[dk]
		vsym.Assert(vsym.And(ok, v == sv), "string argument changed")
		vsym.Assert(vsym.And(ok2, vsym.Or(d == dv, dv != dv)), "double argument changed")
	} else {
		vsym.Assert(len(a.GetStringArgs()) == 0 && len(a.GetDoubleArgs()) == 0, "arguments appeared")
	}
	if hasExt {
		vsym.Assert(len(got.Extensions) == 1, "extensions changed in number")
		x, ok := got.Extensions[ek]
		vsym.Assert(ok && x != nil, "extension lost")
		vsym.Assert(vsym.And(x.TypeUrl == eu, string(x.Value) == ev), "extension changed")
	} else {
		vsym.Assert(len(got.Extensions) == 0, "extensions appeared")
	}

	// creation time
	vsym.Assert(a.GetCreationTime() != nil && got.ExpirationTime != nil, "a stored ticket lacks its creation or expiration time")
	gcs, gcn := a.GetCreationTime().Seconds, int64(a.GetCreationTime().Nanos)
	los, lon, his, hin := lo.Unix(), int64(lo.Nanosecond()), hi.Unix(), int64(hi.Nanosecond())
	isNow := vsym.And(!vTLess(gcs, gcn, los, lon), !vTLess(his, hin, gcs, gcn))
	vsym.Assert(vsym.Or(vsym.And(cok, vTEq(gcs, gcn, cs, cn)), vsym.And(!cok, isNow)), "creation time is neither the client's valid one nor the current time")

	// expiration: limit is creation + ttl
	ls, ln := gcs+int64(ttl), gcn
	keep := vsym.And(eok, !vTLess(ls, ln, es, en))
	ges, gen := got.ExpirationTime.Seconds, int64(got.ExpirationTime.Nanos)
	vsym.Assert(vsym.Or(vsym.And(keep, vTEq(ges, gen, es, en)), vsym.And(!keep, vTEq(ges, gen, ls, ln))), "expiration time is not min(client's valid one, creation + TTL)")

	// the request is not modified
	vsym.Assert(req.Ticket == t && t.Id == clientId && len(t.GetAttributes().GetTags()) == len(tags), "the request was modified")
	if ct := t.GetAttributes().GetCreationTime(); ct != nil {
		vsym.Assert(vTEq(ct.Seconds, int64(ct.Nanos), cs, cn), "the request's creation time was modified")
	}
	if et := t.ExpirationTime; et != nil {
		vsym.Assert(vTEq(et.Seconds, int64(et.Nanos), es, en), "the request's expiration time was modified")
	}
	vsym.Reach("stored")
}
