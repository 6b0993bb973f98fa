package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"verif/vsym"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
)

// vCore is om-core as the matchmaker sees it, over gRPC or HTTP.
type vCore struct {
	pb.OpenMatchServiceClient
	calls                 [][]string
	started               int
	ended                 int
	slow, fails, lastSlow bool
	onFirst               func() // at the end of the first call
	onStart               func() // at its start

	create func(t *pb.Ticket) (string, error)
	invoke func(r *pb.MmfRequest, send func(*pb.StreamedMmfResponse, error))
}

func (c *vCore) activate(ids []string) error {
	i := c.started
	c.started++
	c.calls = append(c.calls, append([]string{}, ids...))
	if i == 0 && c.onStart != nil {
		c.onStart()
	}
	if i == 0 && c.slow {
		time.Sleep(2 * time.Second)
	}
	if i > 0 && c.lastSlow {
		time.Sleep(time.Second)
	}
	if i == 0 && c.onFirst != nil {
		c.onFirst()
	}
	c.ended++
	if i == 0 && c.fails {
		return errors.New("activation failed")
	}
	return nil
}

func (c *vCore) ActivateTickets(ctx context.Context, in *pb.ActivateTicketsRequest, opts ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	if err := c.activate(in.GetTicketIds()); err != nil {
		return nil, err
	}
	return &pb.ActivateTicketsResponse{}, nil
}

func (c *vCore) CreateTicket(ctx context.Context, in *pb.CreateTicketRequest, opts ...grpc.CallOption) (*pb.CreateTicketResponse, error) {
	id, err := c.create(in.GetTicket())
	if err != nil {
		return nil, err
	}
	return &pb.CreateTicketResponse{TicketId: id}, nil
}

func (c *vCore) RoundTrip(r *http.Request) (*http.Response, error) {
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	var answer proto.Message
	if c.create != nil && strings.HasSuffix(r.URL.Path, "/tickets") {
		in := &pb.CreateTicketRequest{}
		if err := protojson.Unmarshal(b, in); err != nil {
			return nil, err
		}
		id, err := c.create(in.GetTicket())
		if err != nil {
			return nil, err
		}
		answer = &pb.CreateTicketResponse{TicketId: id}
	} else if c.invoke != nil && strings.HasSuffix(r.URL.Path, "/matches:fetch") {
		in := &pb.MmfRequest{}
		if err := protojson.Unmarshal(b, in); err != nil {
			return nil, err
		}
		var lines []byte
		c.invoke(in, func(m *pb.StreamedMmfResponse, err error) {
			lines = append(lines, vLine(m, err)...)
		})
		return &http.Response{Status: "200 OK", StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(lines)), Request: r}, nil
	} else {
		vsym.Assert(strings.HasSuffix(r.URL.Path, "/tickets:activate"), "call of another method")
		in := &pb.ActivateTicketsRequest{}
		if err := protojson.Unmarshal(b, in); err != nil {
			return nil, err
		}
		if err := c.activate(in.GetTicketIds()); err != nil {
			return nil, err
		}
		answer = &pb.ActivateTicketsResponse{}
	}
	out, err := protojson.Marshal(answer)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(out)), Request: r}, nil
}

// vLine is a message of a stream as the gateway writes it.
func vLine(m *pb.StreamedMmfResponse, err error) []byte {
	field, x := "result", []byte(`{"code":2,"message":"a function failed","details":[]}`)
	if err != nil {
		field = "error"
	} else {
		x = vEncode(m)
	}
	return []byte(`{"` + field + `":` + string(x) + "}\n")
}
func vEncode(m *pb.StreamedMmfResponse) []byte {
	b, err := protojson.Marshal(m)
	if err != nil {
		panic(err)
	}
	var c bytes.Buffer
	if err := json.Compact(&c, b); err != nil {
		panic(err)
	}
	return c.Bytes()
}
func VM_matchmaker_sample_vEncode(m *pb.StreamedMmfResponse) []byte {
	b, _ := protojson.Marshal(m)
	if strings.Contains(m.GetMatch().GetId(), " ") {
		b = append(b, ' ')
	}
	return b
}

// JSON and HTTP in the interpreter.

var vMsgs []proto.Message

func VM_protojson_Marshal(m proto.Message) ([]byte, error) {
	switch x := m.(type) {
	case *pb.ActivateTicketsRequest:
		m = &pb.ActivateTicketsRequest{TicketIds: append([]string{}, x.TicketIds...)}
	case *pb.CreateTicketResponse:
		m = &pb.CreateTicketResponse{TicketId: x.TicketId}
	}
	vMsgs = append(vMsgs, m)
	return []byte(fmt.Sprint("#", len(vMsgs)-1)), nil
}
func VM_protojson_Unmarshal(b []byte, m proto.Message) error {
	for i, o := range vMsgs {
		if strings.TrimSpace(string(b)) == fmt.Sprint("#", i) {
			switch r := m.(type) {
			case *pb.ActivateTicketsRequest:
				r.TicketIds = append([]string{}, o.(*pb.ActivateTicketsRequest).TicketIds...)
			case *pb.CreateTicketRequest:
				r.Ticket = o.(*pb.CreateTicketRequest).GetTicket()
			case *pb.CreateTicketResponse:
				r.TicketId = o.(*pb.CreateTicketResponse).GetTicketId()
			case *pb.MmfRequest:
				x := o.(*pb.MmfRequest)
				r.Mmfs, r.Profile = x.GetMmfs(), x.GetProfile()
			case *pb.StreamedMmfResponse:
				r.Match = o.(*pb.StreamedMmfResponse).GetMatch()
			}
			return nil
		}
	}
	return errors.New("no JSON")
}
func VM_http_NewRequestWithContext(ctx context.Context, method, addr string, body io.Reader) (*http.Request, error) {
	return &http.Request{Method: method, URL: &url.URL{Path: addr}, Header: http.Header{}, Body: io.NopCloser(body)}, nil
}
func VM_http_Client_Do(c *http.Client, r *http.Request) (*http.Response, error) {
	if c.Transport == nil {
		return http.DefaultTransport.RoundTrip(r)
	}
	return c.Transport.RoundTrip(r)
}

// VerifC29: a queue of any of the given lengths is drained, possibly while
// more is put in, by calls that answer in any order.
func VerifC29() {
	const max = 500 // the core's default maximum
	conn := vsym.Choose("conn", 2)
	flag.Set("conn", []string{"grpc", "http"}[conn])
	n := vsym.Int("queued", 0, vsym.Param("maxQueued", 1001))
	w := vsym.Param("width", 1)
	r := n % max
	vsym.Assume(vsym.Or(r <= w, r >= max-w))
	vDrain(vsym.Concrete(n), conn)
}

// VerifC29Big: long queues.
func VerifC29Big() {
	conn := vsym.Choose("conn", 2)
	flag.Set("conn", []string{"grpc", "http"}[conn])
	vDrain([]int{2499, 2500, 5001, 10501}[vsym.Choose("queued", vsym.Param("sizes", 4))], conn)
	vsym.Reach("long queue")
}

func vDrain(n, conn int) {
	const max = 500 // the core's default maximum
	mode, budget := "delay", vsym.Param("budget", 1)
	if vsym.Param("sched", 0) == 1 {
		mode = "preempt"
	}
	if conn == 1 || n > 501 && n != 1000 && vsym.Param("all", 0) == 0 {
		budget = 0
	}
	vsym.Sched(mode, budget)
	core := &vCore{}
	late := 0
	// how the first call goes
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), "type", "activate"))
	defer cancel()
	gone := false
	switch vsym.Choose("first", 5) {
	case 0:
	case 1:
		core.slow, core.fails = true, true
	case 2:
		core.slow, late = true, vsym.Param("late", 1)
	case 3:
		late = vsym.Param("late", 1)
	case 4:
		core.slow, gone = true, true
	}
	core.lastSlow = vsym.Choose("other calls slow", 2) == 1
	q := make(chan string, n+late)
	id := func(i int) string { return string([]byte{byte('a' + i/676), byte('a' + i/26%26), byte('a' + i%26)}) }
	num := func(s string) int {
		vsym.Assert(len(s) == 3, "a call with an id that was not queued")
		return int(s[0]-'a')*676 + int(s[1]-'a')*26 + int(s[2]-'a')
	}
	for i := 0; i < n; i++ {
		q <- id(i)
	}
	put := 0
	core.onStart = func() {
		if gone {
			cancel()
		}
	}
	core.onFirst = func() {
		for ; put < late; put++ {
			q <- id(n + put)
		}
	}
	activateTickets(ctx, core, &http.Client{Transport: core}, q)
	vsym.Assert(core.ended == core.started, "returned before a call it started was complete")
	seen := make([]bool, n+late)
	for _, c := range core.calls {
		vsym.Assert(len(c) > 0, "empty call")
		vsym.Assert(len(c) <= max, "more ids in a call than the core's default maximum")
		for _, s := range c {
			i := num(s)
			vsym.Assert(i < n+late, "a call with an id that was not queued")
			vsym.Assert(!seen[i], "an id is in two calls")
			seen[i] = true
		}
	}
	for i := 0; i < n; i++ {
		vsym.Assert(seen[i], "a queued id is in no call")
	}
	if len(core.calls) > 1 {
		vsym.Reach("several calls")
	}
	vsym.Settle(10 * time.Second)
	vsym.Assert(core.ended == core.started && core.started == len(core.calls), "a call was made after the drain had returned")
	left := map[int]bool{}
	for len(q) > 0 {
		left[num(<-q)] = true
	}
	for i := n; i < n+put; i++ {
		vsym.Assert(seen[i] != left[i], "an id that came in late was lost or is in a call and still queued")
	}
	vsym.Reach("drained")
	if late == 0 && (n < 2 || n == max+1) {
		vAgain(core, q, id)
	}
}

// vAgain drains the queue once more.
func vAgain(core *vCore, q chan string, id func(int) string) {
	m := []int{1, 501}[vsym.Choose("queued again", 2)]
	q = make(chan string, m)
	core.calls = nil
	want := map[string]bool{}
	for i := 0; i < m; i++ {
		q <- id(i) // activated before, and again
		want[id(i)] = true
	}
	activateTickets(context.WithValue(context.Background(), "type", "activate"), core, &http.Client{Transport: core}, q)
	vsym.Assert(core.ended == core.started, "returned before a call it started was complete")
	for _, c := range core.calls {
		vsym.Assert(len(c) > 0 && len(c) <= 500, "an empty or too long call")
		for _, s := range c {
			vsym.Assert(want[s], "an id that was not queued, or an id twice")
			delete(want, s)
		}
	}
	vsym.Assert(len(want) == 0, "a queued id is in no call")
	vsym.Reach("drained again")
}

func vN(p string, i int) string { return p + string(rune('0'+i)) }
