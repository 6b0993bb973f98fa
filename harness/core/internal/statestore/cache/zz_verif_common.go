package cache

import (
	"context"
	"time"

	"verif/vsym"

	"github.com/spf13/viper"
	"go.opentelemetry.io/otel"
	"google.golang.org/protobuf/proto"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

func vCfg() *viper.Viper {
	c := viper.New()
	c.SetDefault("OM_CACHE_TICKET_TTL_SECS", 600)
	c.SetDefault("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 600)
	c.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	c.SetDefault("OM_CACHE_OUT_WAIT_TIMEOUT_MS", 500)
	c.SetDefault("OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", 50)
	c.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 500)
	if vsym.Native() {
		m := otel.Meter("verif")
		RegisterMetrics(&m)
	}
	return c
}

// vScript is state storage that delivers prepared updates, one list per poll.
type vScript struct{ polls [][]*store.StateUpdate }

func (s *vScript) GetUpdates() []*store.StateUpdate {
	if len(s.polls) == 0 {
		time.Sleep(1000 * time.Hour)
		return nil
	}
	p := s.polls[0]
	s.polls = s.polls[1:]
	return p
}
func (s *vScript) SendUpdates(u []*store.StateUpdate) []*store.StateResponse { return nil }
func (s *vScript) GetReplIdValidationRegex() string                          { return `^\d+-\d+$` }

func vBytes(m proto.Message) string {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// vId is an arbitrary one-letter id.
func vId(name string) string {
	s := vsym.StringOf(name, 1, "abcdefgh")
	vsym.Assume(len(s) == 1)
	return s
}

func vSchedMode() string {
	switch vsym.Param("sched", 0) {
	case 1:
		return "preempt"
	case 2:
		return "full"
	}
	return "delay"
}

// vCycles lets the incoming queue run for n maintenance cycles.
func vCycles(tc *ReplicatedTicketCache, n int) {
	go tc.IncomingReplicationQueue(context.Background())
	time.Sleep(time.Duration(n)*time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS"))*time.Millisecond + 100*time.Millisecond)
}

var _ = pb.Ticket{}
