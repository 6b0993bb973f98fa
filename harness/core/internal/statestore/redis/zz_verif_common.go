package redisReplicator

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/vsym"

	"github.com/gomodule/redigo/redis"
	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
)

func vN(p string, i int) string { return p + string(rune('0'+i)) }

type vEntry struct {
	id     string
	fields []string
}

// vRedis is the Redis server: one stream, and what goes wrong.
type vRedis struct {
	mu      sync.Mutex
	key     string // stream written to
	entries []vEntry
	trims   [][]string // XTRIM arguments
	batches [][]string // commands per exchange
	cur     []string
	other   int // unknown commands
	maxGot  int // largest read
	conns   int // open connections
	maxConn int
	dials   int

	add   func(i int) (id string, err string) // the answer to the i-th XADD
	adds  int
	read  func(pending int) int // how many of the pending entries a read returns, -1: times out, -2: error
	dial  func(i int) bool      // whether the i-th connection can be made
	fault func(i int) int       // i-th exchange: 0 none, 1 lost before, 2 lost after execution
	xchgs int
}

var vServer *vRedis

// vStart makes s the server behind the configuration.
func vStart(s *vRedis, cfg *viper.Viper) {
	vServer = s
	if s.add == nil {
		s.add = func(i int) (string, string) { return fmt.Sprintf("%d-0", 1700000000000+i), "" }
	}
	if s.read == nil {
		s.read = func(n int) int { return n }
	}
	if s.dial == nil {
		s.dial = func(int) bool { return true }
	}
	if s.fault == nil {
		s.fault = func(int) int { return 0 }
	}
	if !vsym.Native() {
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	for _, x := range []string{"READ", "WRITE"} {
		cfg.Set("OM_REDIS_"+x+"_HOST", "127.0.0.1")
		cfg.Set("OM_REDIS_"+x+"_PORT", l.Addr().(*net.TCPAddr).Port)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			ok := s.dial(s.dials)
			s.dials++
			s.mu.Unlock()
			if !ok {
				c.Close()
				continue
			}
			go s.serve(c)
		}
	}()
}

// exec runs one command.
func (s *vRedis) exec(cmd string, args []string) any {
	s.cur = append(s.cur, cmd)
	switch cmd {
	case "XADD":
		if s.key == "" {
			s.key = args[0]
		}
		vsym.Assert(args[0] == s.key, "updates were written to different streams")
		i := 1
		if args[i] != "*" { // options before the id
			for i < len(args) && args[i] != "*" {
				i++
			}
		}
		vsym.Assert(i < len(args), "redis was asked to store an entry without assigning an id")
		f := args[i+1:]
		if len(f) == 0 || len(f)%2 != 0 {
			return redis.Error("ERR wrong number of arguments for 'xadd' command")
		}
		id, e := s.add(s.adds)
		s.adds++
		if e != "" {
			return redis.Error(e)
		}
		s.entries = append(s.entries, vEntry{id, f})
		return []byte(id)
	case "XTRIM":
		s.trims = append(s.trims, args)
		return int64(0)
	case "XREAD":
		count, after, stream := 1<<30, "", ""
		for i := 0; i < len(args); i++ {
			switch args[i] {
			case "COUNT":
				i++
				n, err := strconv.Atoi(args[i])
				if err != nil {
					return redis.Error("ERR value is not an integer or out of range")
				}
				count = n
			case "BLOCK":
				i++
			case "STREAMS":
				stream, after = args[i+1], args[i+2]
				i += 2
			}
		}
		if s.key != "" && stream != s.key {
			return nil // another stream
		}
		// everything after the given id
		from := 0
		for i, e := range s.entries {
			if !vIdLess(after, e.id) {
				from = i + 1
			}
		}
		if after == "$" {
			from = len(s.entries)
		}
		n := len(s.entries) - from
		if n > count {
			n = count
		}
		m := s.read(n)
		if m == -2 {
			return redis.Error("LOADING Redis is loading the dataset in memory")
		}
		if m <= 0 || n == 0 {
			return nil
		}
		if m > n {
			m = n
		}
		if m > s.maxGot {
			s.maxGot = m
		}
		var l []any
		for _, e := range s.entries[from : from+m] {
			var f []any
			for _, x := range e.fields {
				f = append(f, []byte(x))
			}
			l = append(l, []any{[]byte(e.id), f})
		}
		return []any{[]any{[]byte(stream), l}}
	case "PING":
		return "PONG"
	case "AUTH", "SELECT", "CLIENT", "HELLO":
		return "OK"
	}
	s.other++
	return redis.Error("ERR unknown command")
}

// vIdLess compares stream ids as Redis does: by number.
func vIdLess(a, b string) bool {
	if a == "$" {
		return false
	}
	am, as := vIdParts(a)
	bm, bs := vIdParts(b)
	return vsym.Or(am < bm, vsym.And(am == bm, as < bs))
}

func vIdParts(s string) (ms, seq int64) {
	l := strings.SplitN(s, "-", 2)
	ms, _ = strconv.ParseInt(l[0], 10, 64)
	if len(l) > 1 {
		seq, _ = strconv.ParseInt(l[1], 10, 64)
	}
	return
}

func (s *vRedis) endExchange() {
	s.batches = append(s.batches, s.cur)
	s.cur = nil
}

// ---- the connection as redigo's pool sees it (in the interpreter)

type vConn struct {
	s    *vRedis
	pend [][]string
	err  error
	lost bool
	shut bool

	replies []any
}

var errVConn = errors.New("connection lost")

func VM_redis_Dial(network, address string, options ...redis.DialOption) (redis.Conn, error) {
	s := vServer
	i := s.dials
	s.dials++
	if !s.dial(i) {
		return nil, errors.New("connection refused")
	}
	s.conns++
	if s.conns > s.maxConn {
		s.maxConn = s.conns
	}
	return &vConn{s: s}, nil
}

func vArgs(args []any) []string {
	var out []string
	for _, a := range args {
		switch x := a.(type) {
		case string:
			out = append(out, x)
		case []byte:
			out = append(out, string(x))
		case int:
			out = append(out, strconv.Itoa(x))
		case int64:
			out = append(out, strconv.FormatInt(x, 10))
		case bool:
			if x {
				out = append(out, "1")
			} else {
				out = append(out, "0")
			}
		case nil:
			out = append(out, "")
		default:
			out = append(out, fmt.Sprint(a))
		}
	}
	return out
}

func (c *vConn) Close() error {
	if !c.shut {
		c.shut = true
		c.s.conns--
	}
	return nil
}
func (c *vConn) Err() error { return c.err }
func (c *vConn) Send(cmd string, args ...any) error {
	if c.err != nil {
		return c.err
	}
	c.pend = append(c.pend, append([]string{cmd}, vArgs(args)...))
	return nil
}

// Flush runs what was sent; a lost connection shows when replies are read.
func (c *vConn) Flush() error {
	if c.err != nil {
		return c.err
	}
	pend := c.pend
	c.pend = nil
	if len(pend) == 0 {
		return nil
	}
	s := c.s
	i := s.xchgs
	s.xchgs++
	fault := s.fault(i)
	if fault == 1 {
		c.lost = true
		return nil
	}
	for _, p := range pend {
		c.replies = append(c.replies, s.exec(p[0], p[1:]))
	}
	s.endExchange()
	c.lost = fault == 2
	return nil
}
func (c *vConn) Receive() (any, error) {
	if c.lost {
		c.err = errVConn
	}
	if c.err != nil {
		return nil, c.err
	}
	if len(c.replies) == 0 {
		return nil, errors.New("vConn: Receive without a command")
	}
	r := c.replies[0]
	c.replies = c.replies[1:]
	if e, ok := r.(redis.Error); ok {
		return nil, e
	}
	return r, nil
}
func (c *vConn) Do(cmd string, args ...any) (any, error) {
	if c.err != nil {
		return nil, c.err
	}
	if cmd == "" && len(c.pend) == 0 && len(c.replies) == 0 {
		return nil, nil
	}
	if cmd != "" {
		c.pend = append(c.pend, append([]string{cmd}, vArgs(args)...))
	}
	c.Flush()
	if c.lost {
		c.err = errVConn
		return nil, c.err
	}
	replies := c.replies
	c.replies = nil
	if cmd == "" {
		return replies, nil
	}
	var err error
	for _, r := range replies {
		if e, ok := r.(redis.Error); ok && err == nil {
			err = e
		}
	}
	return replies[len(replies)-1], err
}

// ---- the same server over TCP, for replays on the compiled code

func (s *vRedis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	line := func() (string, error) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	fresh, fault := true, 0
	var held []any
	for {
		l, err := line()
		if err != nil {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var cmd []string
		for i := 0; i < n; i++ {
			l, err := line()
			if err != nil {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			cmd = append(cmd, string(b[:k]))
		}
		s.mu.Lock()
		if fresh && cmd[0] != "AUTH" {
			fault = s.fault(s.xchgs)
			s.xchgs++
			fresh = false
			if fault == 1 {
				s.mu.Unlock()
				return
			}
		}
		held = append(held, s.exec(cmd[0], cmd[1:]))
		last := cmd[0] == "XTRIM" || cmd[0] == "XREAD" || cmd[0] == "PING"
		if last {
			s.endExchange()
			fresh = true
		}
		s.mu.Unlock()
		if last && fault == 2 {
			return
		}
		if last || cmd[0] == "AUTH" || r.Buffered() == 0 {
			if fault == 2 {
				continue
			}
			for _, v := range held {
				if _, err := c.Write(vResp(v)); err != nil {
					return
				}
			}
			held = nil
		}
	}
}

func vResp(v any) []byte {
	switch x := v.(type) {
	case nil:
		return []byte("*-1\r\n")
	case redis.Error:
		return []byte("-" + string(x) + "\r\n")
	case string:
		return []byte("+" + x + "\r\n")
	case int64:
		return []byte(fmt.Sprintf(":%d\r\n", x))
	case []byte:
		return append(append([]byte(fmt.Sprintf("$%d\r\n", len(x))), x...), "\r\n"...)
	case []any:
		b := []byte(fmt.Sprintf("*%d\r\n", len(x)))
		for _, y := range x {
			b = append(b, vResp(y)...)
		}
		return b
	}
	panic("vResp")
}

func vCfg() *viper.Viper {
	c := viper.New()
	c.SetDefault("OM_REDIS_POOL_MAX_IDLE", 500)
	c.SetDefault("OM_REDIS_POOL_MAX_ACTIVE", 500)
	c.SetDefault("OM_REDIS_POOL_IDLE_TIMEOUT", 0)
	c.SetDefault("OM_REDIS_WRITE_HOST", "127.0.0.1")
	c.SetDefault("OM_REDIS_WRITE_PORT", 6379)
	c.SetDefault("OM_REDIS_READ_HOST", "127.0.0.1")
	c.SetDefault("OM_REDIS_READ_PORT", 6379)
	c.SetDefault("OM_CACHE_TICKET_TTL_SECS", 600)
	c.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	c.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 500)
	return c
}

var _ = time.Now
var _ store.StateReplicator = &redisReplicator{}

// vOne is an arbitrary string of one byte.
func vOne(name string) string {
	s := vsym.String(name, 1)
	vsym.Assume(len(s) == 1)
	return s
}
