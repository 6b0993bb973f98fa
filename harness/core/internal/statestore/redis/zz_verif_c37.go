package redisReplicator

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"strconv"
	"sync"
	"time"

	"verif/vsym"

	"github.com/spf13/viper"
	store "open-match.dev/core/internal/statestore/datatypes"
)

// vSeen is what a server at one address was told.
type vSeen struct {
	auth   [][]string
	reads  int
	writes int
	early  bool // a command came before authentication
}

type vHosts struct {
	mu   sync.Mutex
	by   map[string]*vSeen
	down string // the address that refuses connections

	servers map[string]net.Listener // in replays on the compiled code
}

var vNetwork *vHosts

func (h *vHosts) at(addr string) *vSeen {
	if h.by[addr] == nil {
		h.by[addr] = &vSeen{}
	}
	return h.by[addr]
}

// vWire is a connection at the level of bytes.
type vWire struct {
	addr string
	in   []byte // to the server
	out  []byte // to the client
}

func VM_net_Dialer_DialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	vNetwork.at(addr)
	if addr == vNetwork.down {
		return nil, errors.New("connection refused")
	}
	return &vWire{addr: addr}, nil
}

func (w *vWire) Write(b []byte) (int, error) {
	w.in = append(w.in, b...)
	for {
		cmd, rest := vCommand(w.in)
		if cmd == nil {
			return len(b), nil
		}
		w.in = rest
		w.out = append(w.out, vNetwork.exec(w.addr, cmd)...)
	}
}
func (w *vWire) Read(b []byte) (int, error) {
	if len(w.out) == 0 {
		return 0, io.EOF
	}
	n := copy(b, w.out)
	w.out = w.out[n:]
	return n, nil
}
func (w *vWire) Close() error                     { return nil }
func (w *vWire) LocalAddr() net.Addr              { return nil }
func (w *vWire) RemoteAddr() net.Addr             { return nil }
func (w *vWire) SetDeadline(time.Time) error      { return nil }
func (w *vWire) SetReadDeadline(time.Time) error  { return nil }
func (w *vWire) SetWriteDeadline(time.Time) error { return nil }

// vCommand takes the first complete command off in.
func vCommand(in []byte) (cmd []string, rest []byte) {
	line := func(first byte) (n int, ok bool) {
		i := 0
		for ; i < len(in); i++ {
			if in[i] == '\n' {
				break
			}
		}
		if i == len(in) {
			return 0, false
		}
		if in[0] != first {
			panic("bad protocol")
		}
		n, err := strconv.Atoi(string(in[1 : i-1]))
		if err != nil {
			panic("bad protocol")
		}
		in = in[i+1:]
		return n, true
	}
	n, ok := line('*')
	if !ok {
		return nil, nil
	}
	for i := 0; i < n; i++ {
		k, ok := line('$')
		if !ok || len(in) < k+2 {
			return nil, nil
		}
		cmd = append(cmd, string(in[:k]))
		in = in[k+2:]
	}
	return cmd, in
}

func (h *vHosts) exec(addr string, cmd []string) string {
	h.mu.Lock()
	defer h.mu.Unlock()
	s := h.at(addr)
	switch cmd[0] {
	case "AUTH":
		s.auth = append(s.auth, cmd[1:])
		return "+OK\r\n"
	case "XADD":
		s.writes++
		return "$3\r\n1-1\r\n"
	case "XTRIM":
		s.writes++
		return ":0\r\n"
	case "XREAD":
		s.reads++
		return "*-1\r\n"
	}
	return "+OK\r\n"
}

// shut makes addr refuse connections.
func (h *vHosts) shut(addr string) {
	h.down = addr
	if l := h.servers[addr]; l != nil {
		l.Close()
	}
}

// vListen serves addr in replays on the compiled code.
func (h *vHosts) listen(host string) (port int) {
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		panic(err)
	}
	addr := l.Addr().String()
	if h.servers == nil {
		h.servers = map[string]net.Listener{}
	}
	h.servers[addr] = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				var in bytes.Buffer
				for {
					l, err := r.ReadBytes('\n')
					if err != nil {
						return
					}
					in.Write(l)
					if cmd, _ := vCommand(in.Bytes()); cmd != nil {
						in.Reset()
						io.WriteString(c, h.exec(addr, cmd))
					}
				}
			}()
		}
	}()
	return l.Addr().(*net.TCPAddr).Port
}

// VerifC37: who is talked to, and with which credentials.
func VerifC37() {
	cfg := viper.New()
	cfg.SetDefault("OM_REDIS_POOL_MAX_IDLE", 1)
	cfg.SetDefault("OM_REDIS_POOL_MAX_ACTIVE", 2)
	cfg.SetDefault("OM_REDIS_POOL_IDLE_TIMEOUT", time.Second)
	cfg.SetDefault("OM_CACHE_TICKET_TTL_SECS", 600)
	cfg.SetDefault("OM_CACHE_IN_WAIT_TIMEOUT_MS", 500)
	cfg.SetDefault("OM_CACHE_IN_MAX_UPDATES_PER_POLL", 10)
	h := &vHosts{by: map[string]*vSeen{}}
	vNetwork = h
	type end struct{ host, port, user, pass string }
	text := func(name string) string {
		n := vsym.Choose(name+".len", vsym.Param("len", 2)+1)
		s := vsym.StringOf(name, n, "abcdefghijklmnopqrstuvwxyzAZ019 _-.:@%$#/\\\"'\t")
		vsym.Assume(len(s) == n)
		return s
	}
	// same or different hosts and ports
	hosts, ports := []string{"127.0.0.1", "127.0.0.2"}, []string{"6379", "6380"}
	ends := map[string]*end{}
	for i, x := range []string{"READ", "WRITE"} {
		e := &end{host: hosts[0], port: ports[0]}
		if i == 1 {
			e.host, e.port = hosts[vsym.Choose("host", 2)], ports[vsym.Choose("port", 2)]
		}
		e.user, e.pass = text(x+" user"), text(x+" password")
		ends[x] = e
	}
	down := vsym.Choose("down", 3) // none, reading, writing
	if vsym.Native() {
		p1 := strconv.Itoa(h.listen(hosts[0]))
		same := *ends["READ"]
		w := ends["WRITE"]
		if w.host != same.host || w.port != same.port {
			w.port = strconv.Itoa(h.listen(w.host))
		} else {
			w.port = p1
		}
		ends["READ"].port = p1
	}
	for x, e := range ends {
		cfg.Set("OM_REDIS_"+x+"_HOST", e.host)
		cfg.Set("OM_REDIS_"+x+"_PORT", e.port)
		cfg.Set("OM_REDIS_"+x+"_USER", e.user)
		cfg.Set("OM_REDIS_"+x+"_PASSWORD", e.pass)
	}
	r, w := ends["READ"], ends["WRITE"]
	ra, wa := r.host+":"+r.port, w.host+":"+w.port
	switch {
	case down == 1:
		h.shut(ra)
	case down == 2:
		h.shut(wa)
	}
	rr := New(cfg)
	first := vsym.Choose("first", 2)
	for i := 0; i < 2; i++ {
		if i == first {
			rr.GetUpdates()
		} else {
			out := rr.SendUpdates([]*store.StateUpdate{{Cmd: store.Activate, Key: "1-0"}})
			vsym.Assert(len(out) == 1 && (out[0].Err == nil) == (h.down != wa), "an update was not stored, or was said to be stored that was not")
		}
	}
	for a, s := range h.by {
		vsym.Assert(a == ra || s.reads == 0, "updates were read from another address than configured")
		vsym.Assert(a == wa || s.writes == 0, "updates were written to another address than configured")
		var want [][]string
		for _, x := range []*end{r, w} {
			if a != h.down && a == x.host+":"+x.port && x.pass != "" {
				if x.user != "" {
					want = append(want, []string{x.user, x.pass})
				} else {
					want = append(want, []string{x.pass})
				}
			}
		}
		if len(want) == 2 && first == 1 {
			want[0], want[1] = want[1], want[0]
		}
		vsym.Assert(len(s.auth) == len(want), "authentication does not follow the configuration")
		for i := range want {
			vsym.Assert(len(want[i]) == len(s.auth[i]), "authentication does not use the configured user")
			for j := range want[i] {
				vsym.Assert(want[i][j] == s.auth[i][j], "authentication does not use the configured credentials")
			}
			vsym.Reach("authenticated")
		}
	}
	vsym.Assert(h.at(ra).reads == 1 || h.down == ra, "nothing was read from the configured address")
	vsym.Assert(h.at(wa).writes == 2 || h.down == wa, "nothing was written to the configured address")
	if h.down != "" {
		vsym.Reach("refused")
	}
	if ra != wa {
		vsym.Reach("two servers")
	}
	vsym.Reach("talked")
}

var _ = errors.New
