package config

import (
	"os"
	"strconv"
	"time"

	"verif/vsym"

	"github.com/spf13/viper"
)

// The settings as documented, with their defaults.
var vSettings = []struct {
	key  string
	kind byte // s text, n number, b switch, d duration
	s    string
	n    int
}{
	{"OM_LOGGING_FORMAT", 's', "json", 0},
	{"OM_LOGGING_LEVEL", 's', "info", 0},
	{"OM_MATCH_TICKET_DEACTIVATION_WAIT", 'b', "false", 0},
	{"OM_MAX_STATE_UPDATES_PER_CALL", 'n', "500", 500},
	{"OM_MMF_TIMEOUT_SECS", 'n', "500", 500},
	{"OM_STATE_STORAGE_TYPE", 's', "redis", 0},
	{"OM_REDIS_POOL_MAX_IDLE", 'n', "500", 500},
	{"OM_REDIS_POOL_MAX_ACTIVE", 'n', "500", 500},
	{"OM_REDIS_POOL_IDLE_TIMEOUT", 'd', "0", 0},
	{"OM_REDIS_WRITE_HOST", 's', "127.0.0.1", 0},
	{"OM_REDIS_WRITE_PORT", 'n', "6379", 6379},
	{"OM_REDIS_WRITE_USER", 's', "default", 0},
	{"OM_REDIS_WRITE_PASSWORD", 's', "om-redis", 0},
	{"OM_REDIS_READ_HOST", 's', "127.0.0.1", 0},
	{"OM_REDIS_READ_PORT", 'n', "6379", 6379},
	{"OM_REDIS_READ_USER", 's', "default", 0},
	{"OM_REDIS_READ_PASSWORD", 's', "om-redis", 0},
	{"OM_CACHE_IN_MAX_UPDATES_PER_POLL", 'n', "10000", 10000},
	{"OM_CACHE_IN_WAIT_TIMEOUT_MS", 'n', "1500", 1500},
	{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", 'n', "50", 50},
	{"OM_CACHE_OUT_WAIT_TIMEOUT_MS", 'n', "500", 500},
	{"OM_CACHE_TICKET_TTL_SECS", 'n', "600", 600},
	{"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", 'n', "600", 600},
	{"OM_OTEL_COLLECTOR_HOST", 's', "localhost", 0},
	{"OM_OTEL_COLLECTOR_PORT", 'n', "4317", 4317},
	{"PORT", 'n', "8080", 8080},
	{"K_SERVICE", 's', "open_match_core", 0},
	{"K_REVISION", 's', "open_match_core_rev.1", 0},
	{"K_CONFIGURATION", 's', "open_match_core_cfg", 0},
	{"OM_VERBOSE", 'b', "false", 0},
}

func vClearEnv() {
	for _, x := range vSettings {
		os.Unsetenv(x.key)
	}
}

// vOthers checks that all settings but k have their defaults.
func vOthers(cfg *viper.Viper, k int) {
	for i := range vSettings {
		if i != k {
			vIsDefault(cfg, i)
		}
	}
}

// vIsDefault checks setting i against its documented default.
func vIsDefault(cfg *viper.Viper, i int) {
	x := vSettings[i]
	switch x.kind {
	case 's':
		vsym.Assert(cfg.GetString(x.key) == x.s, "a setting whose variable is not set does not have its default")
	case 'b':
		vsym.Assert(!cfg.GetBool(x.key), "a setting whose variable is not set does not have its default")
	case 'n':
		vsym.Assert(cfg.GetInt(x.key) == x.n && cfg.GetString(x.key) == x.s, "a setting whose variable is not set does not have its default")
	case 'd':
		vsym.Assert(cfg.GetDuration(x.key) == time.Duration(x.n), "a setting whose variable is not set does not have its default")
	}
}

// VerifC34: one variable with an arbitrary value, or none.
func VerifC34() {
	vClearEnv()
	k := vsym.Choose("variable", len(vSettings)+1) - 1
	if k < 0 {
		cfg := Read()
		for i := range vSettings {
			vIsDefault(cfg, i)
		}
		vsym.Reach("none set")
		return
	}
	x := vSettings[k]
	switch kind := vsym.Choose("value", 2); {
	case kind == 0:
		// any text
		v := vsym.String("text", vsym.Param("len", 4))
		for i := 0; i < len(v); i++ {
			vsym.Assume(vsym.And(v[i] != 0, v[i] < 128))
		}
		vsym.Assume(len(v) > 0)
		os.Setenv(x.key, v)
		cfg := Read()
		vsym.Assert(cfg.GetString(x.key) == v, "a setting does not take the value of its environment variable")
		vOthers(cfg, k)
		vsym.Reach("text")
	case x.kind == 'n':
		n := vsym.Int("number", -1<<31, 1<<31-1)
		os.Setenv(x.key, strconv.Itoa(n))
		cfg := Read()
		vsym.Assert(cfg.GetInt(x.key) == n, "a setting does not take the value of its environment variable")
		vsym.Assert(cfg.GetInt64(x.key) == int64(n), "a setting does not take the value of its environment variable")
		vOthers(cfg, k)
		vsym.Reach("number")
	case x.kind == 'b':
		on := vsym.Choose("on", 2) == 1
		os.Setenv(x.key, strconv.FormatBool(on))
		cfg := Read()
		vsym.Assert(cfg.GetBool(x.key) == on, "a setting does not take the value of its environment variable")
		vOthers(cfg, k)
		vsym.Reach("switch")
	case x.kind == 'd':
		n := vsym.Int("nanoseconds", 1, 1<<62)
		os.Setenv(x.key, strconv.Itoa(n))
		cfg := Read()
		vsym.Assert(cfg.GetDuration(x.key) == time.Duration(n), "a setting does not take the value of its environment variable")
		vOthers(cfg, k)
		vsym.Reach("duration")
	}
}

// VerifC34All: every variable set at once, each to a value of its own.
func VerifC34All() {
	vClearEnv()
	skip := vsym.Choose("skip", len(vSettings)+1) - 1
	for i, x := range vSettings {
		if i != skip {
			os.Setenv(x.key, strconv.Itoa(1000+i))
		}
	}
	cfg := Read()
	for i, x := range vSettings {
		if i == skip {
			vIsDefault(cfg, i)
		} else {
			vsym.Assert(cfg.GetString(x.key) == strconv.Itoa(1000+i), "a setting does not take the value of its environment variable")
		}
	}
	vsym.Reach("all set")
}
