package logging

import (
	"errors"
	"strings"

	"verif/vsym"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
)

// The logger's level in the interpreter.

var vLevel = logrus.InfoLevel

func VM_logrus_SetLevel(l logrus.Level)                          { vLevel = l }
func VM_logrus_GetLevel() logrus.Level                           { return vLevel }
func VM_logrus_StandardLogger() *logrus.Logger                   { return nil }
func VM_logrus_Logger_SetLevel(_ *logrus.Logger, l logrus.Level) { vLevel = l }
func VM_logrus_ParseLevel(s string) (logrus.Level, error) {
	switch strings.ToLower(s) {
	case "panic":
		return logrus.PanicLevel, nil
	case "fatal":
		return logrus.FatalLevel, nil
	case "error":
		return logrus.ErrorLevel, nil
	case "warn", "warning":
		return logrus.WarnLevel, nil
	case "info":
		return logrus.InfoLevel, nil
	case "debug":
		return logrus.DebugLevel, nil
	case "trace":
		return logrus.TraceLevel, nil
	}
	return 0, errors.New("not a valid logrus Level")
}

func vLogLevel() logrus.Level {
	if vsym.Native() {
		return logrus.GetLevel()
	}
	return vLevel
}

// vIs: s is name, in any letter case.
func vIs(s, name string) bool {
	if len(s) != len(name) {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vsym.And(ok, vsym.Or(s[i] == name[i], s[i] == name[i]-'a'+'A'))
	}
	return ok
}

// VerifC30: any configured level.
func VerifC30() {
	s := vsym.String("level", vsym.Param("len", 8))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80)
	}
	want := logrus.InfoLevel
	switch {
	case vIs(s, "trace"):
		want = logrus.TraceLevel
	case vIs(s, "debug"):
		want = logrus.DebugLevel
	case vIs(s, "warn"), vIs(s, "warning"):
		want = logrus.WarnLevel
	case vIs(s, "error"):
		want = logrus.ErrorLevel
	case vIs(s, "fatal"):
		want = logrus.FatalLevel
	case vIs(s, "panic"):
		want = logrus.PanicLevel
	}
	cfg := viper.New()
	if vsym.Choose("default", 2) == 1 {
		cfg.SetDefault("OM_LOGGING_LEVEL", s)
	} else {
		cfg.SetDefault("OM_LOGGING_LEVEL", "info")
		cfg.Set("OM_LOGGING_LEVEL", s)
	}
	cfg.SetDefault("OM_LOGGING_FORMAT", []string{"json", "text", "stackdriver"}[vsym.Choose("format", 3)])
	logrus.SetLevel([]logrus.Level{logrus.InfoLevel, logrus.TraceLevel}[vsym.Choose("before", 2)])
	ConfigureLogging(cfg)
	vsym.Assert(vLogLevel() == want, "the configured level is not the one that was named")
	debug := want == logrus.TraceLevel || want == logrus.DebugLevel
	vsym.Assert(IsDebugLevel(s) == debug, "IsDebugLevel is not exactly true for debug and trace")
	vsym.Assert(IsDebugEnabled(cfg) == debug, "IsDebugEnabled is not exactly true for a configured level of debug or trace")
	if debug {
		vsym.Reach("debug")
	}
	if want == logrus.InfoLevel {
		vsym.Reach("info")
	}
	if want == logrus.WarnLevel && len(s) == 7 {
		vsym.Reach("warning")
	}
}
