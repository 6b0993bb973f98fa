// Package vsym is the vocabulary of the harnesses. The symbolic interpreter in
// /verif/engine intercepts every function of this package; the bodies below are
// the native meaning, used when a counterexample is replayed against the real
// build: inputs then come from the solver's assignment.
package vsym

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"
)

type input struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Int   int64  `json:"int"`
	Bytes string `json:"bytes"`
}

type replay struct {
	Entry  string         `json:"entry"`
	Params map[string]int `json:"params"`
	Inputs []input        `json:"inputs"`
}

var (
	mu    sync.Mutex
	ins   = map[string]input{}
	seen  = map[string]int{}
	par   map[string]int
	start = time.Now()
)

// RunReplay runs the entry named in $VERIF_REPLAY natively.
func RunReplay(entries map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Println("VERIF-ERROR", err)
		os.Exit(4)
	}
	var r replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println("VERIF-ERROR", err)
		os.Exit(4)
	}
	par = r.Params
	for _, i := range r.Inputs {
		ins[i.Name] = i
	}
	f := entries[r.Entry]
	if f == nil {
		fmt.Println("VERIF-ERROR no entry", r.Entry)
		os.Exit(4)
	}
	f()
	fmt.Println("VERIF-OK")
	os.Exit(0)
}

func next(name string) (input, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := seen[name]
	seen[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	i, ok := ins[name]
	return i, ok
}

func clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// Inputs.

func Int(name string, lo, hi int) int { return int(Int64(name, int64(lo), int64(hi))) }
func Int64(name string, lo, hi int64) int64 {
	i, ok := next(name)
	if !ok {
		return lo
	}
	return clamp(i.Int, lo, hi)
}
func Int32(name string, lo, hi int32) int32 { return int32(Int64(name, int64(lo), int64(hi))) }
func Bool(name string) bool {
	i, _ := next(name)
	return i.Int != 0
}

// Float64 is any 64-bit pattern, NaN and infinities included.
func Float64(name string) float64 {
	i, _ := next(name)
	return math.Float64frombits(uint64(i.Int))
}

// String is any byte string of length up to max.
func String(name string, max int) string {
	i, _ := next(name)
	b, _ := base64.StdEncoding.DecodeString(i.Bytes)
	return string(b)
}

// StringOf is any string of length up to max over the given alphabet.
func StringOf(name string, max int, alphabet string) string { return String(name, max) }

// BigString has a symbolic length in [lo,hi] and unspecified content.
func BigString(name string, lo, hi int) string {
	i, ok := next(name)
	n := int64(lo)
	if ok {
		n = clamp(i.Int, int64(lo), int64(hi))
	}
	return strings.Repeat("x", int(n))
}

// Choose is any of 0..n-1; the exploration takes each in turn.
func Choose(name string, n int) int {
	i, _ := next(name)
	return int(clamp(i.Int, 0, int64(n-1)))
}

func Concrete(v int) int          { return v }
func ConcreteStr(s string) string { return s }

// Properties.

func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME")
		os.Exit(0)
	}
}
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VERIF-ASSERT " + msg)
		os.Exit(3)
	}
}

// Known: the property holds, or deviates exactly as the listed finding does.
func Known(holds, deviates bool, id, msg string) {
	if !holds && deviates {
		fmt.Println("VERIF-KNOWN " + id)
	}
	Assert(holds || deviates, msg)
}
func Reach(label string)       {}
func Note(s string)            { fmt.Println("note:", s) }
func Show(label string, v any) { fmt.Printf("note: %s = %v\n", label, v) }

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

// Environment.

func Native() bool                  { return true }
func Sched(mode string, budget int) {}
func EarlyTimers(on bool)           {}
func MapOrder(on bool)              {}
func TimeLimit(d time.Duration)     {}

// StartTime sets the clock. Natively that takes a virtual clock, which starts in
// 2009: sleep until the wanted instant.
func StartTime(sec, nsec int64) {
	now := time.Now()
	if now.Year() != 2009 {
		return
	}
	if d := time.Unix(sec, nsec).Sub(now); d > 0 {
		time.Sleep(d)
		start = time.Now()
	}
}

// Ticking makes the clock go on by 0..max, in whole milliseconds, at every
// reading (interpreter only).
func Ticking(max time.Duration) {}
func Param(name string, def int) int {
	if v, ok := par[name]; ok {
		return v
	}
	return def
}
func Elapsed() time.Duration { return time.Since(start) }
func LiveGoroutines() int    { return runtime.NumGoroutine() }
func Stop() {
	fmt.Println("VERIF-ASSUME")
	os.Exit(0)
}
func ShowErr(e error) string                { return fmt.Sprint(e) }
func After(d time.Duration, f func())       { time.AfterFunc(d, f) }
func Yield()                                { runtime.Gosched() }
func Settle(d time.Duration)                { time.Sleep(d) }
func ConnTarget(c any) string               { return "" }
func Comparable(v any) bool                 { return v == nil || reflect.TypeOf(v).Comparable() }
func SliceLen(s any) int                    { return reflect.ValueOf(s).Len() }
func SliceSwap(s any, i, j int)             { reflect.Swapper(s)(i, j) }
func SyncMapSnap(m *sync.Map) int           { panic("vsym: interpreter only") }
func SyncMapNext(h int) (k, v any, ok bool) { panic("vsym: interpreter only") }
