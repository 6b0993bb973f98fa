// Package models holds Go models of library functions whose own code is not
// interpreted (reflection, runtime internals). VM_<pkg>_<Func> replaces
// pkg.Func, VM_<pkg>_<Type>_<Method> replaces (pkg.Type).Method.
package models

import (
	"context"
	"errors"
	"math"
	"math/rand"
	"sync"
	"time"

	"verif/vsym"
)

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

func VM_RuntimeError(s string) any { return runtimeError(s) }
func VM_Errorf(s string) error     { return errors.New(s) }

func VM_sync_Map_Range(m *sync.Map, f func(k, v any) bool) {
	h := vsym.SyncMapSnap(m)
	for {
		k, v, ok := vsym.SyncMapNext(h)
		if !ok || !f(k, v) {
			return
		}
	}
}

func VM_sync_WaitGroup_Go(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

func VM_errors_Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, vsym.Comparable(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && vsym.Comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && is(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func VM_sort_Slice(s any, less func(i, j int) bool) {
	n := vsym.SliceLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vsym.SliceSwap(s, j, j-1)
		}
	}
}

func VM_sort_SliceStable(s any, less func(i, j int) bool) { VM_sort_Slice(s, less) }

// ---- context

type ckey struct{}

var cancelKey ckey

type cctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	dl       time.Time
	hasDL    bool
	children []*cctx
	timer    *time.Timer
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		c.timer.Stop()
	}
	ch := c.children
	c.children = nil
	close(c.done)
	for _, k := range ch {
		k.cancel(err, cause)
	}
}

func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(cancelKey).(*cctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		go func() {
			select {
			case <-d:
				c.cancel(parent.Err(), nil)
			case <-c.done:
			}
		}()
	}
	return c
}

func VM_context_WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func VM_context_WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

func VM_context_Cause(ctx context.Context) error {
	if p, ok := ctx.Value(cancelKey).(*cctx); ok {
		return p.cause
	}
	return ctx.Err()
}

func VM_context_WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withDeadline(parent, time.Now().Add(d), d)
}

func VM_context_WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return withDeadline(parent, t, time.Until(t))
}

func withDeadline(parent context.Context, t time.Time, d time.Duration) (context.Context, context.CancelFunc) {
	return withDeadlineCause(parent, t, d, nil)
}

func withDeadlineCause(parent context.Context, t time.Time, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if pd, ok := parent.Deadline(); ok && pd.Before(t) {
		return VM_context_WithCancel(parent)
	}
	c := newCtx(parent)
	c.dl, c.hasDL = t, true
	if c.err == nil {
		if d <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.timer = time.AfterFunc(d, func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func VM_context_WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return withDeadlineCause(parent, time.Now().Add(d), d, cause)
}

func VM_context_WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return withDeadlineCause(parent, t, time.Until(t), cause)
}

func VM_context_WithoutCancel(parent context.Context) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return &nctx{parent}
}

// nctx keeps the values of its parent and nothing else.
type nctx struct{ parent context.Context }

func (c *nctx) Deadline() (t time.Time, ok bool) { return }
func (c *nctx) Done() <-chan struct{}            { return nil }
func (c *nctx) Err() error                       { return nil }
func (c *nctx) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return nil
	}
	return c.parent.Value(k)
}

func VM_context_WithValue(parent context.Context, key, val any) context.Context {
	return &vctx{parent, key, val}
}

type vctx struct {
	context.Context
	key, val any
}

func (c *vctx) Value(k any) any {
	if k == c.key {
		return c.val
	}
	return c.Context.Value(k)
}

func VM_bytes_IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

// ---- condition variables

var condWaiters = map[*sync.Cond][]chan struct{}{}

func VM_sync_Cond_Wait(c *sync.Cond) {
	ch := make(chan struct{}, 1)
	condWaiters[c] = append(condWaiters[c], ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func VM_sync_Cond_Signal(c *sync.Cond) {
	if w := condWaiters[c]; len(w) > 0 {
		condWaiters[c] = w[1:]
		w[0] <- struct{}{}
	}
}

func VM_sync_Cond_Broadcast(c *sync.Cond) {
	w := condWaiters[c]
	condWaiters[c] = nil
	for _, ch := range w {
		ch <- struct{}{}
	}
}

// ---- math

func VM_math_Max(x, y float64) float64 {
	switch {
	case math.IsInf(x, 1) || math.IsInf(y, 1):
		return math.Inf(1)
	case math.IsNaN(x) || math.IsNaN(y):
		return math.NaN()
	case x == 0 && x == y:
		if math.Signbit(x) {
			return y
		}
		return x
	}
	if x > y {
		return x
	}
	return y
}

func VM_math_Min(x, y float64) float64 {
	switch {
	case math.IsInf(x, -1) || math.IsInf(y, -1):
		return math.Inf(-1)
	case math.IsNaN(x) || math.IsNaN(y):
		return math.NaN()
	case x == 0 && x == y:
		if math.Signbit(x) {
			return x
		}
		return y
	}
	if x < y {
		return x
	}
	return y
}

// ---- random numbers

func VM_rand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, rand.Intn(i+1))
	}
}

func VM_rand_Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	VM_rand_Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// ---- strings

func VM_strings_Compare(a, b string) int {
	switch {
	case a == b:
		return 0
	case a < b:
		return -1
	}
	return 1
}
