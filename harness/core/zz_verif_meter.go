package main

import (
	"context"

	"verif/vsym"

	"go.opentelemetry.io/otel/metric"
)

// vInstr is an instrument that adds up what it is given.
type vInstr struct {
	total   float64
	records int
}

type vCounter struct {
	metric.Int64Counter
	v *vInstr
}
type vUpDown struct {
	metric.Int64UpDownCounter
	v *vInstr
}
type vHist struct {
	metric.Int64Histogram
	v *vInstr
}
type vFloatHist struct {
	metric.Float64Histogram
	v *vInstr
}

func (v *vInstr) add(x float64) { v.total += x; v.records++ }

func (c *vCounter) Add(_ context.Context, n int64, _ ...metric.AddOption) {
	vsym.Assert(n >= 0, "a counter was decreased")
	c.v.add(float64(n))
}
func (c *vUpDown) Add(_ context.Context, n int64, _ ...metric.AddOption)     { c.v.add(float64(n)) }
func (c *vHist) Record(_ context.Context, n int64, _ ...metric.RecordOption) { c.v.add(float64(n)) }
func (c *vFloatHist) Record(_ context.Context, x float64, _ ...metric.RecordOption) {
	c.v.add(x)
}

// vMeter hands out such instruments.
type vMeter struct {
	metric.Meter
	by map[string]*vInstr
}

func (m *vMeter) get(name string) *vInstr {
	if m.by[name] == nil {
		m.by[name] = &vInstr{}
	}
	return m.by[name]
}
func (m *vMeter) Int64Counter(name string, _ ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	return &vCounter{v: m.get(name)}, nil
}
func (m *vMeter) Int64UpDownCounter(name string, _ ...metric.Int64UpDownCounterOption) (metric.Int64UpDownCounter, error) {
	return &vUpDown{v: m.get(name)}, nil
}
func (m *vMeter) Int64Histogram(name string, _ ...metric.Int64HistogramOption) (metric.Int64Histogram, error) {
	return &vHist{v: m.get(name)}, nil
}
func (m *vMeter) Float64Histogram(name string, _ ...metric.Float64HistogramOption) (metric.Float64Histogram, error) {
	return &vFloatHist{v: m.get(name)}, nil
}

// vMetrics registers the metrics with a meter that can be read.
func vMetrics() *vMeter {
	vm := &vMeter{by: map[string]*vInstr{}}
	m := metric.Meter(vm)
	registerMetrics(&m)
	return vm
}
