package main

import (
	"go/types"
	"strconv"
	"strings"
	"time"
)

// viper.Viper is modelled as a case-insensitive key/value table with
// environment lookup as documented by viper; configuration files, flags and
// remote stores are outside the model.
type viperState struct {
	def, set         map[string]Iface
	auto, allowEmpty bool
	prefix           string
	bound            map[string][]string
}

// env is the process environment, empty at the start.
func (m *Machine) env() map[string]*Str {
	if e, ok := m.side["env"].(map[string]*Str); ok {
		return e
	}
	e := map[string]*Str{}
	m.side["env"] = e
	return e
}

func (s *viperState) envName(k string) string {
	if s.prefix != "" {
		k = s.prefix + "_" + k
	}
	return strings.ToUpper(k)
}

func (s *viperState) get(m *Machine, k string) Iface {
	if v, ok := s.set[k]; ok {
		return v
	}
	names := s.bound[k]
	if s.auto {
		names = append([]string{s.envName(k)}, names...)
	}
	for _, n := range names {
		v := m.env()[n]
		if v == nil {
			continue
		}
		if s.allowEmpty || m.branch(m.tt.Not(m.tt.Eq(m.strLen(v), m.tt.Int(0)))) {
			return Iface{T: types.Typ[types.String], V: v}
		}
	}
	return s.def[k]
}

func regViper() {
	const p = "github.com/spf13/viper."
	st := func(m *Machine, v Value) *viperState {
		k := m.sideKey(v)
		if s, ok := m.side[k].(*viperState); ok {
			return s
		}
		s := &viperState{def: map[string]Iface{}, set: map[string]Iface{}, bound: map[string][]string{}}
		m.side[k] = s
		return s
	}
	get := func(m *Machine, c *callCtx) Iface {
		k := strings.ToLower(c.lit(1))
		s := st(m, c.args[0])
		return s.get(m, k)
	}
	reg(p+"New", func(m *Machine, c *callCtx) Value {
		return newVal(m.zero(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))
	})
	reg("os.Setenv", func(m *Machine, c *callCtx) Value {
		m.env()[c.lit(0)] = c.str(1)
		return Iface{}
	})
	reg("os.Unsetenv", func(m *Machine, c *callCtx) Value {
		delete(m.env(), c.lit(0))
		return Iface{}
	})
	reg("os.Clearenv", func(m *Machine, c *callCtx) Value {
		m.side["env"] = map[string]*Str{}
		return Tuple{}
	})
	reg("os.Getenv", func(m *Machine, c *callCtx) Value {
		if v := m.env()[c.lit(0)]; v != nil {
			return v
		}
		return emptyStr
	})
	reg("os.LookupEnv", func(m *Machine, c *callCtx) Value {
		if v := m.env()[c.lit(0)]; v != nil {
			return Tuple{v, m.tt.T}
		}
		return Tuple{emptyStr, m.tt.F}
	})
	meth := func(n string, f intrinsic) { reg("(*github.com/spf13/viper.Viper)."+n, f) }
	meth("SetDefault", func(m *Machine, c *callCtx) Value {
		st(m, c.args[0]).def[strings.ToLower(c.lit(1))] = c.args[2].(Iface)
		return Tuple{}
	})
	meth("Set", func(m *Machine, c *callCtx) Value {
		st(m, c.args[0]).set[strings.ToLower(c.lit(1))] = c.args[2].(Iface)
		return Tuple{}
	})
	for _, n := range []string{"SetConfigName", "AddConfigPath", "SetConfigType"} {
		meth(n, func(m *Machine, c *callCtx) Value { return Tuple{} })
	}
	meth("AutomaticEnv", func(m *Machine, c *callCtx) Value {
		st(m, c.args[0]).auto = true
		return Tuple{}
	})
	meth("SetEnvPrefix", func(m *Machine, c *callCtx) Value {
		st(m, c.args[0]).prefix = c.lit(1)
		return Tuple{}
	})
	meth("AllowEmptyEnv", func(m *Machine, c *callCtx) Value {
		st(m, c.args[0]).allowEmpty = m.branch(c.args[1].(*Term))
		return Tuple{}
	})
	meth("BindEnv", func(m *Machine, c *callCtx) Value {
		s := st(m, c.args[0])
		var in []string
		sl := c.args[1].(*Slice)
		for _, v := range sl.arr[sl.off : sl.off+sl.n] {
			l, ok := v.(*Str).lit()
			if !ok {
				unsup("viper.BindEnv of a symbolic name")
			}
			in = append(in, l)
		}
		if len(in) == 0 {
			unsup("viper.BindEnv without a key")
		}
		k := strings.ToLower(in[0])
		if len(in) == 1 {
			s.bound[k] = append(s.bound[k], s.envName(k))
		} else {
			s.bound[k] = append(s.bound[k], in[1:]...)
		}
		return Iface{}
	})
	meth("IsSet", func(m *Machine, c *callCtx) Value { return m.tt.Bool(get(m, c).T != nil) })
	meth("Get", func(m *Machine, c *callCtx) Value { return get(m, c) })
	toInt := func(m *Machine, i Iface, dur bool) *Term {
		switch x := i.V.(type) {
		case nil:
			return m.tt.Int(0)
		case *Term:
			b := under(i.T).(*types.Basic)
			if b.Info()&types.IsBoolean != 0 {
				return m.tt.Ite(x, m.tt.Int(1), m.tt.Int(0))
			}
			_, fp, signed := basicSort(b)
			if fp {
				unsup("viper float to int")
			}
			if x.w == 64 {
				return x
			}
			if signed {
				return m.tt.SExt(x, 64)
			}
			return m.tt.ZExt(x, 64)
		case *Str:
			l, ok := x.lit()
			if !ok {
				if len(x.segs) == 1 && x.segs[0].k == sItoa {
					return x.segs[0].t
				}
				unsup("viper: symbolic text as number")
			}
			if dur && strings.ContainsAny(l, "nsuµmh") {
				d, _ := time.ParseDuration(l)
				return m.tt.Int(int64(d))
			}
			n, err := strconv.ParseInt(l, 0, 64)
			if err != nil {
				return m.tt.Int(0)
			}
			return m.tt.Int(n)
		}
		unsup("viper value %T", i.V)
		return nil
	}
	for _, n := range []string{"GetInt", "GetInt64", "GetUint64", "GetUint"} {
		meth(n, func(m *Machine, c *callCtx) Value { return toInt(m, get(m, c), false) })
	}
	for _, n := range []string{"GetInt32", "GetUint32"} {
		meth(n, func(m *Machine, c *callCtx) Value { return m.tt.Extract(toInt(m, get(m, c), false), 32) })
	}
	meth("GetDuration", func(m *Machine, c *callCtx) Value { return toInt(m, get(m, c), true) })
	meth("GetBool", func(m *Machine, c *callCtx) Value {
		i := get(m, c)
		switch x := i.V.(type) {
		case nil:
			return m.tt.F
		case *Term:
			if b, ok := under(i.T).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return x
			}
			return m.tt.Not(m.tt.Eq(x, m.tt.BV(0, x.w)))
		case *Str:
			if l, ok := x.lit(); ok {
				b, _ := strconv.ParseBool(l)
				return m.tt.Bool(b)
			}
		}
		unsup("viper GetBool")
		return nil
	})
	meth("GetString", func(m *Machine, c *callCtx) Value {
		i := get(m, c)
		switch x := i.V.(type) {
		case nil:
			return emptyStr
		case *Str:
			return x
		case *Term:
			if b, ok := under(i.T).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				if m.branch(x) {
					return lit("true")
				}
				return lit("false")
			}
			if !x.fp {
				return m.itoaStr(toInt(m, i, false))
			}
		}
		unsup("viper GetString")
		return nil
	})
	meth("GetFloat64", func(m *Machine, c *callCtx) Value {
		i := get(m, c)
		if t, ok := i.V.(*Term); ok {
			if t.fp && t.w == 64 {
				return t
			}
			if t.isConst() {
				return m.tt.FConst(float64(int64(t.val)), 64)
			}
		}
		unsup("viper GetFloat64")
		return nil
	})
	meth("AllSettings", func(m *Machine, c *callCtx) Value {
		mp := m.newMap()
		s := st(m, c.args[0])
		all := map[string]Iface{}
		for k := range s.def {
			all[k] = s.get(m, k)
		}
		for k := range s.set {
			all[k] = s.get(m, k)
		}
		for _, k := range sortedKeys(all) {
			m.mapSet(mp, lit(k), all[k])
		}
		return mp
	})
}
