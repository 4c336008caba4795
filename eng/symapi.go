package eng

import (
	"fmt"
	"go/types"
	"strconv"
)

func (m *Machine) constName(v Value) string {
	s, ok := m.goStr(v)
	if !ok {
		m.unsupported("symbolic input name")
	}
	return s
}

func init() {
	const P = "verif/sym."
	scalar := func(kind string, w Sort) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			return Value{P: m.input(m.constName(a[0]), kind, w)}
		}
	}
	reg(scalar("uint", 8), P+"Uint8")
	reg(scalar("uint", 16), P+"Uint16")
	reg(scalar("uint", 32), P+"Uint32")
	reg(scalar("uint", 64), P+"Uint64", P+"Int64", P+"Int")
	reg(scalar("bool", SBool), P+"Bool")
	reg(func(m *Machine, a []Value) Value {
		return Value{P: m.c.FpOfBits(m.input(m.constName(a[0]), "uint", 64))}
	}, P+"Float64")
	bs := func(m *Machine, a []Value) *Object {
		name := m.uniq(m.constName(a[0]))
		n := int(m.concretize(a[1], 64))
		o := m.bytesObj(make([]byte, n))
		o.t = make([]*Term, n)
		vs := make([]Value, n)
		for i := range o.t {
			o.t[i] = m.c.Var(name+"["+strconv.Itoa(i)+"]", 8)
			vs[i] = Value{P: o.t[i]}
		}
		m.inputs = append(m.inputs, inputRec{Name: name, Kind: "bytes", N: n, Ts: vs})
		return o
	}
	reg(func(m *Machine, a []Value) Value {
		o := bs(m, a)
		return Value{P: &Slice{o: o, len: len(o.b), cap: len(o.b)}}
	}, P+"Bytes")
	reg(func(m *Machine, a []Value) Value {
		o := bs(m, a)
		if len(o.b) == 0 {
			return Value{}
		}
		o.ro = true
		return Value{P: &Str{o: o, len: len(o.b)}}
	}, P+"String")
	reg(func(m *Machine, a []Value) Value {
		lo, hi := a[1], a[2]
		if lo.P == nil && hi.P == nil && lo.N == hi.N {
			t := m.input(m.constName(a[0]), "int", 64)
			m.assume(m.tv(m.c.Eq(t, m.c.Const(64, lo.N))))
			return Value{N: lo.N}
		}
		t := m.input(m.constName(a[0]), "int", 64)
		m.assume(m.tv(m.c.And(m.c.Cmp(OSle, m.term(lo, 64), t), m.c.Cmp(OSle, t, m.term(hi, 64)))))
		return Value{N: m.concretize(Value{P: t}, 64)}
	}, P+"IntRange")
	reg(func(m *Machine, a []Value) Value { m.assume(a[0]); return Value{} }, P+"Assume")
	reg(func(m *Machine, a []Value) Value {
		msg := ""
		if s, ok := m.goStr(a[1]); ok {
			msg = s
		}
		m.assert(a[0], msg)
		return Value{}
	}, P+"Assert")
	reg(func(m *Machine, a []Value) Value {
		s, _ := m.goStr(a[0])
		m.assert(Value{}, s)
		return Value{}
	}, P+"Fail")
	reg(func(m *Machine, a []Value) Value {
		if m.reached == nil {
			m.reached = map[string]bool{}
		}
		m.reached[m.constName(a[0])] = true
		return Value{}
	}, P+"Reach")
	reg(func(m *Machine, a []Value) Value {
		m.obs = append(m.obs, obsRec{m.constName(a[0]), m.obsOf(a[1])})
		return Value{}
	}, P+"Observe")
	b2 := func(f func(c *Ctx, x, y *Term) *Term) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value { return m.tv(f(m.c, m.term(a[0], SBool), m.term(a[1], SBool))) }
	}
	reg(b2(func(c *Ctx, x, y *Term) *Term { return c.And(x, y) }), P+"And")
	reg(b2(func(c *Ctx, x, y *Term) *Term { return c.Or(x, y) }), P+"Or")
	reg(b2(func(c *Ctx, x, y *Term) *Term { return c.Or(c.Not(x), y) }), P+"Implies")
	reg(func(m *Machine, a []Value) Value { return m.vnot(a[0]) }, P+"Not")
	reg(func(m *Machine, a []Value) Value {
		return m.tv(m.c.Ite(m.term(a[0], SBool), m.term(a[1], 64), m.term(a[2], 64)))
	}, P+"IteU64")
	reg(func(m *Machine, a []Value) Value {
		x, y := m.runOf(a[0], false), m.runOf(a[1], false)
		if x.n != y.n {
			return Value{}
		}
		return m.bytesEq(x.o, x.off, nil, y.o, y.off, nil, x.n)
	}, P+"EqBytes")
	reg(func(m *Machine, a []Value) Value { return m.strEq(a[0], a[1]) }, P+"EqStr")
	reg(func(m *Machine, a []Value) Value { return Value{N: uint64(m.ex.opt.Tier)} }, P+"Tier")
	reg(func(m *Machine, a []Value) Value { return Value{N: 1} }, P+"Symbolic")
	reg(func(m *Machine, a []Value) Value { m.mapPerm = a[0].N != 0; return Value{} }, P+"MapOrder")
	reg(func(m *Machine, a []Value) Value { m.allocOnly = a[0]; return Value{} }, P+"AllocOnly")
	reg(func(m *Machine, a []Value) Value { m.allocLim = a[0].N; return Value{} }, P+"AllocLimit")
	reg(func(m *Machine, a []Value) Value {
		m.maxSteps = m.steps + int64(a[0].N)
		m.stepNonterm = true
		return Value{}
	}, P+"StepLimit")
	reg(func(m *Machine, a []Value) Value { return Value{N: b2u(a[0].P == nil)} }, P+"IsConst")
	reg(func(m *Machine, a []Value) Value { return m.mkStr("/r") }, P+"Root")
	reg(func(m *Machine, a []Value) Value {
		var fs []Value
		s := m.fixSlice(a[0])
		for i := 0; i < s.len; i++ {
			fs = append(fs, s.o.s[s.off+i])
		}
		m.par(fs)
		return Value{}
	}, P+"Par")
}

func (m *Machine) obsOf(v Value) obsVal {
	if v.P == nil {
		return obsVal{kind: "txt", txt: "nil"}
	}
	i := v.P.(*Iface)
	e := i.rt.ti
	if b, ok := i.rt.t.(*types.Basic); ok {
		switch e.kind {
		case kBool:
			return obsVal{kind: "bool", v: i.v}
		case kInt:
			k := "uint"
			if e.signed {
				k = "int"
			}
			return obsVal{kind: k, v: i.v, w: e.w}
		case kFloat:
			x := i.v
			if x.P != nil {
				x = m.tv(m.c.FpToBits(x.P.(*Term)))
			}
			return obsVal{kind: "float", v: x}
		case kString:
			s := m.fixStr(i.v)
			o := obsVal{kind: "str"}
			for k := 0; k < s.len; k++ {
				o.bs = append(o.bs, m.getB(s.o, s.off+k))
			}
			return o
		}
		return obsVal{kind: "txt", txt: b.String()}
	}
	if e.kind == kSlice && m.elemTI(e).w == 8 && m.elemTI(e).kind == kInt {
		s := m.fixSlice(i.v)
		o := obsVal{kind: "str"}
		for k := 0; k < s.len; k++ {
			o.bs = append(o.bs, m.getB(s.o, s.off+k))
		}
		return o
	}
	if errType, ok := types.Universe.Lookup("error").Type().Underlying().(*types.Interface); ok && m.implements(i.rt, errType) {
		return obsVal{kind: "txt", txt: "error"}
	}
	return obsVal{kind: "txt", txt: fmt.Sprint(i.rt.t)}
}
