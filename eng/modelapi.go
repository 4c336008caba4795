package eng

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const P = "verif/models."
	reg(func(m *Machine, a []Value) Value { // asTarget
		e, ok := a[0].P.(*Iface)
		if !ok {
			return Value{}
		}
		tg, ok := a[1].P.(*Iface)
		if !ok || tg.rt.ti.kind != kPtr {
			m.rtPanic("errors: target must be a non-nil pointer")
		}
		et := tg.rt.ti.u.(*types.Pointer).Elem()
		eti := m.ti(et)
		o, off := m.slotOf(tg.v)
		if it, ok := et.Underlying().(*types.Interface); ok {
			if !m.implements(e.rt, it) {
				return Value{}
			}
			m.store(eti, o, off, a[0])
			return Value{N: 1}
		}
		if m.rtype(et) != e.rt {
			return Value{}
		}
		m.store(eti, o, off, e.v)
		return Value{N: 1}
	}, P+"asTarget")
	reg(func(m *Machine, a []Value) Value { // basic
		i, ok := a[0].P.(*Iface)
		if !ok {
			return a[0]
		}
		u := i.rt.t.Underlying()
		switch b := u.(type) {
		case *types.Basic:
			return Value{P: &Iface{m.rtype(types.Typ[b.Kind()]), i.v}}
		case *types.Slice:
			if e, ok := b.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return Value{P: &Iface{m.rtype(types.NewSlice(types.Typ[types.Uint8])), i.v}}
			}
		}
		return a[0]
	}, P+"basic")
	reg(func(m *Machine, a []Value) Value { // mapMem
		s := m.fixSlice(a[0])
		n := int(m.concretize(a[1], 64))
		o := m.bytesObj(make([]byte, s.len))
		for i := 0; i < s.len; i++ {
			m.setB(o, i, m.getB(s.o, s.off+i))
		}
		return Value{P: &Slice{o: o, len: n, cap: n}}
	}, P+"mapMem")
	reg(func(m *Machine, a []Value) Value { // freeMem
		s := m.fixSlice(a[0])
		if s.o != nil {
			s.o.b, s.o.t = nil, nil
		}
		return Value{}
	}, P+"freeMem")
	reg(func(m *Machine, a []Value) Value { // crcRun
		crc, n := a[0], 0
		if s := m.fixSlice(a[2]); s.o != nil && crc.P == nil && a[1].P == nil {
			c := crc.N
			for ; n < s.len; n++ {
				b := m.getB(s.o, s.off+n)
				if b.P != nil {
					break
				}
				c ^= b.N
				for i := 0; i < 8; i++ {
					c = c>>1 ^ a[1].N&-(c&1)
				}
			}
			crc = Value{N: c}
		}
		return Value{P: &Tuple{v: []Value{crc, {N: uint64(n)}}}}
	}, P+"crcRun")
	reg(func(m *Machine, a []Value) Value { // runMain
		path := "github.com/schwarzlichtbezirk/wpk/cmd/" + m.constName(a[0])
		sp := m.p.pkgs[path]
		if sp == nil {
			m.unsupported("package is not loaded: " + path)
		}
		m.initPkg(m.pkgState(sp))
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				e := m.ti(g.Type().(*types.Pointer).Elem())
				m.store(e, m.global(g).o, 0, m.zero(e))
			}
		}
		m.callFn(m.fnOf(sp.Func("init")), nil, nil)
		m.callFn(m.fnOf(sp.Func("main")), nil, nil)
		return Value{}
	}, P+"runMain")
}
