package eng

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) args(as []ssa.Value) []opnd {
	out := make([]opnd, len(as))
	for i, a := range as {
		out[i] = c.op(a)
	}
	return out
}

// skipCall reports calls that are no-ops.
func skipCall(f *ssa.Function) bool {
	return f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && f.Synthetic != "" && f.Pkg != nil
}

func (c *compiler) call(in *ssa.Call) func(fr *frame) {
	m := c.m
	d := c.reg(in)
	pos := in.Pos()
	cm := &in.Call
	if cm.IsInvoke() {
		x := c.op(cm.Value)
		as := c.args(cm.Args)
		pkg, name := cm.Method.Pkg(), cm.Method.Name()
		var lastRT *RType
		var lastFn *Fn
		return func(fr *frame) {
			v := fr.get(&x)
			fr.pos = pos
			if v.P == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := v.P.(*Iface)
			if i.rt != lastRT {
				lastFn = fr.m.method(i.rt, pkg, name)
				lastRT = i.rt
			}
			f := lastFn
			args := make([]Value, len(as)+1)
			args[0] = i.v
			for k := range as {
				args[k+1] = fr.get(&as[k])
			}
			fr.regs[d] = fr.m.callFn(f, args, nil)
		}
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		run := c.builtin(b, cm, in.Type())
		return func(fr *frame) {
			fr.pos = pos
			fr.regs[d] = run(fr)
		}
	}
	as := c.args(cm.Args)
	if sf := cm.StaticCallee(); sf != nil {
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			x := c.op(mc)
			f := m.fnOf(sf)
			return func(fr *frame) {
				cl := fr.get(&x).P.(*Closure)
				args := make([]Value, len(as))
				for k := range as {
					args[k] = fr.get(&as[k])
				}
				fr.pos = pos
				fr.regs[d] = fr.m.callFn(f, args, cl.free)
			}
		}
		if skipCall(sf) {
			return nil
		}
		f := m.fnOf(sf)
		return func(fr *frame) {
			args := make([]Value, len(as))
			for k := range as {
				args[k] = fr.get(&as[k])
			}
			fr.pos = pos
			fr.regs[d] = fr.m.callFn(f, args, nil)
		}
	}
	x := c.op(cm.Value)
	return func(fr *frame) {
		v := fr.get(&x)
		args := make([]Value, len(as))
		for k := range as {
			args[k] = fr.get(&as[k])
		}
		fr.pos = pos
		fr.regs[d] = fr.m.callVal(v, args, nil)
	}
}

func (m *Machine) callVal(v Value, args []Value, deferOf *frame) Value {
	if v.P == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	cl := v.P.(*Closure)
	if cl.fn == nil {
		m.unsupported("builtin as a value")
	}
	return m.callDef(cl.fn, args, cl.free, deferOf)
}

// callee evaluates a deferred call's operands now and returns the call.
func (c *compiler) callee(cm *ssa.CallCommon) func(fr *frame) func(fr *frame, deferOf *frame) {
	m := c.m
	if cm.IsInvoke() {
		x := c.op(cm.Value)
		as := c.args(cm.Args)
		pkg, name := cm.Method.Pkg(), cm.Method.Name()
		return func(fr *frame) func(*frame, *frame) {
			v := fr.get(&x)
			if v.P == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := v.P.(*Iface)
			f := fr.m.method(i.rt, pkg, name)
			args := []Value{i.v}
			for k := range as {
				args = append(args, fr.get(&as[k]))
			}
			return func(fr *frame, d *frame) { fr.m.callDef(f, args, nil, d) }
		}
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		as := c.args(cm.Args)
		typ := cm.Signature().Results()
		_ = typ
		return func(fr *frame) func(*frame, *frame) {
			vals := make([]Value, len(as))
			for k := range as {
				vals[k] = fr.get(&as[k])
			}
			return func(fr *frame, d *frame) {
				tmp := &frame{m: fr.m, fn: fr.fn, regs: vals, deferOf: d}
				ops := make([]opnd, len(vals))
				for k := range ops {
					ops[k] = opnd{kind: okReg, idx: k}
				}
				c2 := &compiler{m: fr.m, f: fr.fn}
				c2.builtinOps(b, cm, types.Typ[types.Invalid], ops)(tmp)
			}
		}
	}
	_ = m
	x := c.op(cm.Value)
	as := c.args(cm.Args)
	return func(fr *frame) func(*frame, *frame) {
		v := fr.get(&x)
		args := make([]Value, len(as))
		for k := range as {
			args[k] = fr.get(&as[k])
		}
		return func(fr *frame, d *frame) { fr.m.callVal(v, args, d) }
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cm *ssa.CallCommon, rt types.Type) func(fr *frame) Value {
	return c.builtinOps(b, cm, rt, c.args(cm.Args))
}

func (c *compiler) builtinOps(b *ssa.Builtin, cm *ssa.CallCommon, rt types.Type, as []opnd) func(fr *frame) Value {
	m := c.m
	at := make([]*TI, len(cm.Args))
	for i, a := range cm.Args {
		at[i] = m.ti(a.Type())
	}
	switch b.Name() {
	case "len":
		switch at[0].kind {
		case kString:
			return func(fr *frame) Value {
				s := strOf(fr.get(&as[0]))
				if s.sl != nil {
					return Value{P: s.sl}
				}
				return Value{N: uint64(s.len)}
			}
		case kSlice:
			return func(fr *frame) Value {
				s := sliceOf(fr.get(&as[0]))
				if s.sl != nil {
					return Value{P: s.sl}
				}
				return Value{N: uint64(s.len)}
			}
		case kMap:
			return func(fr *frame) Value {
				v := fr.get(&as[0])
				if v.P == nil {
					return Value{}
				}
				mp := v.P.(*Map)
				if fr.m.trace != nil {
					fr.m.traceAcc(mp.obj, 0, false)
				}
				return Value{N: uint64(mp.n)}
			}
		}
	case "cap":
		if at[0].kind == kSlice {
			return func(fr *frame) Value {
				s := sliceOf(fr.get(&as[0]))
				if s.sc != nil {
					return Value{P: s.sc}
				}
				return Value{N: uint64(s.cap)}
			}
		}
	case "append":
		e := m.elemTI(at[0])
		fromStr := at[1].kind == kString
		return func(fr *frame) Value {
			m := fr.m
			sv := fr.get(&as[0])
			s := m.fixSlice(sv)
			var t *Slice
			if fromStr {
				st := m.fixStr(fr.get(&as[1]))
				t = &Slice{o: st.o, off: st.off, len: st.len}
			} else {
				t = m.fixSlice(fr.get(&as[1]))
			}
			if t.len == 0 {
				return sv
			}
			if uint64(t.len) > m.allocLim && t.len > 1<<22 {
				m.fault("allocation out of proportion (append)")
			}
			r := m.grow(s, t.len, e)
			m.copyElems(r.o, r.off+s.len*e.n, t.o, t.off, t.len, e)
			return Value{P: r}
		}
	case "copy":
		e := m.elemTI(at[0])
		fromStr := at[1].kind == kString
		return func(fr *frame) Value {
			m := fr.m
			d := m.fixSlice(fr.get(&as[0]))
			var s *Slice
			if fromStr {
				st := strOf(fr.get(&as[1]))
				s = &Slice{o: st.o, off: st.off, len: st.len, so: st.so, sl: st.sl}
			} else {
				s = sliceOf(fr.get(&as[1]))
			}
			n := min(d.len, s.len)
			if s.sl != nil {
				// fork only on whether the source is shorter
				if m.branch(m.c.Cmp(OUle, m.c.Const(64, uint64(d.len)), s.sl)) {
					n = d.len
				} else {
					n = int(m.concretize(Value{P: s.sl}, 64))
				}
			}
			if n == 0 {
				return Value{}
			}
			if s.so != nil {
				if s.o.kind == obLazy {
					for i := 0; i < n; i++ {
						m.setB(d.o, d.off+i, m.getBAt(s.o, 0, s.so, i))
					}
					return Value{N: uint64(n)}
				}
				s = m.fixSlice(Value{P: s})
			}
			m.copyElems(d.o, d.off, s.o, s.off, n, e)
			return Value{N: uint64(n)}
		}
	case "delete":
		kt := m.ti(at[0].u.(*types.Map).Key())
		return func(fr *frame) Value {
			fr.m.mapDelete(fr.get(&as[0]), kt, fr.get(&as[1]))
			return Value{}
		}
	case "clear":
		if at[0].kind == kMap {
			return func(fr *frame) Value { fr.m.mapClear(fr.get(&as[0])); return Value{} }
		}
		e := m.elemTI(at[0])
		return func(fr *frame) Value {
			s := fr.m.fixSlice(fr.get(&as[0]))
			for i := 0; i < s.len*e.n; i++ {
				fr.m.setB(s.o, s.off+i, Value{})
			}
			return Value{}
		}
	case "min", "max":
		e := at[0]
		isMin := b.Name() == "min"
		return func(fr *frame) Value {
			m := fr.m
			r := fr.get(&as[0])
			for i := 1; i < len(as); i++ {
				r = m.minmax(e, r, fr.get(&as[i]), isMin)
			}
			return r
		}
	case "recover":
		return func(fr *frame) Value {
			d := fr.deferOf
			if d == nil || !d.panicking {
				return Value{}
			}
			d.panicking = false
			return d.pval
		}
	case "print", "println":
		return func(fr *frame) Value { return Value{} }
	case "panic":
		return func(fr *frame) Value { panic(targetPanic{fr.get(&as[0])}) }
	case "close":
		return func(fr *frame) Value { fr.m.unsupported("close of channel"); return Value{} }
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := fr.get(&as[0])
			if v.P == nil {
				fr.m.rtPanic("value method called using nil pointer")
			}
			return v
		}
	case "String": // unsafe.String(ptr *byte, len)
		return func(fr *frame) Value {
			m := fr.m
			n := m.concretize(m.toInt64(fr.get(&as[1]), at[1]), 64)
			if n == 0 {
				return Value{}
			}
			p := m.bytePtr(fr.get(&as[0]))
			return Value{P: &Str{o: p.P.(*Object), off: int(p.N), len: int(n)}}
		}
	case "StringData":
		return func(fr *frame) Value {
			s := fr.m.fixStr(fr.get(&as[0]))
			if s.o == nil {
				return Value{}
			}
			return Value{P: s.o, N: uint64(s.off)}
		}
	case "Slice": // unsafe.Slice
		e := m.elemTI(at[0])
		return func(fr *frame) Value {
			m := fr.m
			n := m.concretize(m.toInt64(fr.get(&as[1]), at[1]), 64)
			v := fr.get(&as[0])
			if v.P == nil {
				return Value{}
			}
			if isByteTI(e) {
				v = m.bytePtr(v)
			}
			return Value{P: &Slice{o: v.P.(*Object), off: int(v.N), len: int(n), cap: int(n)}}
		}
	case "SliceData":
		return func(fr *frame) Value {
			s := fr.m.fixSlice(fr.get(&as[0]))
			if s.o == nil {
				return Value{}
			}
			return Value{P: s.o, N: uint64(s.off)}
		}
	}
	name := b.Name()
	return func(fr *frame) Value { fr.m.unsupported("builtin " + name); return Value{} }
}

// bytePtr views memory as bytes.
func (m *Machine) bytePtr(v Value) Value {
	if sp, ok := v.P.(*SymPtr); ok {
		v = m.concPtr(sp)
	}
	o, ok := v.P.(*Object)
	if !ok {
		m.unsupported("byte pointer to nothing")
	}
	if o.kind == obSlots {
		return m.castPtr(v, m.ti(types.Typ[types.Uint8]))
	}
	return v
}

func (m *Machine) minmax(e *TI, a, b Value, isMin bool) Value {
	switch e.kind {
	case kInt:
		if a.P == nil && b.P == nil {
			var less bool
			if e.signed {
				less = sext64(a.N, e.w) < sext64(b.N, e.w)
			} else {
				less = a.N < b.N
			}
			if less == isMin {
				return a
			}
			return b
		}
		x, y := m.term(a, e.w), m.term(b, e.w)
		op := OUlt
		if e.signed {
			op = OSlt
		}
		c := m.c.Cmp(op, x, y)
		if !isMin {
			x, y = y, x
		}
		return m.tv(m.c.Ite(c, x, y))
	case kString:
		c := m.strLess(b, a)
		less := c.N != 0
		if c.P != nil {
			less = m.branch(c.P.(*Term))
		}
		if less == isMin {
			return b
		}
		return a
	case kFloat:
		if a.P == nil && b.P == nil && e.w == 64 {
			x, y := fval(SF64, a.N), fval(SF64, b.N)
			if isMin {
				return Value{N: fbits(SF64, min(x, y))}
			}
			return Value{N: fbits(SF64, max(x, y))}
		}
	}
	m.unsupported("min/max of " + e.t.String())
	return Value{}
}
