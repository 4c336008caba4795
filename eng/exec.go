package eng

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// exec runs blocks until return.
func (m *Machine) exec(fr *frame, b *cblock, pred int) Value {
	var tmp [8]Value
	for {
		if b.phis != nil && pred >= 0 {
			ph := b.phis[pred]
			if len(ph) == 1 {
				fr.regs[ph[0].dst] = fr.get(&ph[0].src)
			} else {
				vals := tmp[:0]
				for i := range ph {
					vals = append(vals, fr.get(&ph[i].src))
				}
				for i := range ph {
					fr.regs[ph[i].dst] = vals[i]
				}
			}
		}
		m.steps += int64(len(b.ins)) + 1
		if m.steps > m.maxSteps && !m.initMode {
			panic(pathEnd{"limit", "step limit at " + m.where()})
		}
		for _, f := range b.ins {
			f(fr)
		}
		switch b.kind {
		case 0:
			pred = b.pred[0]
			b = b.succ[0]
		case 1:
			v := fr.get(&b.cond)
			if v.P == nil {
				if v.N != 0 {
					pred, b = b.pred[0], b.succ[0]
				} else {
					pred, b = b.pred[1], b.succ[1]
				}
				continue
			}
			t := v.P.(*Term)
			if b.merge != nil {
				if _, dec := m.knownVal(t); !dec && m.tryMerge(fr, b.merge, t) {
					// phis of join are set; skip phi processing
					b, pred = b.merge.join, -1
					continue
				}
			}
			if b.pos.IsValid() {
				fr.pos = b.pos
			}
			if m.branch(t) {
				pred, b = b.pred[0], b.succ[0]
			} else {
				pred, b = b.pred[1], b.succ[1]
			}
		case 2:
			switch len(b.rets) {
			case 0:
				return Value{}
			case 1:
				return fr.get(&b.rets[0])
			}
			t := &Tuple{v: make([]Value, len(b.rets))}
			for i := range b.rets {
				t.v[i] = fr.get(&b.rets[i])
			}
			return Value{P: t}
		default:
			m.unsupported("fell through panic block")
		}
	}
}

// tryMerge executes both pure sides and joins scalars with ite.
func (m *Machine) tryMerge(fr *frame, mi *mergeInfo, t *Term) bool {
	for _, s := range mi.sides {
		if s != nil {
			for _, f := range s.ins {
				f(fr)
			}
		}
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range mi.phis {
		ph := &mi.phis[i]
		a, b := fr.get(&ph.a), fr.get(&ph.b)
		if ph.ti.kind != kInt && ph.ti.kind != kBool {
			vals = append(vals, a)
			continue
		}
		if a == b {
			vals = append(vals, a)
			continue
		}
		vals = append(vals, m.tv(m.c.Ite(t, m.term(a, ph.ti.w), m.term(b, ph.ti.w))))
	}
	for i := range mi.phis {
		fr.regs[mi.phis[i].dst] = vals[i]
	}
	return true
}

// execDefer runs a function that has defers.
func (m *Machine) execDefer(fr *frame) (ret Value) {
	depth := m.depth
	p, ok := m.tryExec(fr, fr.fn.blocks[0], &ret)
	if ok {
		return ret
	}
	for {
		m.cur, m.depth = fr, depth
		fr.panicking, fr.pval = true, p.v
		p, ok = m.tryDefers(fr)
		if !ok {
			continue // a deferred call panicked
		}
		if fr.panicking {
			panic(targetPanic{fr.pval})
		}
		// recovered
		m.cur, m.depth = fr, depth
		if fr.fn.recover != nil {
			p, ok = m.tryExec(fr, fr.fn.recover, &ret)
			if ok {
				return ret
			}
			continue
		}
		// no named results
		res := fr.fn.results
		switch res.Len() {
		case 0:
			return Value{}
		case 1:
			return m.zero(m.ti(res.At(0).Type()))
		}
		t := &Tuple{}
		for i := 0; i < res.Len(); i++ {
			t.v = append(t.v, m.zero(m.ti(res.At(i).Type())))
		}
		return Value{P: t}
	}
}

func (m *Machine) tryExec(fr *frame, b *cblock, ret *Value) (p targetPanic, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if tp, is := r.(targetPanic); is {
				p, ok = tp, false
				return
			}
			panic(r)
		}
	}()
	*ret = m.exec(fr, b, -1)
	return p, true
}

func (m *Machine) tryDefers(fr *frame) (p targetPanic, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if tp, is := r.(targetPanic); is {
				p, ok = tp, false
				return
			}
			panic(r)
		}
	}()
	m.runDefers(fr)
	return p, true
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d.call(fr)
	}
}

// instr compiles one instruction.
func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	m := c.m
	switch in := in.(type) {
	case *ssa.Alloc:
		e := m.ti(in.Type().(*types.Pointer).Elem())
		d := c.reg(in)
		return func(fr *frame) { fr.regs[d] = Value{P: fr.m.newObj(e, 1)} }
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		return c.call(in)
	case *ssa.ChangeInterface:
		x, d := c.op(in.X), c.reg(in)
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.ChangeType:
		x, d := c.op(in.X), c.reg(in)
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		m.unsupported("MultiConvert")
	case *ssa.Defer:
		get := c.callee(&in.Call)
		pos := in.Pos()
		return func(fr *frame) {
			fr.pos = pos
			run := get(fr)
			fr.defers = append(fr.defers, deferred{func(fr *frame) { run(fr, fr) }})
		}
	case *ssa.Go:
		get := c.callee(&in.Call)
		pos := in.Pos()
		return func(fr *frame) {
			fr.pos = pos
			run := get(fr)
			fr.m.spawn(func() { run(&frame{m: fr.m, fn: fr.fn}, nil) })
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.m.runDefers(fr) }
	case *ssa.Extract:
		x, d, i := c.op(in.Tuple), c.reg(in), in.Index
		return func(fr *frame) { fr.regs[d] = fr.get(&x).P.(*Tuple).v[i] }
	case *ssa.Field:
		x, d := c.op(in.X), c.reg(in)
		st := m.ti(in.X.Type())
		f, off := st.fields[in.Field], st.fieldOff[in.Field]
		return func(fr *frame) { fr.regs[d] = fr.m.sub(fr.get(&x), off, f) }
	case *ssa.FieldAddr:
		x, d := c.op(in.X), c.reg(in)
		st := m.ti(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.fieldOff[in.Field])
		pos := in.Pos()
		return func(fr *frame) {
			v := fr.get(&x)
			switch p := v.P.(type) {
			case *Object:
				fr.regs[d] = Value{P: p, N: v.N + off}
			case nil:
				fr.pos = pos
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				v = fr.m.concPtr(p)
				fr.regs[d] = Value{P: v.P, N: v.N + off}
			}
		}
	case *ssa.Index:
		return c.index(in)
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Lookup:
		mt := in.X.Type().Underlying().(*types.Map)
		x, k, d := c.op(in.X), c.op(in.Index), c.reg(in)
		kt, vt := m.ti(mt.Key()), m.ti(mt.Elem())
		commaok := in.CommaOk
		pos := in.Pos()
		return func(fr *frame) {
			fr.pos = pos
			v, ok := fr.m.mapGet(fr.get(&x), kt, vt, fr.get(&k))
			if commaok {
				fr.regs[d] = Value{P: &Tuple{v: []Value{v, {N: b2u(ok)}}}}
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.MakeChan:
		m.unsupported("MakeChan")
	case *ssa.MakeClosure:
		f := m.fnOf(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range in.Bindings {
			bs = append(bs, c.op(b))
		}
		d := c.reg(in)
		return func(fr *frame) {
			cl := &Closure{fn: f, free: make([]Value, len(bs))}
			for i := range bs {
				cl.free[i] = fr.get(&bs[i])
			}
			fr.regs[d] = Value{P: cl}
		}
	case *ssa.MakeInterface:
		x, d := c.op(in.X), c.reg(in)
		rt := m.rtype(in.X.Type())
		return func(fr *frame) { fr.regs[d] = Value{P: &Iface{rt, fr.get(&x)}} }
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		kt, vt := m.ti(mt.Key()), m.ti(mt.Elem())
		d := c.reg(in)
		var r opnd
		if in.Reserve != nil {
			r = c.op(in.Reserve)
		}
		has := in.Reserve != nil
		pos := in.Pos()
		return func(fr *frame) {
			if has {
				fr.pos = pos
				fr.m.checkAlloc(fr.get(&r), 16, "map")
			}
			fr.regs[d] = Value{P: fr.m.newMap(kt, vt)}
		}
	case *ssa.MakeSlice:
		e := m.elemTI(m.ti(in.Type()))
		ln, cp, d := c.op(in.Len), c.op(in.Cap), c.reg(in)
		pos := in.Pos()
		lt := m.ti(in.Len.Type())
		ct := m.ti(in.Cap.Type())
		return func(fr *frame) {
			fr.pos = pos
			m := fr.m
			l := m.toInt64(fr.get(&ln), lt)
			n := m.checkAlloc(l, max(1, int(e.size)), "slice")
			cv := m.toInt64(fr.get(&cp), ct)
			k := n
			if cv != l {
				k = m.checkAlloc(cv, max(1, int(e.size)), "slice")
			}
			if k < n {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = Value{P: &Slice{o: m.newObj(e, k), len: n, cap: k}}
		}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt, vt := m.ti(mt.Key()), m.ti(mt.Elem())
		pos := in.Pos()
		return func(fr *frame) {
			fr.pos = pos
			fr.m.mapSet(fr.get(&x), kt, vt, fr.get(&k), fr.get(&v))
		}
	case *ssa.Range:
		x, d := c.op(in.X), c.reg(in)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) { fr.regs[d] = Value{P: fr.m.newMapIter(fr.get(&x))} }
		}
		return func(fr *frame) { fr.regs[d] = Value{P: &strIter{s: fr.m.fixStr(fr.get(&x))}} }
	case *ssa.Next:
		x, d := c.op(in.Iter), c.reg(in)
		if in.IsString {
			return func(fr *frame) { fr.regs[d] = fr.m.strNext(fr.get(&x).P.(*strIter)) }
		}
		tt := in.Type().(*types.Tuple)
		var kz, vz Value
		if t := tt.At(1).Type(); t != types.Typ[types.Invalid] {
			kz = m.zero(m.ti(t))
		}
		if t := tt.At(2).Type(); t != types.Typ[types.Invalid] {
			vz = m.zero(m.ti(t))
		}
		return func(fr *frame) {
			k, v, ok := fr.get(&x).P.(*mapIter).next(fr.m)
			if !ok {
				k, v = kz, vz
			}
			fr.regs[d] = Value{P: &Tuple{v: []Value{{N: b2u(ok)}, k, v}}}
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		x, d := c.op(in.X), c.reg(in)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := fr.m.fixSlice(fr.get(&x))
			if int64(s.len) < n {
				fr.m.rtPanic("cannot convert slice to array pointer")
			}
			if s.o == nil {
				fr.regs[d] = Value{}
				return
			}
			fr.regs[d] = Value{P: s.o, N: uint64(s.off)}
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		e := m.ti(in.Val.Type())
		pos := in.Pos()
		return func(fr *frame) {
			pv := fr.get(&a)
			switch p := pv.P.(type) {
			case *Object:
				if !p.perm && p.kind == obSlots && !e.agg && !p.ro && int(pv.N) < len(p.s) && fr.m.trace == nil {
					p.s[pv.N] = fr.get(&v)
					return
				}
				fr.pos = pos
				fr.m.store(e, p, int(pv.N), fr.get(&v))
			case nil:
				fr.pos = pos
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				fr.pos = pos
				cp := fr.m.concPtr(p)
				fr.m.store(e, cp.P.(*Object), int(cp.N), fr.get(&v))
			default:
				fr.m.unsupported("store through odd pointer")
			}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Send, *ssa.Select:
		name := c.f.name
		return func(fr *frame) { fr.m.unsupported("channel operation in " + name) }
	}
	panic("instr " + in.String())
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) func(fr *frame) {
	m := c.m
	x, d := c.op(in.X), c.reg(in)
	commaok := in.CommaOk
	pos := in.Pos()
	at := in.AssertedType
	z := m.zero(m.ti(at))
	it, isI := at.Underlying().(*types.Interface)
	var rt *RType
	if !isI {
		rt = m.rtype(at)
	}
	return func(fr *frame) {
		v := fr.get(&x)
		ok := false
		r := z
		if v.P != nil {
			i := v.P.(*Iface)
			if isI {
				if fr.m.implements(i.rt, it) {
					ok, r = true, v
				}
			} else if i.rt == rt {
				ok, r = true, i.v
			}
		}
		if commaok {
			fr.regs[d] = Value{P: &Tuple{v: []Value{r, {N: b2u(ok)}}}}
			return
		}
		if !ok {
			fr.pos = pos
			fr.m.rtPanic("interface conversion failed: " + at.String())
		}
		fr.regs[d] = r
	}
}

// toInt64 sign- or zero-extends an integer to 64 bits.
func (m *Machine) toInt64(v Value, e *TI) Value {
	if e.w == 64 {
		return v
	}
	if v.P == nil {
		if e.signed {
			return Value{N: uint64(sext64(v.N, e.w))}
		}
		return v
	}
	if e.signed {
		return m.tv(m.c.SExt(v.P.(*Term), 64))
	}
	return m.tv(m.c.ZExt(v.P.(*Term), 64))
}

// checkAlloc validates an allocation length and makes it concrete.
func (m *Machine) checkAlloc(v Value, esz int, what string) int {
	lim := m.allocLim
	if v.P != nil {
		t := v.P.(*Term)
		if m.branch(m.c.Cmp(OSlt, t, m.c.Const(64, 0))) || m.branch(m.c.Cmp(OUlt, m.c.Const(64, 1<<47/uint64(esz)), t)) {
			if what == "map" {
				return 0 // a huge or negative map hint is ignored by the runtime
			}
			m.rtPanic("makeslice: len out of range")
		}
		if only := m.allocOnly.P; only != nil && m.branch(m.c.Cmp(OUlt, m.c.Const(64, 1<<26), t)) {
			if !m.branch(m.c.Eq(t, only.(*Term))) {
				m.fault("allocation of another size (" + what + ")")
			}
			m.reached = map[string]bool{"exact": true}
			panic(pathEnd{"exact", ""})
		}
		if lim < 1<<26 && m.branch(m.c.Cmp(OUlt, m.c.Const(64, 1<<26), t)) || m.branch(m.c.Cmp(OUlt, m.c.Const(64, lim), t)) {
			m.fault("allocation out of proportion (" + what + ")")
		}
		if what == "map" {
			return 0
		}
		return int(m.concretize(v, 64))
	}
	n := int64(v.N)
	if n < 0 || uint64(n) > 1<<47/uint64(esz) {
		if what == "map" {
			return 0
		}
		m.rtPanic("makeslice: len out of range")
	}
	if uint64(n) > lim && uint64(n) > 1<<22 {
		m.fault("allocation out of proportion (" + what + ")")
	}
	return int(n)
}

func (c *compiler) index(in *ssa.Index) func(fr *frame) {
	m := c.m
	x, i, d := c.op(in.X), c.op(in.Index), c.reg(in)
	et := m.ti(in.Index.Type())
	pos := in.Pos()
	xt := m.ti(in.X.Type())
	if xt.kind == kString {
		return func(fr *frame) {
			s := strOf(fr.get(&x))
			iv := fr.m.toInt64(fr.get(&i), et)
			if iv.P == nil && s.sl == nil && s.so == nil {
				if iv.N >= uint64(s.len) {
					fr.pos = pos
					fr.m.rtPanic("index out of range")
				}
				fr.regs[d] = fr.m.getB(s.o, s.off+int(iv.N))
				return
			}
			fr.pos = pos
			fr.m.boundsCheck(iv, s.len, s.sl)
			fr.regs[d] = fr.m.byteAtSym(s.o, s.off, s.so, s.len, iv)
		}
	}
	// array value
	e := xt.elem
	return func(fr *frame) {
		a := fr.get(&x)
		iv := fr.m.toInt64(fr.get(&i), et)
		fr.pos = pos
		fr.m.boundsCheck(iv, xt.len, nil)
		if iv.P != nil {
			o := &Object{kind: obSlots, s: a.P.(*Agg).v, ti: e}
			fr.regs[d] = fr.m.loadSym(e, &SymPtr{o: o, n: e.n, cnt: xt.len, idx: iv.P.(*Term)})
			return
		}
		fr.regs[d] = fr.m.sub(a, int(iv.N)*e.n, e)
	}
}

// boundsCheck panics (forking) unless 0 <= i < n.
func (m *Machine) boundsCheck(iv Value, n int, sn *Term) {
	if iv.P == nil && sn == nil {
		if iv.N >= uint64(n) {
			m.rtPanic("index out of range")
		}
		return
	}
	nt := sn
	if nt == nil {
		nt = m.c.Const(64, uint64(n))
	}
	if !m.branch(m.c.Cmp(OUlt, m.term(iv, 64), nt)) {
		m.rtPanic("index out of range")
	}
}

// byteAtSym reads byte iv of a byte run.
func (m *Machine) byteAtSym(o *Object, off int, so *Term, n int, iv Value) Value {
	idx := m.term(iv, 64)
	base := m.c.Const(64, uint64(off))
	if so != nil {
		base = so
	}
	pos := m.c.Bin(OAdd, base, idx)
	if o.kind == obLazy {
		return m.tv(m.c.UF(o.name, pos))
	}
	if so != nil {
		return m.getB(o, int(m.concretize(m.tv(pos), 64)))
	}
	if iv.P == nil {
		return m.getB(o, off+int(iv.N))
	}
	u8 := m.ti(types.Typ[types.Uint8])
	return m.loadSym(u8, &SymPtr{o: o, base: off, n: 1, cnt: n, idx: idx})
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) func(fr *frame) {
	m := c.m
	x, i, d := c.op(in.X), c.op(in.Index), c.reg(in)
	it := m.ti(in.Index.Type())
	pos := in.Pos()
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		at := m.ti(pt.Elem())
		n, en := at.len, at.elem.n
		return func(fr *frame) {
			p := fr.get(&x)
			iv := fr.m.toInt64(fr.get(&i), it)
			fr.pos = pos
			if p.P == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if sp, ok := p.P.(*SymPtr); ok {
				p = fr.m.concPtr(sp)
			}
			fr.m.boundsCheck(iv, n, nil)
			if iv.P != nil {
				fr.regs[d] = Value{P: &SymPtr{o: p.P.(*Object), base: int(p.N), n: en, cnt: n, idx: iv.P.(*Term)}}
				return
			}
			fr.regs[d] = Value{P: p.P, N: p.N + iv.N*uint64(en)}
		}
	}
	en := m.elemTI(m.ti(in.X.Type())).n
	return func(fr *frame) {
		s := sliceOf(fr.get(&x))
		iv := fr.get(&i)
		if it.w != 64 {
			iv = fr.m.toInt64(iv, it)
		}
		if iv.P == nil && !s.sym() {
			if iv.N >= uint64(s.len) {
				fr.pos = pos
				fr.m.rtPanic("index out of range")
			}
			fr.regs[d] = Value{P: s.o, N: uint64(s.off) + iv.N*uint64(en)}
			return
		}
		fr.pos = pos
		fr.m.boundsCheck(iv, s.len, s.sl)
		if s.so == nil && iv.P == nil {
			fr.regs[d] = Value{P: s.o, N: uint64(s.off) + iv.N*uint64(en)}
			return
		}
		idx := fr.m.term(iv, 64)
		if s.so != nil {
			idx = fr.m.c.Bin(OAdd, s.so, idx)
			fr.regs[d] = Value{P: &SymPtr{o: s.o, base: 0, n: en, idx: idx, cnt: s.o.slots()}}
			return
		}
		fr.regs[d] = Value{P: &SymPtr{o: s.o, base: s.off, n: en, cnt: s.len, idx: idx}}
	}
}

func (o *Object) slots() int {
	switch o.kind {
	case obBytes:
		return len(o.b)
	case obSlots:
		return len(o.s)
	case obView:
		return len(o.vslot)
	}
	return 0
}

func (c *compiler) slice(in *ssa.Slice) func(fr *frame) {
	m := c.m
	x, d := c.op(in.X), c.reg(in)
	var lo, hi, mx opnd
	var lt, ht, xt *TI
	if in.Low != nil {
		lo, lt = c.op(in.Low), m.ti(in.Low.Type())
	}
	if in.High != nil {
		hi, ht = c.op(in.High), m.ti(in.High.Type())
	}
	if in.Max != nil {
		mx, xt = c.op(in.Max), m.ti(in.Max.Type())
	}
	pos := in.Pos()
	typ := in.X.Type().Underlying()
	var en, an int
	mode := 0
	switch t := typ.(type) {
	case *types.Slice:
		en = m.elemTI(m.ti(in.X.Type())).n
	case *types.Basic:
		mode, en = 1, 1
	case *types.Pointer:
		mode = 2
		at := m.ti(t.Elem())
		en, an = at.elem.n, at.len
	}
	return func(fr *frame) {
		m := fr.m
		v := fr.get(&x)
		fr.pos = pos
		var s *Slice
		switch mode {
		case 0:
			s = sliceOf(v)
		case 1:
			st := strOf(v)
			s = &Slice{o: st.o, off: st.off, len: st.len, cap: st.len, so: st.so, sl: st.sl, sc: st.sl}
		case 2:
			if v.P == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if sp, ok := v.P.(*SymPtr); ok {
				v = m.concPtr(sp)
			}
			s = &Slice{o: v.P.(*Object), off: int(v.N), len: an, cap: an}
		}
		var l, h, k Value
		if lt != nil {
			l = m.toInt64(fr.get(&lo), lt)
		}
		if ht != nil {
			h = m.toInt64(fr.get(&hi), ht)
		} else if s.sl != nil {
			h = Value{P: s.sl}
		} else {
			h = Value{N: uint64(s.len)}
		}
		capv := Value{N: uint64(s.cap)}
		if s.sc != nil {
			capv = Value{P: s.sc}
		}
		k = capv
		if xt != nil {
			k = m.toInt64(fr.get(&mx), xt)
		}
		if l.P == nil && h.P == nil && k.P == nil && !s.sym() {
			if k.N > capv.N || h.N > k.N || l.N > h.N {
				m.rtPanic("slice bounds out of range")
			}
			if mode == 1 {
				if h.N == l.N {
					fr.regs[d] = Value{}
					return
				}
				fr.regs[d] = Value{P: &Str{o: s.o, off: s.off + int(l.N), len: int(h.N - l.N)}}
				return
			}
			if s.o == nil {
				fr.regs[d] = v
				return
			}
			fr.regs[d] = Value{P: &Slice{o: s.o, off: s.off + int(l.N)*en, len: int(h.N - l.N), cap: int(k.N - l.N)}}
			return
		}
		// symbolic bounds
		le := func(a, b Value) {
			if a.P == nil && b.P == nil {
				if a.N > b.N {
					m.rtPanic("slice bounds out of range")
				}
				return
			}
			if !m.branch(m.c.Cmp(OUle, m.term(a, 64), m.term(b, 64))) {
				m.rtPanic("slice bounds out of range")
			}
		}
		le(k, capv)
		le(h, k)
		le(l, h)
		if s.o == nil {
			fr.regs[d] = v
			return
		}
		if s.o.kind != obLazy { // make everything concrete
			if l.P != nil {
				l = Value{N: m.concretize(l, 64)}
			}
			if h.P != nil {
				h = Value{N: m.concretize(h, 64)}
			}
			if k.P != nil {
				k = Value{N: m.concretize(k, 64)}
			}
			off := s.off
			if s.so != nil {
				off = int(m.concretize(Value{P: s.so}, 64))
			}
			if mode == 1 {
				fr.regs[d] = Value{P: &Str{o: s.o, off: off + int(l.N), len: int(h.N - l.N)}}
				return
			}
			fr.regs[d] = Value{P: &Slice{o: s.o, off: off + int(l.N)*en, len: int(h.N - l.N), cap: int(k.N - l.N)}}
			return
		}
		r := &Slice{o: s.o}
		put := func(t *Term, n *int, p **Term) {
			if t.isConst() {
				*n = int(t.C)
			} else {
				*p = t
			}
		}
		base := m.c.Const(64, uint64(s.off))
		if s.so != nil {
			base = s.so
		}
		put(m.c.Bin(OAdd, base, m.term(l, 64)), &r.off, &r.so)
		put(m.c.Bin(OSub, m.term(h, 64), m.term(l, 64)), &r.len, &r.sl)
		put(m.c.Bin(OSub, m.term(k, 64), m.term(l, 64)), &r.cap, &r.sc)
		if mode == 1 {
			fr.regs[d] = Value{P: &Str{o: r.o, off: r.off, len: r.len, so: r.so, sl: r.sl}}
			return
		}
		fr.regs[d] = Value{P: r}
	}
}

func (c *compiler) unop(in *ssa.UnOp) func(fr *frame) {
	m := c.m
	x, d := c.op(in.X), c.reg(in)
	pos := in.Pos()
	switch in.Op {
	case token.MUL: // load
		e := m.ti(in.Type())
		return func(fr *frame) {
			pv := fr.get(&x)
			switch p := pv.P.(type) {
			case *Object:
				if p.kind == obSlots && !e.agg && int(pv.N) < len(p.s) && fr.m.trace == nil {
					fr.regs[d] = p.s[pv.N]
					return
				}
				fr.pos = pos
				fr.regs[d] = fr.m.load(e, p, int(pv.N))
			case nil:
				fr.pos = pos
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			case *SymPtr:
				fr.pos = pos
				fr.regs[d] = fr.m.loadSym(e, p)
			default:
				fr.m.unsupported("load through odd pointer")
			}
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				fr.regs[d] = Value{N: v.N ^ 1}
			} else {
				fr.regs[d] = fr.m.tv(fr.m.c.Not(v.P.(*Term)))
			}
		}
	case token.SUB:
		e := m.ti(in.Type())
		if e.kind == kFloat {
			s := SF64
			if e.w == 32 {
				s = SF32
			}
			return func(fr *frame) {
				fr.regs[d] = fr.m.fpv(fr.m.c.Fp(OFpNeg, s, fr.m.fterm(fr.get(&x), e), nil))
			}
		}
		return func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				fr.regs[d] = Value{N: -v.N & mask(e.w)}
			} else {
				fr.regs[d] = fr.m.tv(fr.m.c.Neg(v.P.(*Term)))
			}
		}
	case token.XOR:
		e := m.ti(in.Type())
		return func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				fr.regs[d] = Value{N: ^v.N & mask(e.w)}
			} else {
				fr.regs[d] = fr.m.tv(fr.m.c.BNot(v.P.(*Term)))
			}
		}
	}
	name := c.f.name
	return func(fr *frame) { fr.m.unsupported("channel receive in " + name) }
}

func (m *Machine) fpv(t *Term) Value { return m.tv(t) }

func (c *compiler) binop(in *ssa.BinOp) func(fr *frame) {
	m := c.m
	x, y, d := c.op(in.X), c.op(in.Y), c.reg(in)
	e := m.ti(in.X.Type())
	pos := in.Pos()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := b2u(op == token.NEQ)
		if e.kind == kInt || e.kind == kBool {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if a.P == nil && b.P == nil {
					fr.regs[d] = Value{N: b2u(a.N == b.N) ^ neg}
					return
				}
				t := fr.m.c.Eq(fr.m.term(a, e.w), fr.m.term(b, e.w))
				if neg != 0 {
					t = fr.m.c.Not(t)
				}
				fr.regs[d] = fr.m.tv(t)
			}
		}
		return func(fr *frame) {
			fr.pos = pos
			v := fr.m.eq(e, fr.get(&x), fr.get(&y))
			if neg != 0 {
				if v.P == nil {
					v.N ^= 1
				} else {
					v = fr.m.tv(fr.m.c.Not(v.P.(*Term)))
				}
			}
			fr.regs[d] = v
		}
	}
	switch e.kind {
	case kInt:
		return c.intop(in, e, x, y, d)
	case kFloat:
		s := SF64
		if e.w == 32 {
			s = SF32
		}
		var fop Op
		swap := false
		rs := s
		switch op {
		case token.ADD:
			fop = OFpAdd
		case token.SUB:
			fop = OFpSub
		case token.MUL:
			fop = OFpMul
		case token.QUO:
			fop = OFpDiv
		case token.LSS:
			fop, rs = OFpLt, SBool
		case token.LEQ:
			fop, rs = OFpLe, SBool
		case token.GTR:
			fop, rs, swap = OFpLt, SBool, true
		case token.GEQ:
			fop, rs, swap = OFpLe, SBool, true
		default:
			panic("float op " + op.String())
		}
		return func(fr *frame) {
			a, b := fr.m.fterm(fr.get(&x), e), fr.m.fterm(fr.get(&y), e)
			if swap {
				a, b = b, a
			}
			fr.regs[d] = fr.m.fpv(fr.m.c.Fp(fop, rs, a, b))
		}
	case kString:
		if op == token.ADD {
			return func(fr *frame) { fr.regs[d] = fr.m.concat(fr.get(&x), fr.get(&y)) }
		}
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			m := fr.m
			fr.pos = pos
			var r Value
			switch op {
			case token.LSS:
				r = m.strLess(a, b)
			case token.GTR:
				r = m.strLess(b, a)
			case token.LEQ:
				r = m.vnot(m.strLess(b, a))
			case token.GEQ:
				r = m.vnot(m.strLess(a, b))
			}
			fr.regs[d] = r
		}
	case kBool:
		return func(fr *frame) {
			a, b := fr.m.term(fr.get(&x), 0), fr.m.term(fr.get(&y), 0)
			switch op {
			case token.AND:
				fr.regs[d] = fr.m.tv(fr.m.c.And(a, b))
			case token.OR:
				fr.regs[d] = fr.m.tv(fr.m.c.Or(a, b))
			default:
				fr.m.unsupported("bool op")
			}
		}
	}
	name := in.String()
	return func(fr *frame) { fr.m.unsupported("binop " + name) }
}

func (m *Machine) vnot(v Value) Value {
	if v.P == nil {
		return Value{N: v.N ^ 1}
	}
	return m.tv(m.c.Not(v.P.(*Term)))
}

// strLess builds a < b without forking.
func (m *Machine) strLess(a, b Value) Value {
	x, y := m.fixStr(a), m.fixStr(b)
	n := min(x.len, y.len)
	r := m.c.Bool(x.len < y.len)
	for i := n - 1; i >= 0; i-- {
		p, q := m.term(m.getB(x.o, x.off+i), 8), m.term(m.getB(y.o, y.off+i), 8)
		r = m.c.Ite(m.c.Eq(p, q), r, m.c.Cmp(OUlt, p, q))
	}
	return m.tv(r)
}

func (m *Machine) concat(a, b Value) Value {
	x, y := m.fixStr(a), m.fixStr(b)
	if x.len == 0 {
		return b
	}
	if y.len == 0 {
		return a
	}
	o := m.bytesObj(make([]byte, x.len+y.len))
	m.copyBytes(o, 0, x.o, x.off, x.len)
	m.copyBytes(o, x.len, y.o, y.off, y.len)
	return Value{P: &Str{o: o, len: x.len + y.len}}
}

// copyBytes copies n bytes (memmove semantics).
func (m *Machine) copyBytes(d *Object, doff int, s *Object, soff, n int) {
	if n == 0 {
		return
	}
	if m.trace != nil {
		for i := 0; i < n; i++ {
			m.traceAcc(s, soff+i, false)
			m.traceAcc(d, doff+i, true)
		}
	}
	if d.kind == obBytes && s.kind == obBytes && !d.perm && !d.ro {
		if doff+n > len(d.b) {
			m.fault("write outside of memory block")
		}
		if soff+n > len(s.b) {
			m.fault("read outside of memory block")
		}
		copy(d.b[doff:doff+n], s.b[soff:soff+n])
		if s.t != nil {
			if d.t == nil {
				any := false
				for _, t := range s.t[soff : soff+n] {
					if t != nil {
						any = true
						break
					}
				}
				if !any {
					return
				}
				d.t = make([]*Term, len(d.b))
			}
			copy(d.t[doff:doff+n], s.t[soff:soff+n])
		} else if d.t != nil {
			clear(d.t[doff : doff+n])
		}
		return
	}
	if d == s && doff > soff {
		for i := n - 1; i >= 0; i-- {
			m.setB(d, doff+i, m.getB(s, soff+i))
		}
		return
	}
	for i := 0; i < n; i++ {
		m.setB(d, doff+i, m.getB(s, soff+i))
	}
}

func (c *compiler) intop(in *ssa.BinOp, e *TI, x, y opnd, d int) func(fr *frame) {
	m := c.m
	w := e.w
	mk := mask(w)
	signed := e.signed
	pos := in.Pos()
	sym := func(fr *frame, op Op, a, b Value) {
		fr.regs[d] = fr.m.tv(fr.m.c.Bin(op, fr.m.term(a, w), fr.m.term(b, w)))
	}
	cmp := func(fr *frame, op Op, a, b Value) {
		fr.regs[d] = fr.m.tv(fr.m.c.Cmp(op, fr.m.term(a, w), fr.m.term(b, w)))
	}
	switch in.Op {
	case token.ADD:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: (a.N + b.N) & mk}
				return
			}
			sym(fr, OAdd, a, b)
		}
	case token.SUB:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: (a.N - b.N) & mk}
				return
			}
			sym(fr, OSub, a, b)
		}
	case token.MUL:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: (a.N * b.N) & mk}
				return
			}
			sym(fr, OMul, a, b)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		var op Op
		switch in.Op {
		case token.AND, token.AND_NOT:
			op = OBAnd
		case token.OR:
			op = OBOr
		case token.XOR:
			op = OBXor
		}
		not := in.Op == token.AND_NOT
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if not {
				if b.P == nil {
					b.N = ^b.N & mk
				} else {
					b = fr.m.tv(fr.m.c.BNot(b.P.(*Term)))
				}
			}
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: evalBin(op, w, a.N, b.N)}
				return
			}
			sym(fr, op, a, b)
		}
	case token.QUO, token.REM:
		op := OUDiv
		if in.Op == token.REM {
			op = OURem
		}
		if signed {
			op += 2
		}
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if b.P == nil {
				if b.N == 0 {
					fr.pos = pos
					fr.m.rtPanic("integer divide by zero")
				}
			} else if fr.m.branch(fr.m.c.Eq(fr.m.term(b, w), fr.m.c.Const(w, 0))) {
				fr.pos = pos
				fr.m.rtPanic("integer divide by zero")
			}
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: evalBin(op, w, a.N, b.N)}
				return
			}
			sym(fr, op, a, b)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		op := OUlt
		swap := in.Op == token.GTR || in.Op == token.GEQ
		if in.Op == token.LEQ || in.Op == token.GEQ {
			op = OUle
		}
		if signed {
			op += 2
		}
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if swap {
				a, b = b, a
			}
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: b2u(evalCmp(op, w, a.N, b.N))}
				return
			}
			cmp(fr, op, a, b)
		}
	case token.SHL, token.SHR:
		yt := m.ti(in.Y.Type())
		op := OShl
		if in.Op == token.SHR {
			op = OLShr
			if signed {
				op = OAShr
			}
		}
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			m := fr.m
			if yt.signed {
				if b.P == nil {
					if sext64(b.N, yt.w) < 0 {
						m.rtPanic("negative shift amount")
					}
				} else if m.branch(m.c.Cmp(OSlt, m.term(b, yt.w), m.c.Const(yt.w, 0))) {
					m.rtPanic("negative shift amount")
				}
			}
			if a.P == nil && b.P == nil {
				fr.regs[d] = Value{N: evalBin(op, w, a.N, b.N)}
				return
			}
			// bring the amount to width w, saturating
			var bt *Term
			if b.P == nil {
				bt = m.c.Const(w, min(b.N, uint64(w)))
			} else {
				t := b.P.(*Term)
				switch {
				case t.S < w:
					bt = m.c.ZExt(t, w)
				case t.S == w:
					bt = t
				default:
					bt = m.c.Ite(m.c.Cmp(OUlt, t, m.c.Const(t.S, uint64(w))), m.c.Extract(t, int(w)-1, 0), m.c.Const(w, uint64(w)))
				}
			}
			fr.regs[d] = m.tv(m.c.Bin(op, m.term(a, w), bt))
		}
	}
	panic("intop " + in.String())
}

func (c *compiler) convert(in *ssa.Convert) func(fr *frame) {
	m := c.m
	x, d := c.op(in.X), c.reg(in)
	from, to := m.ti(in.X.Type()), m.ti(in.Type())
	pos := in.Pos()
	switch {
	case from.kind == kInt && to.kind == kInt:
		fw, tw := from.w, to.w
		return func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				n := v.N
				if from.signed {
					n = uint64(sext64(n, fw))
				}
				fr.regs[d] = Value{N: n & mask(tw)}
				return
			}
			t, ok := v.P.(*Term)
			if !ok { // uintptr carrying a pointer
				fr.regs[d] = v
				return
			}
			switch {
			case tw < fw:
				t = fr.m.c.Extract(t, int(tw)-1, 0)
			case tw > fw && from.signed:
				t = fr.m.c.SExt(t, tw)
			case tw > fw:
				t = fr.m.c.ZExt(t, tw)
			}
			fr.regs[d] = fr.m.tv(t)
		}
	case from.kind == kInt && to.kind == kFloat:
		s := SF64
		if to.w == 32 {
			s = SF32
		}
		op := OFpOfUInt
		if from.signed {
			op = OFpOfSInt
		}
		return func(fr *frame) {
			fr.regs[d] = fr.m.fpv(fr.m.c.Fp(op, s, fr.m.term(fr.get(&x), from.w), nil))
		}
	case from.kind == kFloat && to.kind == kFloat:
		if from.w == to.w {
			return func(fr *frame) { fr.regs[d] = fr.get(&x) }
		}
		s := SF64
		if to.w == 32 {
			s = SF32
		}
		return func(fr *frame) {
			fr.regs[d] = fr.m.fpv(fr.m.c.Fp(OFpToFp, s, fr.m.fterm(fr.get(&x), from), nil))
		}
	case from.kind == kFloat && to.kind == kInt:
		return func(fr *frame) { fr.regs[d] = fr.m.floatToInt(fr.get(&x), from, to) }
	case from.kind == kString && to.kind == kSlice:
		if m.elemTI(to).w == 8 {
			return func(fr *frame) {
				s := fr.m.fixStr(fr.get(&x))
				k := roundupsize(s.len, true)
				o := fr.m.bytesObj(make([]byte, k))
				fr.m.copyBytes(o, 0, s.o, s.off, s.len)
				fr.regs[d] = Value{P: &Slice{o: o, len: s.len, cap: k}}
			}
		}
		e := m.elemTI(to)
		return func(fr *frame) {
			it := &strIter{s: fr.m.fixStr(fr.get(&x))}
			var rs []Value
			for {
				t := fr.m.strNext(it).P.(*Tuple)
				if t.v[0].N == 0 {
					break
				}
				rs = append(rs, t.v[2])
			}
			o := fr.m.newObj(e, len(rs))
			copy(o.s, rs)
			fr.regs[d] = Value{P: &Slice{o: o, len: len(rs), cap: len(rs)}}
		}
	case from.kind == kSlice && to.kind == kString:
		if m.elemTI(from).w == 8 {
			return func(fr *frame) {
				s := fr.m.fixSlice(fr.get(&x))
				if s.len == 0 {
					fr.regs[d] = Value{}
					return
				}
				o := fr.m.bytesObj(make([]byte, s.len))
				fr.m.copyBytes(o, 0, s.o, s.off, s.len)
				fr.regs[d] = Value{P: &Str{o: o, len: s.len}}
			}
		}
		return func(fr *frame) {
			s := fr.m.fixSlice(fr.get(&x))
			var rs []rune
			for i := 0; i < s.len; i++ {
				rs = append(rs, rune(int32(fr.m.concretize(s.o.s[s.off+i], 32))))
			}
			fr.regs[d] = fr.m.mkStr(string(rs))
		}
	case from.kind == kInt && to.kind == kString:
		return func(fr *frame) {
			v := fr.m.toInt64(fr.get(&x), from)
			if v.P != nil {
				t := v.P.(*Term)
				if fr.m.branch(fr.m.c.Cmp(OUlt, t, fr.m.c.Const(64, 0x80))) {
					o := fr.m.bytesObj(make([]byte, 1))
					fr.m.setB(o, 0, fr.m.tv(fr.m.c.Extract(t, 7, 0)))
					fr.regs[d] = Value{P: &Str{o: o, len: 1}}
					return
				}
			}
			n := int64(fr.m.concretize(v, 64))
			if int64(rune(n)) != n {
				n = 0xfffd
			}
			fr.regs[d] = fr.m.mkStr(string(rune(n)))
		}
	case from.kind == kPtr && to.kind == kUnsafe:
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	case from.kind == kUnsafe && to.kind == kPtr:
		pe := m.elemTI(to)
		return func(fr *frame) {
			v := fr.get(&x)
			fr.pos = pos
			fr.regs[d] = fr.m.castPtr(v, pe)
		}
	case from.kind == kUnsafe && to.kind == kInt || from.kind == kInt && to.kind == kUnsafe:
		return func(fr *frame) { fr.regs[d] = fr.get(&x) }
	}
	name := in.String()
	return func(fr *frame) { fr.m.unsupported("conversion " + name) }
}

// castPtr reinterprets memory when leaf sizes differ.
func (m *Machine) castPtr(v Value, e *TI) Value {
	if sp, ok := v.P.(*SymPtr); ok && sp.o.kind != obLazy {
		v = m.concPtr(sp)
	}
	o, ok := v.P.(*Object)
	if !ok || o.kind != obSlots || o.ti == nil {
		return v
	}
	ls := m.leafSizes(o.ti)
	if len(ls) == 0 || int(v.N) >= len(o.s) {
		return v
	}
	es := m.leafSizes(e)
	if len(es) == 0 {
		return v
	}
	have, want := ls[int(v.N)%len(ls)], es[0]
	if have == want || have == 0 || want == 0 {
		return v
	}
	return Value{P: m.view(o, int(v.N))}
}

// floatToInt follows amd64.
func (m *Machine) floatToInt(v Value, from, to *TI) Value {
	if v.P == nil {
		f := fval(SF64, v.N)
		if from.w == 32 {
			f = fval(SF32, v.N)
		}
		return Value{N: goFloatToInt(f, to) & mask(to.w)}
	}
	t := v.P.(*Term)
	if from.w == 32 {
		t = m.c.Fp(OFpToFp, SF64, t, nil)
	}
	c := m.c
	fc := func(f float64) *Term { return c.FpOfBits(c.Const(64, math.Float64bits(f))) }
	ge := func(f float64) *Term { return c.Fp(OFpLe, SBool, fc(f), t) }
	lt := func(f float64) *Term { return c.Fp(OFpLt, SBool, t, fc(f)) }
	switch {
	case to.w == 64 && to.signed:
		in := c.And(ge(-9223372036854775808), lt(9223372036854775808))
		return m.tv(c.Ite(in, c.Fp(OFpToSInt, 64, t, nil), c.Const(64, 1<<63)))
	case to.w == 64:
		// f < 2^63: cvttsd2si(f); else cvttsd2si(f-2^63) ^ 1<<63
		lo := c.And(ge(-9223372036854775808), lt(9223372036854775808))
		hi := c.And(ge(9223372036854775808), lt(18446744073709551616))
		return m.tv(c.Ite(lo, c.Fp(OFpToSInt, 64, t, nil),
			c.Ite(hi, c.Fp(OFpToUInt, 64, t, nil), c.Const(64, 1<<63))))
	case to.w == 32 && !to.signed:
		in := c.And(ge(-9223372036854775808), lt(9223372036854775808))
		return m.tv(c.Ite(in, c.Extract(c.Fp(OFpToSInt, 64, t, nil), 31, 0), c.Const(32, 0)))
	default: // through int32
		in := c.And(lt(2147483648), c.Not(c.Fp(OFpLe, SBool, t, fc(-2147483649))))
		return m.tv(c.Ite(in, c.Extract(c.Fp(OFpToSInt, 64, t, nil), int(to.w)-1, 0), c.Const(to.w, (1<<31)&mask(to.w))))
	}
}

func goFloatToInt(f float64, to *TI) uint64 {
	switch {
	case to.w == 64 && to.signed:
		return uint64(int64(f))
	case to.w == 64:
		return uint64(f)
	case to.w == 32 && to.signed:
		return uint64(int32(f))
	case to.w == 32:
		return uint64(uint32(f))
	case to.w == 16 && to.signed:
		return uint64(int16(f))
	case to.w == 16:
		return uint64(uint16(f))
	case to.w == 8 && to.signed:
		return uint64(int8(f))
	}
	return uint64(uint8(f))
}
