package eng

import (
	"go/types"
	"math/bits"
)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundupsize follows the runtime's size classes.
func roundupsize(size int, noscan bool) int {
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (req + 8191) &^ 8191
}

func nextCap(newLen, oldCap int) int {
	nc := oldCap
	if newLen > nc+nc {
		return newLen
	}
	if oldCap < 256 {
		return nc + nc
	}
	for {
		nc += (nc + 3*256) >> 2
		if nc >= newLen {
			return nc
		}
	}
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

// grow returns s with room for n more elements.
func (m *Machine) grow(s *Slice, n int, e *TI) *Slice {
	nl := s.len + n
	if nl <= s.cap {
		return &Slice{o: s.o, off: s.off, len: nl, cap: s.cap}
	}
	nc := nextCap(nl, s.cap)
	if e.size > 0 {
		nc = roundupsize(nc*int(e.size), !hasPointers(e.t)) / int(e.size)
	}
	o := m.newObj(e, nc)
	m.copyElems(o, 0, s.o, s.off, s.len, e)
	return &Slice{o: o, len: nl, cap: nc}
}

// copyElems copies n elements with memmove semantics.
func (m *Machine) copyElems(d *Object, doff int, s *Object, soff, n int, e *TI) {
	if n == 0 || e.n == 0 {
		return
	}
	if isByteTI(e) || d.kind != obSlots || s.kind != obSlots {
		m.copyBytes(d, doff, s, soff, n*e.n)
		return
	}
	k := n * e.n
	if doff+k > len(d.s) || soff+k > len(s.s) {
		m.fault("copy outside of memory block")
	}
	if m.trace != nil {
		for i := 0; i < k; i++ {
			m.traceAcc(s, soff+i, false)
			m.traceAcc(d, doff+i, true)
		}
	}
	if d.ro {
		m.fault("write to read-only memory")
	}
	if d.perm && !m.initMode {
		old := append([]Value(nil), d.s[doff:doff+k]...)
		m.undo = append(m.undo, func() { copy(d.s[doff:], old) })
	}
	copy(d.s[doff:doff+k], s.s[soff:soff+k])
}

// Map is a Go map.
type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int // live entries without a concrete key
	n    int
	perm bool
	id   int
	obj  *Object // for access traces
}

type mapEnt struct {
	k, snap, v Value
	ck         any
	dead       bool
}

func (m *Machine) newMap(kt, vt *TI) *Map {
	m.nextObj++
	return &Map{idx: map[any]*mapEnt{}, perm: m.initMode, id: m.nextObj, obj: &Object{id: m.nextObj, kind: obSlots, s: make([]Value, 1)}}
}

type ikey struct {
	rt *RType
	k  any
}

// concKey returns a comparable key if v is concrete.
func (m *Machine) concKey(e *TI, v Value) (any, bool) {
	switch e.kind {
	case kInt, kBool:
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	case kString:
		s, ok := m.goStr(v)
		return s, ok
	case kIface:
		if v.P == nil {
			return ikey{}, true
		}
		i := v.P.(*Iface)
		switch i.rt.ti.kind {
		case kMap, kFunc, kSlice:
			m.rtPanic("hash of unhashable type " + i.rt.t.String())
		}
		k, ok := m.concKey(i.rt.ti, i.v)
		return ikey{i.rt, k}, ok
	case kPtr, kUnsafe, kChan:
		if _, ok := v.P.(*SymPtr); ok {
			return nil, false
		}
		return v, true
	case kFloat:
		if v.P != nil {
			return nil, false
		}
		f := fval(SF64, v.N)
		if e.w == 32 {
			f = fval(SF32, v.N)
		}
		if f != f {
			return nil, false
		}
		if f == 0 {
			return 0.0, true
		}
		return f, true
	}
	return nil, false
}

// find looks an entry up, forking on symbolic key equality.
func (m *Machine) find(mp *Map, kt *TI, k Value) *mapEnt {
	ck, conc := m.concKey(kt, k)
	if conc && mp.nsym == 0 {
		e := mp.idx[ck]
		if e != nil && !m.sameNow(kt, e, k) {
			return nil
		}
		return e
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc && e.ck != nil {
			if e.ck == ck && m.sameNow(kt, e, k) {
				return e
			}
			continue
		}
		c := m.eq(kt, e.snap, k)
		if c.P == nil {
			if c.N != 0 && m.sameNow(kt, e, k) {
				return e
			}
			continue
		}
		if m.branch(c.P.(*Term)) {
			if m.sameNow(kt, e, k) {
				return e
			}
		}
	}
	return nil
}

// sameNow compares with the current content of the key, which may have changed through unsafe casts.
func (m *Machine) sameNow(kt *TI, e *mapEnt, k Value) bool {
	if e.snap == e.k {
		return true
	}
	c := m.eq(kt, e.k, k)
	if c.P == nil {
		return c.N != 0
	}
	return m.branch(c.P.(*Term))
}

func (m *Machine) snapKey(kt *TI, k Value) Value {
	if kt.kind != kString || k.P == nil {
		return k
	}
	s := m.fixStr(k)
	if s.o.ro {
		return k
	}
	o := m.bytesObj(make([]byte, s.len))
	m.copyBytes(o, 0, s.o, s.off, s.len)
	o.ro = true
	return Value{P: &Str{o: o, len: s.len}}
}

func (m *Machine) mapGet(mv Value, kt, vt *TI, k Value) (Value, bool) {
	if mv.P == nil {
		if kt.kind == kIface {
			m.concKey(kt, k)
		}
		return m.zero(vt), false
	}
	mp := mv.P.(*Map)
	if m.trace != nil {
		m.traceAcc(mp.obj, 0, false)
	}
	e := m.find(mp, kt, k)
	if e == nil {
		return m.zero(vt), false
	}
	return e.v, true
}

func (m *Machine) mapSet(mv Value, kt, vt *TI, k, v Value) {
	if mv.P == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	mp := mv.P.(*Map)
	if m.trace != nil {
		m.traceAcc(mp.obj, 0, true)
	}
	e := m.find(mp, kt, k)
	if e != nil {
		if mp.perm && !m.initMode {
			old := e.v
			m.undo = append(m.undo, func() { e.v = old })
		}
		e.v = v
		return
	}
	e = &mapEnt{k: k, v: v}
	e.snap = m.snapKey(kt, k)
	if ck, ok := m.concKey(kt, e.snap); ok {
		e.ck = ck
	}
	m.mapIns(mp, e)
	if mp.perm && !m.initMode {
		m.undo = append(m.undo, func() {
			m.mapDel(mp, e)
			for i, x := range mp.ents {
				if x == e {
					mp.ents = append(mp.ents[:i:i], mp.ents[i+1:]...)
					break
				}
			}
		})
	}
}

func (m *Machine) mapIns(mp *Map, e *mapEnt) {
	mp.ents = append(mp.ents, e)
	mp.n++
	if e.ck != nil {
		mp.idx[e.ck] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDel(mp *Map, e *mapEnt) {
	if e.dead {
		return
	}
	e.dead = true
	mp.n--
	if e.ck != nil {
		delete(mp.idx, e.ck)
	} else {
		mp.nsym--
	}
}

func (m *Machine) mapUndel(mp *Map, e *mapEnt) {
	e.dead = false
	mp.n++
	if e.ck != nil {
		mp.idx[e.ck] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mv Value, kt *TI, k Value) {
	if mv.P == nil {
		return
	}
	mp := mv.P.(*Map)
	if m.trace != nil {
		m.traceAcc(mp.obj, 0, true)
	}
	e := m.find(mp, kt, k)
	if e == nil {
		return
	}
	m.mapDel(mp, e)
	if mp.perm && !m.initMode {
		m.undo = append(m.undo, func() { m.mapUndel(mp, e) })
	} else if len(mp.ents) > 64 && mp.n*4 < len(mp.ents) && !mp.perm {
		var live []*mapEnt
		for _, x := range mp.ents {
			if !x.dead {
				live = append(live, x)
			}
		}
		mp.ents = live
	}
}

func (m *Machine) mapClear(mv Value) {
	if mv.P == nil {
		return
	}
	mp := mv.P.(*Map)
	for _, e := range mp.ents {
		if !e.dead {
			e := e
			m.mapDel(mp, e)
			if mp.perm && !m.initMode {
				m.undo = append(m.undo, func() { m.mapUndel(mp, e) })
			}
		}
	}
}

type mapIter struct {
	mp   *Map
	done map[*mapEnt]bool
	pos  int
	perm bool
}

func (m *Machine) newMapIter(mv Value) *mapIter {
	it := &mapIter{}
	if mv.P != nil {
		it.mp = mv.P.(*Map)
	}
	if m.mapPerm && it.mp != nil && it.mp.n > 1 && !it.mp.perm {
		it.perm = true
		it.done = map[*mapEnt]bool{}
	}
	return it
}

func (it *mapIter) next(m *Machine) (k, v Value, ok bool) {
	if it.mp == nil {
		return
	}
	if m.trace != nil {
		m.traceAcc(it.mp.obj, 0, false)
	}
	if !it.perm {
		for it.pos < len(it.mp.ents) {
			e := it.mp.ents[it.pos]
			it.pos++
			if !e.dead {
				return e.k, e.v, true
			}
		}
		return
	}
	var rem []*mapEnt
	for _, e := range it.mp.ents {
		if !e.dead && !it.done[e] {
			rem = append(rem, e)
		}
	}
	if len(rem) == 0 {
		return
	}
	e := rem[m.choose("maporder", len(rem))]
	it.done[e] = true
	return e.k, e.v, true
}

type strIter struct {
	s   *Str
	pos int
}

// strNext yields (ok, index, rune).
func (m *Machine) strNext(it *strIter) Value {
	s := it.s
	if it.pos >= s.len {
		return Value{P: &Tuple{v: []Value{{}, {}, {}}}}
	}
	i := it.pos
	b := m.getB(s.o, s.off+i)
	ascii := b.P == nil && b.N < 0x80
	if b.P != nil {
		ascii = m.branch(m.c.Cmp(OUlt, b.P.(*Term), m.c.Const(8, 0x80)))
	}
	if ascii {
		it.pos++
		r := b
		if b.P != nil {
			r = m.tv(m.c.ZExt(b.P.(*Term), 32))
		}
		return Value{P: &Tuple{v: []Value{{N: 1}, {N: uint64(i)}, r}}}
	}
	f := m.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	rest := Value{P: &Str{o: s.o, off: s.off + i, len: s.len - i}}
	t := m.callFn(m.fnOf(f), []Value{rest}, nil).P.(*Tuple)
	it.pos += int(m.concretize(t.v[1], 64))
	return Value{P: &Tuple{v: []Value{{N: 1}, {N: uint64(i)}, t.v[0]}}}
}

var _ = bits.Len
