package eng

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a Go value during symbolic execution.
//
//	bool, integers, floats: N holds the (zero-extended) bits, or P is a *Term
//	pointers: P is *Object and N the slot (nil: P == nil), or P is *SymPtr
//	strings: *Str (nil: empty); slices: *Slice (nil: nil slice)
//	interfaces: *Iface; functions: *Closure; maps: *Map; chans: *Chan
//	structs, arrays: *Agg of flattened leaves; tuples: *Tuple
type Value struct {
	N uint64
	P any
}

type Str struct {
	o        *Object
	off, len int
	so, sl   *Term // symbolic offset / length (lazy objects only)
}

type Slice struct {
	o             *Object
	off, len, cap int
	so, sl, sc    *Term
}

func (s *Slice) sym() bool { return s.so != nil || s.sl != nil || s.sc != nil }

type Iface struct {
	rt *RType
	v  Value
}

type Closure struct {
	fn   *Fn
	free []Value
	bi   *ssa.Builtin
}

type Agg struct{ v []Value }
type Tuple struct{ v []Value }

// SymPtr is a pointer to element idx (64-bit) of a run of elements.
type SymPtr struct {
	o    *Object
	base int
	n    int // slots per element
	cnt  int // number of elements (lazy: 0)
	idx  *Term
}

type okind uint8

const (
	obSlots okind = iota
	obBytes
	obView
	obLazy
)

// Object is a memory block.
type Object struct {
	kind okind
	ro   bool
	perm bool
	b    []byte
	t    []*Term
	s    []Value
	ti   *TI // element type of slots
	id   int

	base  *Object // view
	vslot []int32
	vsub  []uint8
	vsz   []uint8
	views map[int]*Object

	name string // lazy
	size *Term
}

// TI is layout information for a type.
type TI struct {
	t        types.Type
	u        types.Type // underlying
	kind     tkind
	w        Sort // bits for scalars
	signed   bool
	n        int // leaf slots
	agg      bool
	size     int64
	fields   []*TI
	fieldOff []int
	elem     *TI
	len      int
	leafSz   []uint8
	rt       *RType
}

type tkind uint8

const (
	kInt tkind = iota
	kBool
	kFloat
	kComplex
	kString
	kSlice
	kPtr
	kUnsafe
	kIface
	kFunc
	kMap
	kChan
	kStruct
	kArray
	kTuple
)

// RType is a canonical dynamic type.
type RType struct {
	t       types.Type
	ti      *TI
	id      int
	methods map[string]*Fn
	impl    map[*types.Interface]bool
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) ti(t types.Type) *TI {
	if r, ok := m.tis[t]; ok {
		return r
	}
	r := &TI{t: t, u: t.Underlying()}
	m.tis[t] = r
	r.n = 1
	switch u := r.u.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.kind, r.w = kBool, SBool
		case u.Info()&types.IsInteger != 0:
			r.kind = kInt
			r.w = Sort(stdSizes.Sizeof(u) * 8)
			if u.Kind() == types.UntypedInt || u.Kind() == types.UntypedRune {
				r.w = 64
			}
			r.signed = u.Info()&types.IsUnsigned == 0
		case u.Info()&types.IsFloat != 0:
			r.kind, r.w = kFloat, 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.kind, r.w = kComplex, 64
		case u.Info()&types.IsString != 0:
			r.kind = kString
		case u.Kind() == types.UnsafePointer:
			r.kind = kUnsafe
		case u.Kind() == types.UntypedNil:
			r.kind = kPtr
		default:
			panic("ti basic " + u.String())
		}
	case *types.Slice:
		r.kind = kSlice
		r.elem = nil
	case *types.Pointer:
		r.kind = kPtr
	case *types.Interface:
		r.kind = kIface
	case *types.Signature:
		r.kind = kFunc
	case *types.Map:
		r.kind = kMap
	case *types.Chan:
		r.kind = kChan
	case *types.Struct:
		r.kind, r.agg = kStruct, true
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := m.ti(u.Field(i).Type())
			r.fields = append(r.fields, f)
			r.fieldOff = append(r.fieldOff, n)
			n += f.n
		}
		r.n = n
	case *types.Array:
		r.kind, r.agg = kArray, true
		r.elem = m.ti(u.Elem())
		r.len = int(u.Len())
		r.n = r.len * r.elem.n
	case *types.Tuple:
		r.kind = kTuple
	default:
		panic(fmt.Sprintf("ti: %T %v", u, t))
	}
	if r.kind != kTuple {
		func() {
			defer func() { recover() }()
			r.size = stdSizes.Sizeof(t)
		}()
	}
	return r
}

// elemTI gives the element layout of slices and pointers.
func (m *Machine) elemTI(r *TI) *TI {
	if r.elem == nil {
		switch u := r.u.(type) {
		case *types.Slice:
			r.elem = m.ti(u.Elem())
		case *types.Pointer:
			r.elem = m.ti(u.Elem())
		case *types.Basic: // string
			r.elem = m.ti(types.Typ[types.Uint8])
		default:
			panic("elemTI " + r.t.String())
		}
	}
	return r.elem
}

func (m *Machine) leafSizes(r *TI) []uint8 {
	if r.leafSz != nil || r.n == 0 {
		return r.leafSz
	}
	var out []uint8
	switch r.kind {
	case kStruct:
		for _, f := range r.fields {
			out = append(out, m.leafSizes(f)...)
		}
	case kArray:
		e := m.leafSizes(r.elem)
		for i := 0; i < r.len; i++ {
			out = append(out, e...)
		}
	case kInt, kFloat:
		out = []uint8{uint8(r.w / 8)}
	case kBool:
		out = []uint8{1}
	default:
		out = []uint8{0}
	}
	r.leafSz = out
	return out
}

func isByteTI(e *TI) bool { return e.kind == kInt && e.w == 8 }

// newObj allocates n elements of type e.
func (m *Machine) newObj(e *TI, n int) *Object {
	m.nextObj++
	o := &Object{id: m.nextObj, perm: m.initMode}
	if isByteTI(e) {
		o.kind = obBytes
		o.b = make([]byte, n)
		return o
	}
	if e.kind == kArray && isByteTI(e.elem) {
		o.kind = obBytes
		o.b = make([]byte, n*e.len)
		return o
	}
	o.ti = e
	o.s = make([]Value, n*e.n)
	return o
}

func (m *Machine) bytesObj(b []byte) *Object {
	m.nextObj++
	return &Object{id: m.nextObj, perm: m.initMode, kind: obBytes, b: b}
}

// view makes a byte view of o starting at slot off.
func (m *Machine) view(o *Object, off int) *Object {
	if v, ok := o.views[off]; ok {
		return v
	}
	m.nextObj++
	v := &Object{id: m.nextObj, kind: obView, base: o}
	ls := m.leafSizes(o.ti)
	for i := off; i < len(o.s); i++ {
		sz := ls[i%len(ls)]
		if sz == 0 {
			break
		}
		for k := uint8(0); k < sz; k++ {
			v.vslot = append(v.vslot, int32(i))
			v.vsub = append(v.vsub, k)
			v.vsz = append(v.vsz, sz)
		}
	}
	if o.views == nil {
		o.views = map[int]*Object{}
	}
	o.views[off] = v
	return v
}

// getB reads one byte.
func (m *Machine) getB(o *Object, i int) Value {
	switch o.kind {
	case obBytes:
		if uint(i) >= uint(len(o.b)) {
			m.fault("read outside of memory block")
		}
		if m.trace != nil {
			m.traceAcc(o, i, false)
		}
		if o.t != nil {
			if t := o.t[i]; t != nil {
				return Value{P: t}
			}
		}
		return Value{N: uint64(o.b[i])}
	case obSlots:
		if uint(i) >= uint(len(o.s)) {
			m.fault("read outside of memory block")
		}
		if m.trace != nil {
			m.traceAcc(o, i, false)
		}
		return o.s[i]
	case obView:
		if uint(i) >= uint(len(o.vslot)) {
			m.fault("read outside of memory block")
		}
		v := o.base.s[o.vslot[i]]
		sz, sub := o.vsz[i], o.vsub[i]
		if sz == 1 {
			return v
		}
		if v.P == nil {
			return Value{N: v.N >> (8 * sub) & 0xff}
		}
		t := v.P.(*Term)
		if t.S == SF64 || t.S == SF32 {
			t = m.c.FpToBits(t)
		}
		return m.tv(m.c.Extract(t, int(sub)*8+7, int(sub)*8))
	case obLazy:
		return m.tv(m.c.UF(o.name, m.c.Const(64, uint64(i))))
	}
	panic("getB")
}

// tv wraps a term, folding constants.
func (m *Machine) tv(t *Term) Value {
	if t.Op == OConst {
		return Value{N: t.C}
	}
	return Value{P: t}
}

// setB writes one byte.
func (m *Machine) setB(o *Object, i int, v Value) {
	if o.ro {
		m.fault("write to read-only memory")
	}
	switch o.kind {
	case obBytes:
		if uint(i) >= uint(len(o.b)) {
			m.fault("write outside of memory block")
		}
		if m.trace != nil {
			m.traceAcc(o, i, true)
		}
		if o.perm && !m.initMode {
			ob, ot := o.b[i], (*Term)(nil)
			if o.t != nil {
				ot = o.t[i]
			}
			m.undo = append(m.undo, func() {
				o.b[i] = ob
				if o.t != nil {
					o.t[i] = ot
				}
			})
		}
		if v.P == nil {
			o.b[i] = byte(v.N)
			if o.t != nil {
				o.t[i] = nil
			}
			return
		}
		if o.t == nil {
			o.t = make([]*Term, len(o.b))
		}
		o.t[i] = v.P.(*Term)
	case obSlots:
		m.setSlot(o, i, v)
	case obView:
		if uint(i) >= uint(len(o.vslot)) {
			m.fault("write outside of memory block")
		}
		sl := int(o.vslot[i])
		sz, sub := o.vsz[i], o.vsub[i]
		if sz == 1 {
			m.setSlot(o.base, sl, v)
			return
		}
		old := o.base.s[sl]
		if old.P == nil && v.P == nil {
			m.setSlot(o.base, sl, Value{N: old.N&^(0xff<<(8*sub)) | v.N<<(8*sub)})
			return
		}
		t := m.term(old, Sort(sz)*8)
		if t.S == SF64 || t.S == SF32 {
			t = m.c.FpToBits(t)
		}
		r := m.term(v, 8)
		if sub > 0 {
			r = m.c.Concat(r, m.c.Extract(t, int(sub)*8-1, 0))
		}
		if sub+1 < sz {
			r = m.c.Concat(m.c.Extract(t, int(sz)*8-1, int(sub+1)*8), r)
		}
		m.setSlot(o.base, sl, m.tv(r))
	default:
		m.unsupported("write to lazy object")
	}
}

func (m *Machine) setSlot(o *Object, i int, v Value) {
	if o.ro {
		m.fault("write to read-only memory")
	}
	if uint(i) >= uint(len(o.s)) {
		m.fault("write outside of memory block")
	}
	if m.trace != nil {
		m.traceAcc(o, i, true)
	}
	if o.perm && !m.initMode {
		old := o.s[i]
		m.undo = append(m.undo, func() { o.s[i] = old })
	}
	o.s[i] = v
}

// load reads a value of type e.
func (m *Machine) load(e *TI, o *Object, off int) Value {
	if o.kind == obSlots {
		if !e.agg {
			if uint(off) >= uint(len(o.s)) {
				m.fault("read outside of memory block")
			}
			if m.trace != nil {
				m.traceAcc(o, off, false)
			}
			return o.s[off]
		}
		if off+e.n > len(o.s) {
			m.fault("read outside of memory block")
		}
		if m.trace != nil {
			for i := 0; i < e.n; i++ {
				m.traceAcc(o, off+i, false)
			}
		}
		a := &Agg{v: make([]Value, e.n)}
		copy(a.v, o.s[off:off+e.n])
		return Value{P: a}
	}
	if e.agg {
		if e.kind == kArray && isByteTI(e.elem) {
			a := &Agg{v: make([]Value, e.n)}
			for i := range a.v {
				a.v[i] = m.getB(o, off+i)
			}
			return Value{P: a}
		}
		if e.n == 0 {
			return Value{P: &Agg{}}
		}
		m.unsupported("aggregate load from byte memory: " + e.t.String())
	}
	switch e.kind {
	case kInt, kFloat, kBool:
	default:
		m.unsupported("load of " + e.t.String() + " from byte memory")
	}
	if e.w <= 8 {
		v := m.getB(o, off)
		if e.kind == kBool && v.P != nil {
			return m.tv(m.c.Not(m.c.Eq(v.P.(*Term), m.c.Const(8, 0))))
		}
		return v
	}
	n := int(e.w / 8)
	var c uint64
	sym := false
	for i := 0; i < n; i++ {
		v := m.getB(o, off+i)
		if v.P != nil {
			sym = true
			break
		}
		c |= v.N << (8 * i)
	}
	if !sym {
		return Value{N: c}
	}
	t := m.term(m.getB(o, off), 8)
	for i := 1; i < n; i++ {
		t = m.c.Concat(m.term(m.getB(o, off+i), 8), t)
	}
	if e.kind == kFloat {
		t = m.c.FpOfBits(t)
	}
	return m.tv(t)
}

// store writes a value of type e.
func (m *Machine) store(e *TI, o *Object, off int, v Value) {
	if o.kind == obSlots {
		if !e.agg {
			m.setSlot(o, off, v)
			return
		}
		a := v.P.(*Agg)
		if o.ro {
			m.fault("write to read-only memory")
		}
		if off+e.n > len(o.s) {
			m.fault("write outside of memory block")
		}
		if m.trace != nil {
			for i := 0; i < e.n; i++ {
				m.traceAcc(o, off+i, true)
			}
		}
		if o.perm && !m.initMode {
			old := append([]Value(nil), o.s[off:off+e.n]...)
			m.undo = append(m.undo, func() { copy(o.s[off:], old) })
		}
		copy(o.s[off:off+e.n], a.v)
		return
	}
	if e.agg {
		if e.kind == kArray && isByteTI(e.elem) {
			for i, x := range v.P.(*Agg).v {
				m.setB(o, off+i, x)
			}
			return
		}
		if e.n == 0 {
			return
		}
		m.unsupported("aggregate store to byte memory: " + e.t.String())
	}
	switch e.kind {
	case kInt, kFloat, kBool:
	default:
		m.unsupported("store of " + e.t.String() + " to byte memory")
	}
	if e.w <= 8 {
		if e.kind == kBool && v.P != nil {
			v = m.tv(m.c.Ite(v.P.(*Term), m.c.Const(8, 1), m.c.Const(8, 0)))
		}
		m.setB(o, off, v)
		return
	}
	n := int(e.w / 8)
	if v.P == nil {
		for i := 0; i < n; i++ {
			m.setB(o, off+i, Value{N: v.N >> (8 * i) & 0xff})
		}
		return
	}
	t := v.P.(*Term)
	if t.S == SF64 || t.S == SF32 {
		t = m.c.FpToBits(t)
	}
	for i := 0; i < n; i++ {
		m.setB(o, off+i, m.tv(m.c.Extract(t, 8*i+7, 8*i)))
	}
}

// term lifts a scalar to a term of sort s.
func (m *Machine) term(v Value, s Sort) *Term {
	if v.P != nil {
		t := v.P.(*Term)
		return t
	}
	if s == SF64 || s == SF32 {
		w := Sort(64)
		if s == SF32 {
			w = 32
		}
		return m.c.FpOfBits(m.c.Const(w, v.N))
	}
	return m.c.Const(s, v.N)
}

func (m *Machine) fterm(v Value, e *TI) *Term {
	if e.w == 32 {
		return m.term(v, SF32)
	}
	return m.term(v, SF64)
}

// strings

func (m *Machine) mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	o := m.bytesObj([]byte(s))
	o.ro = true
	return Value{P: &Str{o: o, len: len(s)}}
}

func strOf(v Value) *Str {
	if v.P == nil {
		return &Str{}
	}
	return v.P.(*Str)
}

func sliceOf(v Value) *Slice {
	if v.P == nil {
		return &Slice{}
	}
	return v.P.(*Slice)
}

// goStr returns the concrete content, if it is concrete.
func (m *Machine) goStr(v Value) (string, bool) {
	s := strOf(v)
	if s.len == 0 && s.sl == nil {
		return "", true
	}
	if s.so != nil || s.sl != nil {
		return "", false
	}
	if s.o.kind == obBytes && s.o.t == nil {
		return string(s.o.b[s.off : s.off+s.len]), true
	}
	b := make([]byte, s.len)
	for i := range b {
		x := m.getB(s.o, s.off+i)
		if x.P != nil {
			return "", false
		}
		b[i] = byte(x.N)
	}
	return string(b), true
}

// concStr returns the content, concretizing symbolic bytes by forking.
func (m *Machine) concStr(v Value) string {
	s := m.fixStr(v)
	b := make([]byte, s.len)
	for i := range b {
		b[i] = byte(m.concretize(m.getB(s.o, s.off+i), 8))
	}
	return string(b)
}

// fixStr makes length and offset concrete.
func (m *Machine) fixStr(v Value) *Str {
	s := strOf(v)
	if s.so == nil && s.sl == nil {
		return s
	}
	r := *s
	if r.sl != nil {
		r.len = int(m.concretize(Value{P: r.sl}, 64))
		r.sl = nil
	}
	if r.so != nil {
		r.off = int(m.concretize(Value{P: r.so}, 64))
		r.so = nil
	}
	return &r
}

func (m *Machine) fixSlice(v Value) *Slice {
	s := sliceOf(v)
	if !s.sym() {
		return s
	}
	r := *s
	if r.sl != nil {
		r.len = int(m.concretize(Value{P: r.sl}, 64))
		r.sl = nil
	}
	if r.so != nil {
		r.off = int(m.concretize(Value{P: r.so}, 64))
		r.so = nil
	}
	if r.sc != nil {
		r.cap = int(m.concretize(Value{P: r.sc}, 64))
		r.sc = nil
	}
	return &r
}

// getBAt reads the byte at a possibly symbolic position of a lazy or ordinary object.
func (m *Machine) getBAt(o *Object, base int, sbase *Term, i int) Value {
	if sbase == nil {
		return m.getB(o, base+i)
	}
	if o.kind == obLazy {
		return m.tv(m.c.UF(o.name, m.c.Bin(OAdd, sbase, m.c.Const(64, uint64(i)))))
	}
	off := int(m.concretize(Value{P: sbase}, 64))
	return m.getB(o, off+i)
}

// strEq compares two strings without forking (lengths concrete).
func (m *Machine) strEq(a, b Value) Value {
	x, y := strOf(a), strOf(b)
	if x.sl != nil || y.sl != nil {
		x, y = m.fixStr(a), m.fixStr(b)
	}
	if x.len != y.len {
		return Value{}
	}
	return m.bytesEq(x.o, x.off, x.so, y.o, y.off, y.so, x.len)
}

func (m *Machine) bytesEq(xo *Object, xoff int, xs *Term, yo *Object, yoff int, ys *Term, n int) Value {
	if n == 0 || xo == yo && xoff == yoff && xs == ys {
		return Value{N: 1}
	}
	if xo.kind == obBytes && yo.kind == obBytes && xo.t == nil && yo.t == nil && xs == nil && ys == nil {
		return Value{N: b2u(string(xo.b[xoff:xoff+n]) == string(yo.b[yoff:yoff+n]))}
	}
	r := m.c.T
	for i := 0; i < n; i++ {
		a, b := m.getBAt(xo, xoff, xs, i), m.getBAt(yo, yoff, ys, i)
		if a.P == nil && b.P == nil {
			if a.N != b.N {
				return Value{}
			}
			continue
		}
		r = m.c.And(r, m.c.Eq(m.term(a, 8), m.term(b, 8)))
	}
	return m.tv(r)
}

// eq compares two values of type e.
func (m *Machine) eq(e *TI, a, b Value) Value {
	switch e.kind {
	case kInt, kBool:
		if a.P == nil && b.P == nil {
			return Value{N: b2u(a.N == b.N)}
		}
		return m.tv(m.c.Eq(m.term(a, e.w), m.term(b, e.w)))
	case kFloat:
		if a.P == nil && b.P == nil {
			s := SF64
			if e.w == 32 {
				s = SF32
			}
			return Value{N: b2u(fval(s, a.N) == fval(s, b.N))}
		}
		return m.tv(m.c.Fp(OFpEq, SBool, m.fterm(a, e), m.fterm(b, e)))
	case kString:
		return m.strEq(a, b)
	case kIface:
		return m.ifaceEq(a, b)
	case kPtr, kUnsafe, kChan:
		return m.ptrEq(a, b)
	case kMap, kFunc, kSlice: // against nil only
		if a.P == nil || b.P == nil {
			return Value{N: b2u(a.P == nil && b.P == nil)}
		}
		m.rtPanic("comparing uncomparable type " + e.t.String())
	case kStruct:
		r := Value{N: 1}
		for i, f := range e.fields {
			r = m.vand(r, m.eq(f, m.sub(a, e.fieldOff[i], f), m.sub(b, e.fieldOff[i], f)))
		}
		return r
	case kArray:
		r := Value{N: 1}
		for i := 0; i < e.len; i++ {
			r = m.vand(r, m.eq(e.elem, m.sub(a, i*e.elem.n, e.elem), m.sub(b, i*e.elem.n, e.elem)))
		}
		return r
	}
	m.unsupported("comparison of " + e.t.String())
	return Value{}
}

func (m *Machine) ptrEq(a, b Value) Value {
	if sp, ok := a.P.(*SymPtr); ok {
		a = m.concPtr(sp)
	}
	if sp, ok := b.P.(*SymPtr); ok {
		b = m.concPtr(sp)
	}
	return Value{N: b2u(a.P == b.P && (a.P == nil || a.N == b.N))}
}

func (m *Machine) ifaceEq(a, b Value) Value {
	if a.P == nil || b.P == nil {
		return Value{N: b2u(a.P == nil && b.P == nil)}
	}
	x, y := a.P.(*Iface), b.P.(*Iface)
	if x.rt != y.rt {
		return Value{}
	}
	switch x.rt.ti.kind {
	case kMap, kFunc, kSlice:
		m.rtPanic("comparing uncomparable type " + x.rt.t.String())
	}
	return m.eq(x.rt.ti, x.v, y.v)
}

func (m *Machine) vand(a, b Value) Value {
	if a.P == nil && b.P == nil {
		return Value{N: a.N & b.N}
	}
	return m.tv(m.c.And(m.term(a, SBool), m.term(b, SBool)))
}

// sub extracts a component of a flattened aggregate.
func (m *Machine) sub(v Value, off int, f *TI) Value {
	a := v.P.(*Agg)
	if f.agg {
		return Value{P: &Agg{v: a.v[off : off+f.n : off+f.n]}}
	}
	return a.v[off]
}

func (m *Machine) zero(e *TI) Value {
	if e.agg {
		return Value{P: &Agg{v: make([]Value, e.n)}}
	}
	return Value{}
}

func (m *Machine) concPtr(p *SymPtr) Value {
	i := int(m.concretize(Value{P: p.idx}, 64))
	return Value{P: p.o, N: uint64(p.base + i*p.n)}
}

// loadSym reads through a symbolic pointer.
func (m *Machine) loadSym(e *TI, p *SymPtr) Value {
	if p.o.kind == obLazy {
		return m.tv(m.c.UF(p.o.name, m.c.Bin(OAdd, p.idx, m.c.Const(64, uint64(p.base)))))
	}
	if e.agg || e.kind != kInt && e.kind != kBool || p.cnt > 4096 {
		c := m.concPtr(p)
		return m.load(e, c.P.(*Object), int(c.N))
	}
	// table lookup: build ite over runs of equal values
	type run struct {
		hi uint64
		v  *Term
	}
	var runs []run
	for i := 0; i < p.cnt; i++ {
		v := m.term(m.load(e, p.o, p.base+i*p.n), e.w)
		if k := len(runs); k > 0 && runs[k-1].v == v {
			runs[k-1].hi = uint64(i)
		} else {
			runs = append(runs, run{uint64(i), v})
		}
	}
	if len(runs) == 0 {
		m.fault("lookup in empty table")
	}
	r := runs[len(runs)-1].v
	for k := len(runs) - 2; k >= 0; k-- {
		r = m.c.Ite(m.c.Cmp(OUle, p.idx, m.c.Const(64, runs[k].hi)), runs[k].v, r)
	}
	return m.tv(r)
}
