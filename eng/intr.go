package eng

import (
	"go/types"
	"math"
	"strconv"
	"strings"
)

var intrinsics = map[string]func(m *Machine, args []Value) Value{}

func reg(f func(m *Machine, a []Value) Value, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (m *Machine) basic(k types.BasicKind) *TI { return m.ti(types.Typ[k]) }

// run is a byte run of a string or slice with concrete bounds.
type brun struct {
	o   *Object
	off int
	n   int
}

func (m *Machine) runOf(v Value, isStr bool) brun {
	if isStr {
		s := m.fixStr(v)
		return brun{s.o, s.off, s.len}
	}
	s := m.fixSlice(v)
	return brun{s.o, s.off, s.len}
}

func (m *Machine) at(r brun, i int) Value { return m.getB(r.o, r.off+i) }

// indexOf builds the first position of sub in s, or -1.
func (m *Machine) indexOf(s, sub brun, last bool) Value {
	res := Value{N: ^uint64(0)}
	k := s.n - sub.n
	step := func(i int) {
		e := m.bytesEq(s.o, s.off+i, nil, sub.o, sub.off, nil, sub.n)
		if e.P == nil {
			if e.N != 0 {
				res = Value{N: uint64(i)}
			}
			return
		}
		res = m.tv(m.c.Ite(e.P.(*Term), m.c.Const(64, uint64(i)), m.term(res, 64)))
	}
	if last {
		for i := 0; i <= k; i++ {
			step(i)
		}
	} else {
		for i := k; i >= 0; i-- {
			step(i)
		}
	}
	return res
}

func (m *Machine) one(b Value) brun {
	o := m.bytesObj(make([]byte, 1))
	m.setB(o, 0, b)
	return brun{o, 0, 1}
}

func (m *Machine) count(s brun, b Value) Value {
	res := Value{}
	for i := 0; i < s.n; i++ {
		e := m.eq(m.basic(types.Uint8), m.at(s, i), b)
		if e.P == nil {
			if res.P == nil {
				res.N += e.N
			} else if e.N != 0 {
				res = m.tv(m.c.Bin(OAdd, res.P.(*Term), m.c.Const(64, 1)))
			}
			continue
		}
		res = m.tv(m.c.Bin(OAdd, m.term(res, 64), m.c.Ite(e.P.(*Term), m.c.Const(64, 1), m.c.Const(64, 0))))
	}
	return res
}

func (m *Machine) compare(a, b brun) Value {
	n := min(a.n, b.n)
	var r *Term
	switch {
	case a.n < b.n:
		r = m.c.Const(64, ^uint64(0))
	case a.n > b.n:
		r = m.c.Const(64, 1)
	default:
		r = m.c.Const(64, 0)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.term(m.at(a, i), 8), m.term(m.at(b, i), 8)
		r = m.c.Ite(m.c.Eq(x, y), r, m.c.Ite(m.c.Cmp(OUlt, x, y), m.c.Const(64, ^uint64(0)), m.c.Const(64, 1)))
	}
	return m.tv(r)
}

func (m *Machine) slotOf(p Value) (*Object, int) {
	if sp, ok := p.P.(*SymPtr); ok {
		p = m.concPtr(sp)
	}
	o, ok := p.P.(*Object)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return o, int(p.N)
}

func f64(v Value) float64 { return math.Float64frombits(v.N) }

func init() {
	str := func(isStr bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value { return m.indexOf(m.runOf(a[0], isStr), m.one(a[1]), false) }
	}
	reg(str(false), "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(str(true), "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	lst := func(isStr bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value { return m.indexOf(m.runOf(a[0], isStr), m.one(a[1]), true) }
	}
	reg(lst(false), "internal/bytealg.LastIndexByte", "bytes.LastIndexByte")
	reg(lst(true), "internal/bytealg.LastIndexByteString", "strings.LastIndexByte")
	reg(func(m *Machine, a []Value) Value { return m.count(m.runOf(a[0], false), a[1]) }, "internal/bytealg.Count")
	reg(func(m *Machine, a []Value) Value { return m.count(m.runOf(a[0], true), a[1]) }, "internal/bytealg.CountString")
	idx := func(isStr, last bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			return m.indexOf(m.runOf(a[0], isStr), m.runOf(a[1], isStr), last)
		}
	}
	reg(idx(false, false), "internal/bytealg.Index", "bytes.Index")
	reg(idx(true, false), "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(idx(true, true), "strings.LastIndex")
	reg(idx(false, true), "bytes.LastIndex")
	reg(func(m *Machine, a []Value) Value {
		x, y := m.runOf(a[0], false), m.runOf(a[1], false)
		if x.n != y.n {
			return Value{}
		}
		return m.bytesEq(x.o, x.off, nil, y.o, y.off, nil, x.n)
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(m *Machine, a []Value) Value { return m.compare(m.runOf(a[0], false), m.runOf(a[1], false)) }, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *Machine, a []Value) Value { return m.compare(m.runOf(a[0], true), m.runOf(a[1], true)) }, "internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring", "cmp.runtime_cmpstring")
	reg(func(m *Machine, a []Value) Value {
		n := m.checkAlloc(a[0], 1, "slice")
		return Value{P: &Slice{o: m.bytesObj(make([]byte, n)), len: n, cap: n}}
	}, "internal/bytealg.MakeNoZero")
	prefix := func(isStr, suffix bool) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			x, y := m.runOf(a[0], isStr), m.runOf(a[1], isStr)
			if x.n < y.n {
				return Value{}
			}
			off := x.off
			if suffix {
				off += x.n - y.n
			}
			return m.bytesEq(x.o, off, nil, y.o, y.off, nil, y.n)
		}
	}
	reg(prefix(true, false), "strings.HasPrefix", "internal/stringslite.HasPrefix")
	reg(prefix(true, true), "strings.HasSuffix", "internal/stringslite.HasSuffix")
	reg(prefix(false, false), "bytes.HasPrefix")
	reg(prefix(false, true), "bytes.HasSuffix")
	reg(func(m *Machine, a []Value) Value { return a[0] },
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone", "time.runtimeIsBubbled")
	reg(func(m *Machine, a []Value) Value { return Value{} },
		"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Disable", "internal/race.Enable", "internal/race.ReadRange", "internal/race.WriteRange", "(*sync.noCopy).Lock",
		"(*strings.Builder).copyCheck", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.New", "internal/msan.Read", "internal/asan.Read",
		"runtime.Gosched", "internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat", "internal/race.Errors", "os/signal.Notify")
	reg(func(m *Machine, a []Value) Value { return Value{N: 8} }, "runtime.NumCPU", "runtime.GOMAXPROCS")

	// floating point
	reg(func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return a[0]
		}
		return m.tv(m.c.FpToBits(a[0].P.(*Term)))
	}, "math.Float64bits", "math.Float32bits")
	reg(func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return a[0]
		}
		return m.tv(m.c.FpOfBits(a[0].P.(*Term)))
	}, "math.Float64frombits", "math.Float32frombits")
	fp1 := func(op Op, g func(float64) float64) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			if a[0].P == nil {
				return Value{N: math.Float64bits(g(f64(a[0])))}
			}
			return m.tv(m.c.Fp(op, SF64, a[0].P.(*Term), nil))
		}
	}
	reg(fp1(OFpFloor, math.Floor), "math.Floor", "math.floor")
	reg(fp1(OFpCeil, math.Ceil), "math.Ceil", "math.ceil")
	reg(fp1(OFpTrunc, math.Trunc), "math.Trunc", "math.trunc")
	reg(fp1(OFpAbs, math.Abs), "math.Abs")
	reg(func(m *Machine, a []Value) Value {
		if a[0].P == nil {
			return Value{N: b2u(math.IsNaN(f64(a[0])))}
		}
		return m.tv(m.c.Fp(OFpIsNaN, SBool, a[0].P.(*Term), nil))
	}, "math.IsNaN")
	conc1 := func(name string, g func(float64) float64) {
		reg(func(m *Machine, a []Value) Value {
			if a[0].P != nil {
				m.unsupported("symbolic " + name)
			}
			return Value{N: math.Float64bits(g(f64(a[0])))}
		}, name)
	}
	conc1("math.Sqrt", math.Sqrt)
	conc1("math.Exp", math.Exp)
	conc1("math.Log", math.Log)
	conc1("math.Log2", math.Log2)
	conc1("math.Log10", math.Log10)
	conc2 := func(name string, g func(x, y float64) float64) {
		reg(func(m *Machine, a []Value) Value {
			if a[0].P != nil || a[1].P != nil {
				m.unsupported("symbolic " + name)
			}
			return Value{N: math.Float64bits(g(f64(a[0]), f64(a[1])))}
		}, name)
	}
	conc2("math.Pow", math.Pow)
	conc2("math.Mod", math.Mod)
	conc2("math.Hypot", math.Hypot)
	reg(func(m *Machine, a []Value) Value {
		f := f64(Value{N: m.concFloat(a[0])})
		bs := int(a[3].N)
		if bs == 32 {
			f = float64(math.Float32frombits(uint32(a[0].N)))
		}
		return m.mkStr(strconv.FormatFloat(f, byte(m.concretize(a[1], 8)), int(int64(m.concretize(a[2], 64))), 64))
	}, "strconv.FormatFloat")

	// atomics
	type aty struct {
		n string
		k types.BasicKind
	}
	for _, t := range []aty{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}, {"Pointer", types.UnsafePointer}} {
		t := t
		reg := func(f func(m *Machine, a []Value) Value, names ...string) {
			reg(func(m *Machine, a []Value) Value {
				if m.trace == nil {
					return f(m, a)
				}
				o, i := m.slotOf(a[0])
				m.syncPoint(o, i, 'A')
				tr := m.trace
				m.trace = nil
				defer func() { m.trace = tr }()
				return f(m, a)
			}, names...)
		}
		names := func(op string) []string { return []string{"sync/atomic." + op + t.n} }
		reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); return m.getB(o, i) }, names("Load")...)
		reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); m.setSlotAny(o, i, a[1]); return Value{} }, names("Store")...)
		reg(func(m *Machine, a []Value) Value {
			o, i := m.slotOf(a[0])
			old := m.getB(o, i)
			m.setSlotAny(o, i, a[1])
			return old
		}, names("Swap")...)
		reg(func(m *Machine, a []Value) Value {
			o, i := m.slotOf(a[0])
			old := m.getB(o, i)
			e := m.eq(m.basic(t.k), old, a[1])
			ok := e.N != 0
			if e.P != nil {
				ok = m.branch(e.P.(*Term))
			}
			if ok {
				m.setSlotAny(o, i, a[2])
			}
			return Value{N: b2u(ok)}
		}, names("CompareAndSwap")...)
		if t.k != types.UnsafePointer {
			reg(func(m *Machine, a []Value) Value {
				o, i := m.slotOf(a[0])
				e := m.basic(t.k)
				old := m.getB(o, i)
				var nv Value
				if old.P == nil && a[1].P == nil {
					nv = Value{N: (old.N + a[1].N) & mask(e.w)}
				} else {
					nv = m.tv(m.c.Bin(OAdd, m.term(old, e.w), m.term(a[1], e.w)))
				}
				m.setSlotAny(o, i, nv)
				return nv
			}, names("Add")...)
		}
	}

	// locks: a lock held by the only thread that exists is a deadlock
	lock := func(slot int) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			o, i := m.slotOf(a[0])
			m.lockOp(o, i, 'L')
			return Value{}
		}
	}
	reg(lock(0), "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); m.lockOp(o, i, 'U'); return Value{} }, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); m.lockOp(o, i, 'W'); return Value{} }, "(*sync.RWMutex).Lock")
	reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); m.lockOp(o, i, 'X'); return Value{} }, "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); m.lockOp(o, i, 'R'); return Value{} }, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, a []Value) Value { o, i := m.slotOf(a[0]); m.lockOp(o, i, 'Q'); return Value{} }, "(*sync.RWMutex).RUnlock")

	reg(func(m *Machine, a []Value) Value { // sort.Slice, insertion sort as for n <= 12
		i := a[0].P.(*Iface)
		e := m.elemTI(i.rt.ti)
		s := m.fixSlice(i.v)
		for x := 1; x < s.len; x++ {
			for y := x; y > 0; y-- {
				c := m.callVal(a[1], []Value{{N: uint64(y)}, {N: uint64(y - 1)}}, nil)
				less := c.N != 0
				if c.P != nil {
					less = m.branch(c.P.(*Term))
				}
				if !less {
					break
				}
				for k := 0; k < e.n; k++ {
					p, q := s.off+y*e.n+k, s.off+(y-1)*e.n+k
					vp, vq := m.getB(s.o, p), m.getB(s.o, q)
					m.setSlotAny(s.o, p, vq)
					m.setSlotAny(s.o, q, vp)
				}
			}
		}
		return Value{}
	}, "sort.Slice", "sort.SliceStable")
}

func (m *Machine) concFloat(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	m.unsupported("formatting of a symbolic float")
	return 0
}

func (m *Machine) setSlotAny(o *Object, i int, v Value) {
	if o.kind == obSlots {
		m.setSlot(o, i, v)
		return
	}
	m.setB(o, i, v)
}

// lockOp emulates locks. Slot i holds the writer flag; for RWMutex slot i+4 the readers.
func (m *Machine) lockOp(o *Object, i int, op byte) {
	if m.trace != nil {
		m.traceLock(o, i, op)
		return
	}
	get := func(k int) uint64 { return o.s[i+k].N }
	set := func(k int, n uint64) { m.setSlot(o, i+k, Value{N: n}) }
	switch op {
	case 'L':
		if get(0) != 0 {
			panic(pathEnd{"fault", "deadlock: mutex is locked again by its holder"})
		}
		set(0, 1)
	case 'U':
		if get(0) == 0 {
			panic(pathEnd{"fault", "unlock of unlocked mutex"})
		}
		set(0, 0)
	case 'W':
		if get(0) != 0 || get(4) != 0 {
			panic(pathEnd{"fault", "deadlock: lock is acquired again by its holder"})
		}
		set(0, 1)
	case 'X':
		if get(0) == 0 {
			panic(pathEnd{"fault", "unlock of unlocked RWMutex"})
		}
		set(0, 0)
	case 'R':
		if get(0) != 0 {
			panic(pathEnd{"fault", "deadlock: read lock is acquired by the write lock's holder"})
		}
		set(4, get(4)+1)
	case 'Q':
		if get(4) == 0 {
			panic(pathEnd{"fault", "RUnlock of unlocked RWMutex"})
		}
		set(4, get(4)-1)
	}
}

// hasLocks reports held locks at the end of a path, for diagnostics.
var _ = strings.Contains
