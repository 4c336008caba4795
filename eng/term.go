// Package eng is a symbolic executor for Go SSA.
package eng

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZExt
	OSExt
	OUF // uninterpreted byte array: name(idx64) -> bv8
	OFpOfBits
	OFpToBits
	OFpAdd
	OFpSub
	OFpMul
	OFpDiv
	OFpNeg
	OFpAbs
	OFpLt
	OFpLe
	OFpEq
	OFpIsNaN
	OFpOfSInt
	OFpOfUInt
	OFpToSInt // truncation; result defined only when in range
	OFpToUInt
	OFpToFp
	OFpTrunc
	OFpFloor
	OFpCeil
)

// Sort encodes: 0 Bool, 1..128 bit-vector width, 200 FP64, 201 FP32.
type Sort uint8

const (
	SBool Sort = 0
	SF64  Sort = 200
	SF32  Sort = 201
)

// Term is a hash-consed SMT term, owned by one worker.
type Term struct {
	Op      Op
	S       Sort
	X, Y, Z *Term
	C       uint64 // constant; extract: hi<<8|lo
	Name    string
	ID      int32
	gen     int64 // evaluation stamp
	val     uint64
	hi      uint64 // cached upper bound
	lo      uint64 // and lower bound
	slo     int64  // signed bounds
	shi     int64
	defined int64  // solver generation in which it was emitted
	hard    bool   // holds a wide division
}

type tkey struct {
	op      Op
	s       Sort
	x, y, z int32
	c       uint64
	name    string
}

// Ctx owns terms.
type Ctx struct {
	tab    map[tkey]*Term
	nextID int32
	T, F   *Term
	gen    int64
	model  *Model
	vars   []*Term
	ufs    map[string][]*Term // applications per uf
}

// Model is an assignment.
type Model struct {
	V  map[string]uint64
	UF map[string]map[uint64]uint64
}

func (m *Model) clone() *Model {
	n := &Model{V: make(map[string]uint64, len(m.V))}
	for k, v := range m.V {
		n.V[k] = v
	}
	if len(m.UF) > 0 {
		n.UF = map[string]map[uint64]uint64{}
		for k, t := range m.UF {
			c := make(map[uint64]uint64, len(t))
			for a, b := range t {
				c[a] = b
			}
			n.UF[k] = c
		}
	}
	return n
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, ufs: map[string][]*Term{}, gen: 1}
	c.T = c.mk(Term{Op: OConst, S: SBool, C: 1})
	c.F = c.mk(Term{Op: OConst, S: SBool, C: 0})
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.ID
}

func (c *Ctx) mk(t Term) *Term {
	k := tkey{t.Op, t.S, tid(t.X), tid(t.Y), tid(t.Z), t.C, t.Name}
	if r, ok := c.tab[k]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.ID = c.nextID
	c.nextID++
	r.hi = c.calcHi(r)
	r.slo, r.shi = c.calcS(r)
	if r.S >= 1 && r.S <= 64 && r.slo >= 0 {
		r.hi = min(r.hi, uint64(r.shi))
	}
	r.lo = c.calcLo(r)
	r.hard = t.S >= 32 && (t.Op == OUDiv || t.Op == OURem || t.Op == OSDiv || t.Op == OSRem)
	for _, x := range [3]*Term{t.X, t.Y, t.Z} {
		if x != nil && x.hard {
			r.hard = true
		}
	}
	c.tab[k] = r
	if t.Op == OUF {
		c.ufs[t.Name] = append(c.ufs[t.Name], r)
	}
	return r
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ctx) calcHi(t *Term) uint64 {
	if t.S == SBool {
		return 1
	}
	if t.S > 64 {
		return ^uint64(0)
	}
	m := mask(t.S)
	switch t.Op {
	case OConst:
		return t.C
	case OZExt:
		return t.X.hi
	case OBAnd:
		return min(t.X.hi, t.Y.hi)
	case OIte:
		return max(t.Y.hi, t.Z.hi)
	case OURem:
		if t.Y.Op == OConst && t.Y.C > 0 {
			return min(t.X.hi, t.Y.C-1)
		}
		return t.X.hi
	case OUDiv:
		if t.Y.Op == OConst && t.Y.C > 0 {
			return t.X.hi / t.Y.C
		}
	case OLShr:
		if t.Y.Op == OConst {
			if t.Y.C >= uint64(t.S) {
				return 0
			}
			return t.X.hi >> t.Y.C
		}
		return t.X.hi
	case OAdd:
		s, cy := bits.Add64(t.X.hi, t.Y.hi, 0)
		if cy == 0 && s <= m {
			return s
		}
	case OMul:
		h, l := bits.Mul64(t.X.hi, t.Y.hi)
		if h == 0 && l <= m {
			return l
		}
	case OShl:
		if t.Y.Op == OConst && t.Y.C < uint64(t.S) {
			s := t.X.hi << t.Y.C
			if s>>t.Y.C == t.X.hi && s <= m {
				return s
			}
		}
	case OConcat:
		return t.X.hi<<t.Y.S | t.Y.hi
	case OBOr, OBXor:
		n := bits.Len64(t.X.hi | t.Y.hi)
		return mask(Sort(n))
	case OExtract:
		lo := t.C & 0xff
		return min(m, t.X.hi>>lo)
	}
	return m
}

// calcLo bounds a bit-vector term as an unsigned number from below.
func (c *Ctx) calcLo(t *Term) uint64 {
	if t.S == SBool || t.S > 64 {
		return 0
	}
	lo := uint64(0)
	if t.slo > 0 {
		lo = uint64(t.slo)
	}
	m := mask(t.S)
	switch t.Op {
	case OConst:
		return t.C
	case OZExt:
		lo = max(lo, t.X.lo)
	case OIte:
		lo = max(lo, min(t.Y.lo, t.Z.lo))
	case OUDiv:
		if t.Y.Op == OConst && t.Y.C > 0 {
			lo = max(lo, t.X.lo/t.Y.C)
		}
	case OLShr:
		if t.Y.Op == OConst && t.Y.C < uint64(t.S) {
			lo = max(lo, t.X.lo>>t.Y.C)
		}
	case OAdd:
		if s, cy := bits.Add64(t.X.hi, t.Y.hi, 0); cy == 0 && s <= m {
			lo = max(lo, t.X.lo+t.Y.lo)
		}
	case OMul:
		if h, l := bits.Mul64(t.X.hi, t.Y.hi); h == 0 && l <= m {
			lo = max(lo, t.X.lo*t.Y.lo)
		}
	case OConcat:
		lo = max(lo, t.X.lo<<t.Y.S|t.Y.lo)
	case OBOr:
		lo = max(lo, max(t.X.lo, t.Y.lo))
	case OExtract:
		// no bits above are lost
		if t.C&0xff == 0 && t.X.S <= 64 && t.X.hi <= m {
			lo = max(lo, t.X.lo)
		}
	}
	return lo
}

func smax(w Sort) int64 { return int64(mask(w) >> 1) }

// calcS bounds a bit-vector term as a signed number.
func (c *Ctx) calcS(t *Term) (int64, int64) {
	w := t.S
	if w == SBool || w > 64 {
		return math.MinInt64, math.MaxInt64
	}
	lo, hi := -smax(w)-1, smax(w)
	if t.hi <= uint64(smax(w)) {
		lo, hi = 0, int64(t.hi)
	}
	fit := func(a, b int64) (int64, int64) {
		if a > lo || b < hi {
			return max(a, lo), min(b, hi)
		}
		return lo, hi
	}
	cdiv := func() (int64, bool) {
		if t.Y.Op != OConst {
			return 0, false
		}
		d := sext64(t.Y.C, w)
		return d, d > 0
	}
	switch t.Op {
	case OConst:
		v := sext64(t.C, w)
		return v, v
	case OSExt:
		return t.X.slo, t.X.shi
	case OIte:
		a, b := c.refine(t.X, true, t.Y)
		d, e := c.refine(t.X, false, t.Z)
		return fit(min(a, d), max(b, e))
	case OSRem:
		if d, ok := cdiv(); ok {
			a, b := -(d - 1), d-1
			if t.X.slo >= 0 {
				a = 0
			}
			if t.X.shi <= 0 {
				b = 0
			}
			return fit(max(a, min(t.X.slo, 0)), min(b, max(t.X.shi, 0)))
		}
	case OSDiv:
		if d, ok := cdiv(); ok {
			return fit(t.X.slo/d, t.X.shi/d)
		}
	case OMul:
		if d, ok := cdiv(); ok && t.X.slo >= (-smax(w))/d && t.X.shi <= smax(w)/d {
			return fit(t.X.slo*d, t.X.shi*d)
		}
	case OAdd:
		a, b := t.X.slo+t.Y.slo, t.X.shi+t.Y.shi
		small := func(x int64) bool { return x > -(1<<62) && x < 1<<62 }
		if small(t.X.slo) && small(t.X.shi) && small(t.Y.slo) && small(t.Y.shi) && a >= -smax(w)-1 && b <= smax(w) {
			return fit(a, b)
		}
	case ONeg:
		if t.X.slo > -smax(w)-1 {
			return fit(-t.X.shi, -t.X.slo)
		}
	}
	return lo, hi
}

// refine bounds v (or v = x + constant) where cond is known about x.
func (c *Ctx) refine(cond *Term, val bool, v *Term) (int64, int64) {
	lo, hi := v.slo, v.shi
	if cond.Op == ONot {
		return c.refine(cond.X, !val, v)
	}
	if cond.Op != OSlt || cond.X.S != v.S {
		return lo, hi
	}
	off := int64(0)
	x := v
	match := func(y *Term) bool {
		if y == v {
			return true
		}
		if v.Op == OAdd && v.Y.Op == OConst && v.X == y {
			off, x = sext64(v.Y.C, v.S), y
			return true
		}
		return false
	}
	small := func(x int64) bool { return x > -(1<<62) && x < 1<<62 }
	var a, b int64
	switch {
	case cond.Y.Op == OConst && match(cond.X): // x < k
		k := sext64(cond.Y.C, v.S)
		a, b = x.slo, x.shi
		if val && k > math.MinInt64 {
			b = min(b, k-1)
		} else if !val {
			a = max(a, k)
		}
	case cond.X.Op == OConst && match(cond.Y): // k < x
		k := sext64(cond.X.C, v.S)
		a, b = x.slo, x.shi
		if val && k < math.MaxInt64 {
			a = max(a, k+1)
		} else if !val {
			b = min(b, k)
		}
	default:
		return lo, hi
	}
	if a > b || !small(a) || !small(b) || !small(off) || a+off < -smax(v.S)-1 || b+off > smax(v.S) {
		return lo, hi
	}
	return max(lo, a+off), min(hi, b+off)
}

func (c *Ctx) Const(w Sort, v uint64) *Term {
	if w == SBool {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	return c.mk(Term{Op: OConst, S: w, C: v & mask(w)})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(name string, w Sort) *Term {
	n := len(c.tab)
	t := c.mk(Term{Op: OVar, S: w, Name: name})
	if len(c.tab) != n {
		c.vars = append(c.vars, t)
	}
	return t
}

func (c *Ctx) UF(name string, idx *Term) *Term {
	return c.mk(Term{Op: OUF, S: 8, X: idx, Name: name})
}

func (t *Term) isConst() bool { return t.Op == OConst }

func (c *Ctx) Not(x *Term) *Term {
	switch x.Op {
	case OConst:
		return c.Bool(x.C == 0)
	case ONot:
		return x.X
	}
	return c.mk(Term{Op: ONot, S: SBool, X: x})
}

func (c *Ctx) And(x, y *Term) *Term {
	if x == c.F || y == c.F {
		return c.F
	}
	if x == c.T || x == y {
		return y
	}
	if y == c.T {
		return x
	}
	if x.Op == ONot && x.X == y || y.Op == ONot && y.X == x {
		return c.F
	}
	if y.ID < x.ID {
		x, y = y, x
	}
	return c.mk(Term{Op: OAnd, S: SBool, X: x, Y: y})
}

func (c *Ctx) Or(x, y *Term) *Term {
	if x == c.T || y == c.T {
		return c.T
	}
	if x == c.F || x == y {
		return y
	}
	if y == c.F {
		return x
	}
	if x.Op == ONot && x.X == y || y.Op == ONot && y.X == x {
		return c.T
	}
	if y.ID < x.ID {
		x, y = y, x
	}
	return c.mk(Term{Op: OOr, S: SBool, X: x, Y: y})
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.T
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.S != y.S {
		panic(fmt.Sprintf("eq sort mismatch %v %v: %s / %s", x.S, y.S, x, y))
	}
	if y.isConst() {
		if x.isConst() {
			return c.Bool(x.C == y.C)
		}
		if x.S == SBool {
			if y.C != 0 {
				return x
			}
			return c.Not(x)
		}
		if x.S <= 64 && (y.C > x.hi || y.C < x.lo) {
			return c.F
		}
		switch x.Op {
		case OIte:
			if x.Y.isConst() && x.Z.isConst() {
				a, b := x.Y.C == y.C, x.Z.C == y.C
				switch {
				case a && b:
					return c.T
				case a:
					return x.X
				case b:
					return c.Not(x.X)
				default:
					return c.F
				}
			}
			if x.Z.isConst() && x.Z.C != y.C {
				return c.And(x.X, c.Eq(x.Y, y))
			}
			if x.Y.isConst() && x.Y.C != y.C {
				return c.And(c.Not(x.X), c.Eq(x.Z, y))
			}
			if x.Y.isConst() {
				return c.Or(x.X, c.Eq(x.Z, y))
			}
			if x.Z.isConst() {
				return c.Or(c.Not(x.X), c.Eq(x.Y, y))
			}
		case OZExt:
			if y.C>>x.X.S != 0 && x.X.S < 64 {
				return c.F
			}
			return c.Eq(x.X, c.Const(x.X.S, y.C))
		case OConcat:
			if x.S <= 64 {
				return c.And(c.Eq(x.X, c.Const(x.X.S, y.C>>x.Y.S)), c.Eq(x.Y, c.Const(x.Y.S, y.C)))
			}
		case OAdd:
			if x.Y.isConst() {
				return c.Eq(x.X, c.Const(x.S, y.C-x.Y.C))
			}
		case OBXor:
			if x.Y.isConst() {
				return c.Eq(x.X, c.Const(x.S, y.C^x.Y.C))
			}
		case OBNot:
			return c.Eq(x.X, c.Const(x.S, ^y.C))
		}
	} else if x.Op == OConcat && y.Op == OConcat && x.X.S == y.X.S {
		return c.And(c.Eq(x.X, y.X), c.Eq(x.Y, y.Y))
	} else if x.Op == OZExt && y.Op == OZExt && x.X.S == y.X.S {
		return c.Eq(x.X, y.X)
	} else if x.Op == OAdd && y.Op == OAdd && x.Y == y.Y {
		return c.Eq(x.X, y.X)
	} else if x.Op == OAdd && y.Op == OAdd && x.X == y.X {
		return c.Eq(x.Y, y.Y)
	} else if x.Op == OFpOfBits && y.Op == OFpOfBits {
		return c.Eq(x.X, y.X)
	}
	if y.ID < x.ID && !y.isConst() {
		x, y = y, x
	}
	return c.mk(Term{Op: OEq, S: SBool, X: x, Y: y})
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b == c.T {
		return x
	}
	if b == c.F {
		return y
	}
	if x == y {
		return x
	}
	if b.Op == ONot {
		b, x, y = b.X, y, x
	}
	if x.S == SBool {
		if x == c.T {
			return c.Or(b, y)
		}
		if x == c.F {
			return c.And(c.Not(b), y)
		}
		if y == c.T {
			return c.Or(c.Not(b), x)
		}
		if y == c.F {
			return c.And(b, x)
		}
	}
	if x.Op == OIte && x.X == b {
		x = x.Y
	}
	if y.Op == OIte && y.X == b {
		y = y.Z
	}
	if x == y {
		return x
	}
	return c.mk(Term{Op: OIte, S: x.S, X: b, Y: x, Z: y})
}

func sext64(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func evalBin(op Op, w Sort, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalCmp(op Op, w Sort, a, b uint64) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sext64(a, w) < sext64(b, w)
	case OSle:
		return sext64(a, w) <= sext64(b, w)
	}
	panic("evalCmp")
}

// Bin builds an arithmetic or bitwise term.
func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	w := x.S
	if x.S != y.S {
		panic(fmt.Sprintf("bin sort mismatch op %d %v %v", op, x.S, y.S))
	}
	if x.isConst() && y.isConst() && w <= 64 {
		return c.Const(w, evalBin(op, w, x.C, y.C))
	}
	switch op {
	case OAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.C == 0 {
				return x
			}
			if x.Op == OAdd && x.Y.isConst() {
				return c.Bin(OAdd, x.X, c.Const(w, x.Y.C+y.C))
			}
			break
		}
		if x.Op == OAdd && x.Y.isConst() {
			return c.Bin(OAdd, c.Bin(OAdd, x.X, y), x.Y)
		}
		if y.Op == OAdd && y.Y.isConst() {
			return c.Bin(OAdd, c.Bin(OAdd, x, y.X), y.Y)
		}
		if x.Op == ONeg && x.X == y || y.Op == ONeg && y.X == x {
			return c.Const(w, 0)
		}
		if y.Op == ONeg { // x + (-b) with x = a+b
			if x.Op == OAdd {
				if x.X == y.X {
					return x.Y
				}
				if x.Y == y.X {
					return x.X
				}
			}
		}
		if x.Op == ONeg && y.Op != ONeg {
			return c.Bin(OAdd, y, x)
		}
		if y.Op == ONeg && y.X.Op == OMul && y.X.Y.isConst() && y.X.Y.C != 0 && y.X.X.X == x && y.X.X.Y == y.X.Y {
			if y.X.X.Op == OSDiv {
				return c.Bin(OSRem, x, y.X.Y)
			}
			if y.X.X.Op == OUDiv {
				return c.Bin(OURem, x, y.X.Y)
			}
		}
		if y.ID < x.ID && y.Op != ONeg {
			x, y = y, x
		}
	case OSub:
		if y.isConst() {
			return c.Bin(OAdd, x, c.Const(w, -y.C))
		}
		if x == y {
			return c.Const(w, 0)
		}
		if y.Op == OAdd && y.Y.isConst() {
			return c.Bin(OAdd, c.Bin(OSub, x, y.X), c.Const(w, -y.Y.C))
		}
		if y.Op == OAdd {
			if y.X == x {
				return c.Neg(y.Y)
			}
			if y.Y == x {
				return c.Neg(y.X)
			}
		}
		return c.Bin(OAdd, x, c.Neg(y))
	case OMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch y.C {
			case 0:
				return y
			case 1:
				return x
			}
			if bits.OnesCount64(y.C) == 1 {
				return c.Bin(OShl, x, c.Const(w, uint64(bits.TrailingZeros64(y.C))))
			}
		}
	case OUDiv, OURem:
		if y.isConst() && y.C != 0 {
			if bits.OnesCount64(y.C) == 1 {
				k := bits.TrailingZeros64(y.C)
				if op == OUDiv {
					return c.Bin(OLShr, x, c.Const(w, uint64(k)))
				}
				return c.Bin(OBAnd, x, c.Const(w, y.C-1))
			}
			if q := x.lo / y.C; w <= 64 && q == x.hi/y.C { // the same quotient for all values
				if op == OUDiv {
					return c.Const(w, q)
				}
				return c.Bin(OSub, x, c.Const(w, q*y.C))
			}
		}
	case OSDiv, OSRem:
		if y.isConst() {
			if d := sext64(y.C, w); d > 0 && x.slo > -d && x.shi < d {
				if op == OSDiv {
					return c.Const(w, 0)
				}
				return x
			}
		}
		if y.isConst() && y.C != 0 && sext64(y.C, w) > 0 && x.hi <= mask(w)>>1 {
			if op == OSDiv {
				return c.Bin(OUDiv, x, y)
			}
			return c.Bin(OURem, x, y)
		}
	case OBAnd:
		if x.isConst() {
			x, y = y, x
		}
		if x == y {
			return x
		}
		if y.isConst() {
			if y.C == 0 {
				return y
			}
			if y.C == mask(w) {
				return x
			}
			// low mask -> zext(extract)
			if k := bits.Len64(y.C); y.C == mask(Sort(k)) && w <= 64 {
				if x.hi <= y.C {
					return x
				}
				return c.ZExt(c.Extract(x, k-1, 0), w)
			}
			if x.Op == OBAnd && x.Y.isConst() {
				return c.Bin(OBAnd, x.X, c.Const(w, x.Y.C&y.C))
			}
		}
	case OBOr:
		if x.isConst() {
			x, y = y, x
		}
		if x == y {
			return x
		}
		if y.isConst() {
			if y.C == 0 {
				return x
			}
			if y.C == mask(w) {
				return y
			}
		}
	case OBXor:
		if x.isConst() {
			x, y = y, x
		}
		if x == y {
			return c.Const(w, 0)
		}
		if y.isConst() && y.C == 0 {
			return x
		}
	case OShl, OLShr, OAShr:
		if y.isConst() {
			if y.C == 0 {
				return x
			}
			if y.C >= uint64(w) {
				if op != OAShr {
					return c.Const(w, 0)
				}
				y = c.Const(w, uint64(w)-1)
			}
			if w <= 64 {
				k := int(y.C)
				if op == OLShr {
					return c.ZExt(c.Extract(x, int(w)-1, k), w)
				}
				if op == OShl && k > 0 {
					return c.Concat(c.Extract(x, int(w)-1-k, 0), c.Const(Sort(k), 0))
				}
			}
		}
		if x.isConst() && x.C == 0 {
			return x
		}
	}
	return c.mk(Term{Op: op, S: w, X: x, Y: y})
}

func (c *Ctx) Neg(x *Term) *Term {
	if x.isConst() {
		return c.Const(x.S, -x.C)
	}
	if x.Op == ONeg {
		return x.X
	}
	return c.mk(Term{Op: ONeg, S: x.S, X: x})
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.isConst() {
		return c.Const(x.S, ^x.C)
	}
	if x.Op == OBNot {
		return x.X
	}
	return c.mk(Term{Op: OBNot, S: x.S, X: x})
}

func (c *Ctx) Cmp(op Op, x, y *Term) *Term {
	w := x.S
	if x.S != y.S {
		panic("cmp sort mismatch")
	}
	if x.isConst() && y.isConst() {
		return c.Bool(evalCmp(op, w, x.C, y.C))
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	half := mask(w) >> 1
	if (op == OSlt || op == OSle) && x.hi <= half && y.hi <= half {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if x.hi < y.lo {
			return c.T
		}
		if x.lo >= y.hi {
			return c.F
		}
		if y.isConst() {
			if y.C == 0 {
				return c.F
			}
			if x.hi < y.C {
				return c.T
			}
			if y.C == 1 {
				return c.Eq(x, c.Const(w, 0))
			}
		}
		if x.isConst() && y.hi <= x.C {
			return c.F
		}
	case OUle:
		// x <= y  ==  not (y < x)
		return c.Not(c.Cmp(OUlt, y, x))
	case OSle:
		return c.Not(c.Cmp(OSlt, y, x))
	case OSlt:
		if x.shi < y.slo {
			return c.T
		}
		if x.slo >= y.shi {
			return c.F
		}
		if y.isConst() && y.C == 0 && x.hi <= half {
			return c.F
		}
		if x.isConst() && x.C == mask(w) && y.hi <= half {
			return c.T
		}
	}
	if op == OUlt && w <= 64 && x.Op == OZExt && y.Op == OZExt && x.X.S == y.X.S {
		return c.Cmp(OUlt, x.X, y.X)
	}
	if op == OUlt && x.Op == OZExt && y.isConst() && y.C <= mask(x.X.S) {
		return c.Cmp(OUlt, x.X, c.Const(x.X.S, y.C))
	}
	if op == OUlt && y.Op == OZExt && x.isConst() && x.C <= mask(y.X.S) {
		return c.Cmp(OUlt, c.Const(y.X.S, x.C), y.X)
	}
	return c.mk(Term{Op: op, S: SBool, X: x, Y: y})
}

func (c *Ctx) Extract(x *Term, hi, lo int) *Term {
	w := Sort(hi - lo + 1)
	if w == x.S {
		return x
	}
	switch x.Op {
	case OConst:
		return c.Const(w, x.C>>uint(lo))
	case OExtract:
		l := int(x.C & 0xff)
		return c.Extract(x.X, hi+l, lo+l)
	case OConcat:
		ys := int(x.Y.S)
		if lo >= ys {
			return c.Extract(x.X, hi-ys, lo-ys)
		}
		if hi < ys {
			return c.Extract(x.Y, hi, lo)
		}
		return c.Concat(c.Extract(x.X, hi-ys, 0), c.Extract(x.Y, ys-1, lo))
	case OZExt:
		xs := int(x.X.S)
		if lo >= xs {
			return c.Const(w, 0)
		}
		if hi < xs {
			return c.Extract(x.X, hi, lo)
		}
		return c.ZExt(c.Extract(x.X, xs-1, lo), w)
	case OSExt:
		if hi < int(x.X.S) {
			return c.Extract(x.X, hi, lo)
		}
	case OIte:
		if x.Y.isConst() || x.Z.isConst() {
			return c.Ite(x.X, c.Extract(x.Y, hi, lo), c.Extract(x.Z, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if x.Y.isConst() || lo == 0 && false {
			return c.Bin(x.Op, c.Extract(x.X, hi, lo), c.Extract(x.Y, hi, lo))
		}
	case OAdd:
		if lo == 0 && x.Y.isConst() {
			return c.Bin(x.Op, c.Extract(x.X, hi, 0), c.Extract(x.Y, hi, 0))
		}
	case OBNot:
		return c.BNot(c.Extract(x.X, hi, lo))
	}
	return c.mk(Term{Op: OExtract, S: w, X: x, C: uint64(hi)<<8 | uint64(lo)})
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.S + lo.S
	if hi.isConst() && lo.isConst() && w <= 64 {
		return c.Const(w, hi.C<<lo.S|lo.C)
	}
	if hi.isConst() && hi.C == 0 {
		return c.ZExt(lo, w)
	}
	if hi.Op == OExtract && lo.Op == OExtract && hi.X == lo.X && hi.C&0xff == lo.C>>8+1 {
		return c.Extract(hi.X, int(hi.C>>8), int(lo.C&0xff))
	}
	if lo.Op == OConcat && hi.Op == OExtract && lo.X.Op == OExtract && hi.X == lo.X.X && hi.C&0xff == lo.X.C>>8+1 {
		return c.Concat(c.Concat(hi, lo.X), lo.Y)
	}
	if hi.Op == OZExt {
		return c.ZExt(c.Concat(hi.X, lo), w)
	}
	if hi.Op == OConcat && hi.Y.Op == OExtract && lo.Op == OExtract && hi.Y.X == lo.X && hi.Y.C&0xff == lo.C>>8+1 {
		return c.Concat(hi.X, c.Concat(hi.Y, lo))
	}
	return c.mk(Term{Op: OConcat, S: w, X: hi, Y: lo})
}

func (c *Ctx) ZExt(x *Term, w Sort) *Term {
	if w == x.S {
		return x
	}
	switch x.Op {
	case OConst:
		return c.Const(w, x.C)
	case OZExt:
		return c.ZExt(x.X, w)
	case OIte:
		if x.Y.isConst() && x.Z.isConst() {
			return c.Ite(x.X, c.ZExt(x.Y, w), c.ZExt(x.Z, w))
		}
	}
	if x.Op == OExtract && x.C&0xff == 0 && x.X.S == w && x.X.hi <= mask(x.S) {
		return x.X
	}
	return c.mk(Term{Op: OZExt, S: w, X: x})
}

func (c *Ctx) SExt(x *Term, w Sort) *Term {
	if w == x.S {
		return x
	}
	if x.isConst() {
		return c.Const(w, uint64(sext64(x.C, x.S)))
	}
	if x.hi <= mask(x.S)>>1 {
		return c.ZExt(x, w)
	}
	if x.Op == OSExt {
		return c.SExt(x.X, w)
	}
	if x.Op == OExtract && x.C&0xff == 0 && x.X.S == w && x.X.slo >= -smax(x.S)-1 && x.X.shi <= smax(x.S) {
		return x.X
	}
	return c.mk(Term{Op: OSExt, S: w, X: x})
}

// floating point

func (c *Ctx) FpOfBits(x *Term) *Term {
	s := SF64
	if x.S == 32 {
		s = SF32
	}
	if x.isConst() {
		return c.mk(Term{Op: OConst, S: s, C: x.C})
	}
	if x.Op == OFpToBits {
		return x.X
	}
	return c.mk(Term{Op: OFpOfBits, S: s, X: x})
}

func (c *Ctx) FpToBits(x *Term) *Term {
	w := Sort(64)
	if x.S == SF32 {
		w = 32
	}
	if x.isConst() {
		return c.Const(w, x.C)
	}
	if x.Op == OFpOfBits {
		return x.X
	}
	return c.mk(Term{Op: OFpToBits, S: w, X: x})
}

// Fp builds any other floating-point term, with constant folding.
func (c *Ctx) Fp(op Op, s Sort, x, y *Term) *Term {
	t := Term{Op: op, S: s, X: x, Y: y}
	if x.isConst() && (y == nil || y.isConst()) {
		yv := uint64(0)
		if y != nil {
			yv = y.C
		}
		v := evalFp(&t, x.C, yv)
		if s == SBool {
			return c.Bool(v != 0)
		}
		if s == SF64 || s == SF32 {
			return c.mk(Term{Op: OConst, S: s, C: v})
		}
		return c.Const(s, v)
	}
	if r := c.fpExact(op, s, x, y); r != nil {
		return r
	}
	if op == OFpEq && x == y && (x.Op == OFpOfSInt || x.Op == OFpOfUInt) {
		return c.Bool(true) // never NaN
	}
	return c.mk(t)
}

// exactInt gives the signed 64-bit integer that a number is by construction,
// if conversions between both are exact.
func (c *Ctx) exactInt(t *Term) *Term {
	const lim = 1 << 53
	if t.S != SF64 {
		return nil
	}
	switch t.Op {
	case OFpOfSInt:
		if t.X.S <= 64 && t.X.slo >= -lim && t.X.shi <= lim {
			return c.SExt(t.X, 64)
		}
	case OFpOfUInt:
		if t.X.S <= 64 && t.X.hi <= lim {
			return c.ZExt(t.X, 64)
		}
	case OConst:
		f := math.Float64frombits(t.C)
		if f == math.Trunc(f) && math.Abs(f) <= lim && t.C != 1<<63 {
			return c.Const(64, uint64(int64(f)))
		}
	}
	return nil
}

// fpExact simplifies operations on numbers that are integers by construction.
func (c *Ctx) fpExact(op Op, s Sort, x, y *Term) *Term {
	switch op {
	case OFpToSInt, OFpToUInt:
		if i := c.exactInt(x); i != nil && s == 64 && (op == OFpToSInt || i.slo >= 0) {
			return i
		}
	case OFpEq, OFpLt, OFpLe:
		a, b := c.exactInt(x), c.exactInt(y)
		if a != nil && b != nil {
			switch op {
			case OFpEq:
				return c.Eq(a, b)
			case OFpLt:
				return c.Cmp(OSlt, a, b)
			}
			return c.Cmp(OSle, a, b)
		}
		// a bounded integer and a number out of its bounds
		if a != nil && y.Op == OConst && op != OFpEq {
			f := math.Float64frombits(y.C)
			if f > float64(a.shi) {
				return c.T
			}
			if f < float64(a.slo) {
				return c.F
			}
		}
		if b != nil && x.Op == OConst && op != OFpEq {
			f := math.Float64frombits(x.C)
			if f < float64(b.slo) {
				return c.T
			}
			if f > float64(b.shi) {
				return c.F
			}
		}
	}
	return nil
}

func fval(s Sort, v uint64) float64 {
	if s == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(s Sort, f float64) uint64 {
	if s == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalFp(t *Term, a, b uint64) uint64 {
	x := t.X
	switch t.Op {
	case OFpOfBits, OFpToBits:
		return a
	case OFpAdd:
		return fbits(t.S, fval(x.S, a)+fval(x.S, b))
	case OFpSub:
		return fbits(t.S, fval(x.S, a)-fval(x.S, b))
	case OFpMul:
		return fbits(t.S, fval(x.S, a)*fval(x.S, b))
	case OFpDiv:
		return fbits(t.S, fval(x.S, a)/fval(x.S, b))
	case OFpNeg:
		if x.S == SF32 {
			return a ^ 1<<31
		}
		return a ^ 1<<63
	case OFpAbs:
		if x.S == SF32 {
			return a &^ (1 << 31)
		}
		return a &^ (1 << 63)
	case OFpLt:
		return b2u(fval(x.S, a) < fval(x.S, b))
	case OFpLe:
		return b2u(fval(x.S, a) <= fval(x.S, b))
	case OFpEq:
		return b2u(fval(x.S, a) == fval(x.S, b))
	case OFpIsNaN:
		f := fval(x.S, a)
		return b2u(f != f)
	case OFpOfSInt:
		i := sext64(a, x.S)
		if t.S == SF32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	case OFpOfUInt:
		if t.S == SF32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OFpToSInt:
		f := math.Trunc(fval(x.S, a))
		if f != f || f >= math.Ldexp(1, int(t.S)-1) || f < -math.Ldexp(1, int(t.S)-1) {
			return 0
		}
		return uint64(int64(f)) & mask(t.S)
	case OFpToUInt:
		f := math.Trunc(fval(x.S, a))
		if f != f || f >= math.Ldexp(1, int(t.S)) || f < 0 {
			return 0
		}
		return uint64(f) & mask(t.S)
	case OFpToFp:
		return fbits(t.S, fval(x.S, a))
	case OFpTrunc:
		return fbits(t.S, math.Trunc(fval(x.S, a)))
	case OFpFloor:
		return fbits(t.S, math.Floor(fval(x.S, a)))
	case OFpCeil:
		return fbits(t.S, math.Ceil(fval(x.S, a)))
	}
	panic("evalFp")
}

// SetModel switches evaluation to m.
func (c *Ctx) SetModel(m *Model) {
	c.model = m
	c.gen++
}

// Eval evaluates t under the current model (missing variables are 0).
func (c *Ctx) Eval(t *Term) uint64 {
	if t.Op == OConst {
		return t.C
	}
	if t.gen == c.gen {
		return t.val
	}
	var v uint64
	switch t.Op {
	case OVar:
		v = c.model.V[t.Name] & mask(max(t.S, 1))
	case ONot:
		v = 1 ^ c.Eval(t.X)
	case OAnd:
		v = c.Eval(t.X) & c.Eval(t.Y)
	case OOr:
		v = c.Eval(t.X) | c.Eval(t.Y)
	case OEq:
		v = b2u(c.Eval(t.X) == c.Eval(t.Y))
	case OIte:
		if c.Eval(t.X) != 0 {
			v = c.Eval(t.Y)
		} else {
			v = c.Eval(t.Z)
		}
	case OUlt, OUle, OSlt, OSle:
		v = b2u(evalCmp(t.Op, t.X.S, c.Eval(t.X), c.Eval(t.Y)))
	case OConcat:
		v = c.Eval(t.X)<<t.Y.S | c.Eval(t.Y)
	case OExtract:
		v = c.Eval(t.X) >> (t.C & 0xff) & mask(t.S)
	case OZExt:
		v = c.Eval(t.X)
	case OSExt:
		v = uint64(sext64(c.Eval(t.X), t.X.S)) & mask(t.S)
	case OBNot:
		v = ^c.Eval(t.X) & mask(t.S)
	case ONeg:
		v = -c.Eval(t.X) & mask(t.S)
	case OUF:
		v = c.model.UF[t.Name][c.Eval(t.X)]
	default:
		if t.Op >= OFpOfBits {
			var b uint64
			if t.Y != nil {
				b = c.Eval(t.Y)
			}
			v = evalFp(t, c.Eval(t.X), b)
		} else {
			v = evalBin(t.Op, t.S, c.Eval(t.X), c.Eval(t.Y))
		}
	}
	t.gen, t.val = c.gen, v
	return v
}

// SMT printing

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFpNeg: "fp.neg", OFpAbs: "fp.abs", OFpLt: "fp.lt", OFpLe: "fp.leq", OFpEq: "fp.eq", OFpIsNaN: "fp.isNaN",
	OFpAdd: "fp.add RNE", OFpSub: "fp.sub RNE", OFpMul: "fp.mul RNE", OFpDiv: "fp.div RNE",
	OFpTrunc: "fp.roundToIntegral RTZ", OFpFloor: "fp.roundToIntegral RTN", OFpCeil: "fp.roundToIntegral RTP",
	OFpToBits: "fp.to_ieee_bv",
}

func fpSuffix(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

// ref is how a term is referenced by its parents.
func (t *Term) ref(b *strings.Builder) {
	switch t.Op {
	case OConst:
		switch t.S {
		case SBool:
			if t.C != 0 {
				b.WriteString("true")
			} else {
				b.WriteString("false")
			}
		case SF64:
			fmt.Fprintf(b, "((_ to_fp 11 53) #x%016x)", t.C)
		case SF32:
			fmt.Fprintf(b, "((_ to_fp 8 24) #x%08x)", t.C)
		default:
			fmt.Fprintf(b, "(_ bv%d %d)", t.C, t.S)
		}
	case OVar:
		fmt.Fprintf(b, "|v!%s!%d|", t.Name, t.S)
	default:
		fmt.Fprintf(b, "t%d", t.ID)
	}
}

func (t *Term) body(b *strings.Builder) {
	switch t.Op {
	case OExtract:
		fmt.Fprintf(b, "((_ extract %d %d) ", t.C>>8, t.C&0xff)
	case OZExt:
		fmt.Fprintf(b, "((_ zero_extend %d) ", t.S-t.X.S)
	case OSExt:
		fmt.Fprintf(b, "((_ sign_extend %d) ", t.S-t.X.S)
	case OUF:
		fmt.Fprintf(b, "(|v!%s| ", t.Name)
	case OFpOfBits:
		fmt.Fprintf(b, "((_ to_fp %s) ", fpSuffix(t.S))
	case OFpToFp:
		fmt.Fprintf(b, "((_ to_fp %s) RNE ", fpSuffix(t.S))
	case OFpOfSInt:
		fmt.Fprintf(b, "((_ to_fp %s) RNE ", fpSuffix(t.S))
	case OFpOfUInt:
		fmt.Fprintf(b, "((_ to_fp_unsigned %s) RNE ", fpSuffix(t.S))
	case OFpToSInt:
		fmt.Fprintf(b, "((_ fp.to_sbv %d) RTZ ", t.S)
	case OFpToUInt:
		fmt.Fprintf(b, "((_ fp.to_ubv %d) RTZ ", t.S)
	default:
		b.WriteString("(" + opNames[t.Op] + " ")
	}
	t.X.ref(b)
	if t.Y != nil {
		b.WriteByte(' ')
		t.Y.ref(b)
	}
	if t.Z != nil {
		b.WriteByte(' ')
		t.Z.ref(b)
	}
	b.WriteByte(')')
}

func (t *Term) String() string {
	var b strings.Builder
	t.str(&b, 6)
	return b.String()
}

func (t *Term) str(b *strings.Builder, d int) {
	if t.Op == OConst || t.Op == OVar {
		t.ref(b)
		return
	}
	if d == 0 {
		b.WriteString("..")
		return
	}
	name := opNames[t.Op]
	if name == "" {
		name = fmt.Sprintf("op%d", t.Op)
	}
	fmt.Fprintf(b, "(%s", name)
	if t.Op == OExtract {
		fmt.Fprintf(b, "[%d:%d]", t.C>>8, t.C&0xff)
	}
	for _, x := range []*Term{t.X, t.Y, t.Z} {
		if x != nil {
			b.WriteByte(' ')
			x.str(b, d-1)
		}
	}
	b.WriteByte(')')
}
