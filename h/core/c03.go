package core

import (
	"math"
	"time"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

type raw = wpk.TagRaw

// C03_roundtrip: every value of every type survives, also through a tagset.
func C03_roundtrip() {
	const tid = 77
	v := sym.Uint64("v")
	ts := func(t raw) wpk.TagsetRaw {
		return wpk.TagsetRaw{}.Put(5, raw{1, 2, 3}).Put(tid, t).Put(6, raw{9})
	}
	switch sym.IntRange("type", 0, 7) {
	case 0:
		x := sym.Bool("b")
		t := wpk.BoolTag(x)
		sym.Assert(len(t) == 1, "bool tag has one byte")
		y, ok := t.TagBool()
		sym.Assert(ok && y == x, "bool tag")
		y, ok = ts(t).TagBool(tid)
		sym.Assert(ok && y == x, "bool tag in tagset")
	case 1:
		x := uint8(v)
		t := wpk.ByteTag(x)
		sym.Assert(len(t) == 1 && t[0] == x, "byte tag has one byte")
		y, ok := t.TagByte()
		sym.Assert(ok && y == x, "byte tag")
		y, ok = ts(t).TagByte(tid)
		sym.Assert(ok && y == x, "byte tag in tagset")
	case 2:
		x := uint16(v)
		t := wpk.Uint16Tag(x)
		sym.Assert(len(t) == 2 && le(t) == uint64(x), "uint16 tag is little-endian")
		y, ok := t.TagUint16()
		sym.Assert(ok && y == x, "uint16 tag")
		y, ok = ts(t).TagUint16(tid)
		sym.Assert(ok && y == x, "uint16 tag in tagset")
	case 3:
		x := uint32(v)
		t := wpk.Uint32Tag(x)
		sym.Assert(len(t) == 4 && le(t) == uint64(x), "uint32 tag is little-endian")
		y, ok := t.TagUint32()
		sym.Assert(ok && y == x, "uint32 tag")
		y, ok = ts(t).TagUint32(tid)
		sym.Assert(ok && y == x, "uint32 tag in tagset")
	case 4:
		t := wpk.Uint64Tag(v)
		sym.Assert(len(t) == 8 && le(t) == v, "uint64 tag is little-endian")
		y, ok := t.TagUint64()
		sym.Assert(ok && y == v, "uint64 tag")
		y, ok = ts(t).TagUint64(tid)
		sym.Assert(ok && y == v, "uint64 tag in tagset")
	case 5:
		f := sym.Float64("f")
		t := wpk.NumberTag(f)
		sym.Assert(len(t) == 8 && le(t) == math.Float64bits(f), "number tag holds the IEEE bits")
		y, ok := t.TagNumber()
		sym.Assert(ok && math.Float64bits(y) == math.Float64bits(f), "number tag")
		y, ok = ts(t).TagNumber(tid)
		sym.Assert(ok && math.Float64bits(y) == math.Float64bits(f), "number tag in tagset")
	case 6:
		t := wpk.UintTag(uint(v))
		var l int
		switch {
		case v < 1<<8:
			l = 1
		case v < 1<<16:
			l = 2
		case v < 1<<32:
			l = 4
		default:
			l = 8
		}
		sym.Assert(len(t) == l, "uint tag has the shortest length")
		sym.Assert(le(t) == v, "uint tag is little-endian")
		y, ok := t.TagUint()
		sym.Assert(ok && uint64(y) == v, "uint tag")
		y, ok = ts(t).TagUint(tid)
		sym.Assert(ok && uint64(y) == v, "uint tag in tagset")
		sym.Observe("tag", []byte(t))
	case 7:
		n := sym.IntRange("n", 0, 4+4*sym.Tier())
		s := sym.String("s", n)
		t := wpk.StrTag(s)
		sym.Assert(sym.EqStr(string(t), s), "string tag holds the string")
		y, ok := t.TagStr()
		sym.Assert(ok && sym.EqStr(y, s), "string tag")
		y, ok = ts(t).TagStr(tid)
		sym.Assert(ok && sym.EqStr(y, s), "string tag in tagset")
		sym.Observe("s", y)
	}
	sym.Reach("end")
}

// C03_uintlen: an explicit length truncates, any other length panics.
func C03_uintlen() {
	v := sym.Uint64("v")
	l := sym.Int("l")
	var t raw
	p := sym.Try(func() { t = wpk.UintLenTag(uint(v), l) })
	if l == 1 || l == 2 || l == 4 || l == 8 {
		sym.Assert(p == nil, "length 1, 2, 4 and 8 are accepted")
		sym.Assert(len(t) == l, "tag has the requested length")
		sym.Assert(le(t) == v&(1<<(8*uint(l)-1)<<1-1), "tag holds the low bytes, little-endian")
		y, ok := t.TagUint()
		sym.Assert(ok && uint64(y) == le(t), "explicit length tag decodes")
		sym.Reach("ok")
	} else {
		sym.Assert(p != nil, "any other length panics")
		sym.Reach("panic")
	}
	sym.Observe("t", []byte(t))
}

// C03_reject: decoders accept exactly the lengths of their type.
func C03_reject() {
	n := sym.IntRange("n", 0, 13+8*sym.Tier())
	b := sym.Bytes("b", n)
	t := raw(b)
	x1, ok := t.TagBool()
	sym.Assert(ok == (n == 1), "bool length")
	if ok {
		sym.Assert(x1 == (b[0] != 0), "bool value")
	} else {
		sym.Assert(!x1, "bool zero")
	}
	x2, ok := t.TagByte()
	sym.Assert(ok == (n == 1), "byte length")
	x3, ok3 := t.TagUint16()
	sym.Assert(ok3 == (n == 2), "uint16 length")
	x4, ok4 := t.TagUint32()
	sym.Assert(ok4 == (n == 4), "uint32 length")
	x5, ok5 := t.TagUint64()
	sym.Assert(ok5 == (n == 8), "uint64 length")
	x6, ok6 := t.TagUint()
	sym.Assert(ok6 == (n == 1 || n == 2 || n == 4 || n == 8), "uint length")
	x7, ok7 := t.TagNumber()
	sym.Assert(ok7 == (n == 8), "number length")
	x8, ok8 := t.TagStr()
	sym.Assert(ok8 && sym.EqStr(x8, string(b)), "string takes any length")
	want := func(ok bool, v uint64, what string) {
		if ok {
			sym.Assert(v == le(b), what+" value")
		} else {
			sym.Assert(v == 0, what+" zero")
		}
	}
	want(ok, uint64(x2), "byte")
	want(ok3, uint64(x3), "uint16")
	want(ok4, uint64(x4), "uint32")
	want(ok5, x5, "uint64")
	want(ok6, uint64(x6), "uint")
	want(ok7, math.Float64bits(x7), "number")
	// the same through a tagset, and for a tag that is not there
	ts := wpk.TagsetRaw{}.Put(9, t)
	for _, tid := range []wpk.TID{9, 10} {
		here := tid == 9
		_, o := ts.TagBool(tid)
		sym.Assert(o == (here && n == 1), "bool in tagset")
		_, o = ts.TagByte(tid)
		sym.Assert(o == (here && n == 1), "byte in tagset")
		_, o = ts.TagUint16(tid)
		sym.Assert(o == (here && ok3), "uint16 in tagset")
		_, o = ts.TagUint32(tid)
		sym.Assert(o == (here && ok4), "uint32 in tagset")
		_, o = ts.TagUint64(tid)
		sym.Assert(o == (here && ok5), "uint64 in tagset")
		_, o = ts.TagUint(tid)
		sym.Assert(o == (here && ok6), "uint in tagset")
		_, o = ts.TagNumber(tid)
		sym.Assert(o == (here && ok7), "number in tagset")
		_, o = ts.TagStr(tid)
		sym.Assert(o == here, "string in tagset")
		_, o = ts.TagTime(tid)
		sym.Assert(o == (here && (n == 8 || n == 12)), "time in tagset")
		_, o = ts.TagUnixms(tid)
		sym.Assert(o == (here && (n == 8 || n == 12)), "milliseconds in tagset")
	}
	sym.Reach("end")
}

// C03_several: tags of which several are in use at once.
func C03_several() {
	type one struct {
		t  raw
		ok func(raw) bool
	}
	var list []one
	for i := 0; i < 2; i++ {
		v := sym.Uint64("v")
		var o one
		switch sym.IntRange("type", 0, 8) {
		case 0:
			x := v&1 != 0
			o = one{t: wpk.BoolTag(x), ok: func(t raw) bool { y, ok := t.TagBool(); return ok && y == x }}
		case 1:
			x := byte(v)
			o = one{t: wpk.ByteTag(x), ok: func(t raw) bool { y, ok := t.TagByte(); return ok && y == x }}
		case 2:
			x := uint16(v)
			o = one{t: wpk.Uint16Tag(x), ok: func(t raw) bool { y, ok := t.TagUint16(); return ok && y == x }}
		case 3:
			x := uint32(v)
			o = one{t: wpk.Uint32Tag(x), ok: func(t raw) bool { y, ok := t.TagUint32(); return ok && y == x }}
		case 4:
			o = one{t: wpk.Uint64Tag(v), ok: func(t raw) bool { y, ok := t.TagUint64(); return ok && y == v }}
		case 5:
			o = one{t: wpk.UintTag(uint(v)), ok: func(t raw) bool { y, ok := t.TagUint(); return ok && y == uint(v) }}
		case 6:
			l := 1 << sym.IntRange("len", 0, 3)
			x := uint(v) & (1<<(8*l) - 1)
			o = one{t: wpk.UintLenTag(x, l), ok: func(t raw) bool { y, ok := t.TagUint(); return ok && y == x }}
		case 7:
			o = one{t: wpk.NumberTag(math.Float64frombits(v)), ok: func(t raw) bool { return le(t) == v }}
		case 8:
			x := sym.String("s", sym.IntRange("strlen", 1, 2))
			o = one{t: wpk.StrTag(x), ok: func(t raw) bool { y, ok := t.TagStr(); return ok && sym.EqStr(y, x) }}
		}
		list = append(list, o)
	}
	for _, o := range list {
		sym.Assert(o.ok(o.t), "a tag keeps its value when other ones are made")
	}
	sym.Reach("end")
}

// C04_several: time tags of which several are in use at once.
func C04_several() {
	a, s1, n1 := anyTime("a", 1<<62)
	b, s2, n2 := anyTime("b", 1<<62)
	t, u := wpk.TimeTag(a), wpk.TimeTag(b)
	r, ok := t.TagTime()
	sym.Assert(ok && sameTime(r, s1, n1), "a tag keeps its value when another one is made")
	r, ok = u.TagTime()
	sym.Assert(ok && sameTime(r, s2, n2), "a tag keeps its value when another one is used")
	p, q := wpk.UnixmsTag(time.Unix(s1&0xffffff, 0)), wpk.UnixmsTag(time.Unix(s2&0xffffff, 0))
	sym.Assert(int64(le(p)) == (s1&0xffffff)*1000 && int64(le(q)) == (s2&0xffffff)*1000, "a tag keeps its value when another one is made")
	sym.Reach("end")
}
