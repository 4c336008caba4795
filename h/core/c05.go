package core

import (
	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// span is one tag found by the reference walk.
type span struct {
	tid      uint16
	beg, end int
}

// walk is the reference reading of a tag set: a list of (ID, length, content).
func walk(b []byte) (list []span, whole bool) {
	pos := 0
	for pos < len(b) {
		if len(b)-pos < 4 {
			return list, false
		}
		id := uint16(b[pos]) | uint16(b[pos+1])<<8
		n := int(uint16(b[pos+2]) | uint16(b[pos+3])<<8)
		if n > len(b)-pos-4 {
			return list, false
		}
		list = append(list, span{id, pos + 4, pos + 4 + n})
		pos += 4 + n
	}
	return list, true
}

func c05len() int {
	if sym.Tier() == 0 {
		return sym.IntRange("n", 0, 13)
	}
	return sym.IntRange("n", 0, 18)
}

// C05_walk: iteration over arbitrary bytes.
func C05_walk() {
	n := c05len()
	spare := 0
	if sym.Bool("spare") {
		spare = 9
	}
	store := sym.Bytes("ts", n+spare)
	b := store[:n]
	list, whole := walk(b)
	ts := wpk.TagsetRaw(b)
	tsi := ts.Iterator()
	for round := 0; round < 2; round++ {
		sym.Assert(tsi.TID() == wpk.TIDnone, "new iterator has no ID")
		for _, s := range list {
			ok := tsi.Next()
			sym.Assert(ok, "iteration yields every tag inside")
			sym.Assert(tsi.TID() == s.tid, "tag ID in order")
			sym.Assert(tsi.TagLen() == s.end-s.beg, "tag length")
			t := tsi.Tag()
			sym.Assert(len(t) == s.end-s.beg && sym.EqBytes(t, b[s.beg:s.end]), "tag content")
			sym.Assert(!tsi.Failed(), "not failed at a tag")
			sym.Assert(tsi.Passed() == (s.end == n), "passed only at the end")
		}
		for k := 0; k < 2; k++ {
			sym.Assert(!tsi.Next(), "iteration stops")
			sym.Assert(tsi.TID() == wpk.TIDnone, "finished iterator has no ID")
			sym.Assert(tsi.Passed() == whole, "passed if the bytes end on a tag boundary")
			sym.Assert(tsi.Failed() == !whole, "failed otherwise")
		}
		if !whole {
			sym.Assert(tsi.Tag() == nil && tsi.TagLen() == 0, "no tag at a failure")
		}
		tsi.Reset()
	}
	sym.Assert(ts.Num() == len(list), "count agrees with the walk")
	sym.Observe("n", len(list))
	sym.Reach("end")
	if whole {
		sym.Reach("whole")
	} else {
		sym.Reach("broken")
	}
}

// C05_lookup: presence, lookup and typed getters of any ID agree with the walk.
func C05_lookup() {
	n := c05len()
	b := sym.Bytes("ts", n)
	list, _ := walk(b)
	tid := sym.Uint16("tid")
	ts := wpk.TagsetRaw(b)
	has := ts.Has(tid)
	tag, ok := ts.Get(tid)
	var want *span
	for i := range list {
		if list[i].tid == tid {
			want = &list[i]
			break
		}
	}
	sym.Observe("has", has)
	if want == nil {
		sym.Assert(!has, "an absent tag is not present")
		sym.Assert(!ok && tag == nil, "an absent tag is not found")
		_, ok = ts.TagUint(tid)
		sym.Assert(!ok, "an absent tag has no value")
		_, ok = ts.TagStr(tid)
		sym.Assert(!ok, "an absent tag has no text")
		_, ok = ts.TagBool(tid)
		sym.Assert(!ok, "an absent tag has no truth value")
		_, ok = ts.TagByte(tid)
		sym.Assert(!ok, "an absent tag has no byte")
		_, ok = ts.TagUint16(tid)
		sym.Assert(!ok, "an absent tag has no 16-bit value")
		_, ok = ts.TagUint32(tid)
		sym.Assert(!ok, "an absent tag has no 32-bit value")
		_, ok = ts.TagUint64(tid)
		sym.Assert(!ok, "an absent tag has no 64-bit value")
		_, ok = ts.TagNumber(tid)
		sym.Assert(!ok, "an absent tag has no number")
		_, ok = ts.TagTime(tid)
		sym.Assert(!ok, "an absent tag has no time")
		_, ok = ts.TagUnixms(tid)
		sym.Assert(!ok, "an absent tag has no milliseconds")
		sym.Reach("absent")
		return
	}
	w := b[want.beg:want.end]
	sym.Assert(has, "a tag inside is present")
	sym.Assert(ok && len(tag) == len(w) && sym.EqBytes(tag, w), "lookup gives the first tag with the ID")
	s, ok := ts.TagStr(tid)
	sym.Assert(ok && sym.EqStr(s, string(w)), "text of the tag")
	u, ok := ts.TagUint(tid)
	wu, wok := wpk.TagRaw(w).TagUint()
	sym.Assert(ok == wok && u == wu, "value of the tag")
	u16, ok := ts.TagUint16(tid)
	sym.Assert(ok == (len(w) == 2) && (!ok || uint64(u16) == le(w)), "16-bit value of the tag")
	u32, ok := ts.TagUint32(tid)
	sym.Assert(ok == (len(w) == 4) && (!ok || uint64(u32) == le(w)), "32-bit value of the tag")
	u64, ok := ts.TagUint64(tid)
	sym.Assert(ok == (len(w) == 8) && (!ok || u64 == le(w)), "64-bit value of the tag")
	by, ok := ts.TagByte(tid)
	sym.Assert(ok == (len(w) == 1) && (!ok || uint64(by) == le(w)), "byte of the tag")
	sym.Reach("present")
}

// C05_pos: position and size accessors agree with the walk.
func C05_pos() {
	max := 11
	if sym.Tier() > 0 {
		max = 15
	}
	n := sym.IntRange("n", 0, max)
	b := sym.Bytes("ts", n)
	list, _ := walk(b)
	ts := wpk.TagsetRaw(b)
	first := func(tid uint16) (v uint, has bool) {
		for _, s := range list {
			if s.tid == tid {
				v, _ = wpk.TagRaw(b[s.beg:s.end]).TagUint()
				return v, true
			}
		}
		return
	}
	off, _ := first(wpk.TIDoffset)
	size, file := first(wpk.TIDsize)
	o, s := ts.Pos()
	sym.Observe("off", uint64(o))
	sym.Assert(o == off, "position of the file")
	sym.Assert(s == size, "size of the file")
	sym.Assert(ts.Size() == int64(size), "Size() of the file")
	sym.Assert(ts.IsDir() == !file, "an entry without a size is a directory")
	sym.Assert(ts.Mode().IsDir() == !file, "mode of a directory")
	sym.Reach("end")
}

// C05_big: long tags, with lengths around one and two bytes.
func C05_big() {
	sizes := []int{127, 128, 255, 256, 257, 32767, 32768, 65535}
	n := sizes[sym.IntRange("size", 0, len(sizes)-1)]
	have := n
	if sym.Bool("short") {
		have = n - 1
	}
	id := sym.Uint16("id")
	sym.Assume(id != 0)
	b := make([]byte, 4+have, 4+have+9)
	put(b[0:2], uint64(id))
	put(b[2:4], uint64(n))
	last := sym.Uint8("last")
	b[4+have-1] = last
	if have == n {
		b = append(b, 9, 0, 1, 0, 77)
	}
	ts := wpk.TagsetRaw(b)
	tsi := ts.Iterator()
	ok := tsi.Next()
	sym.Assert(ok == (have == n), "a long tag is yielded if it lies inside")
	tag, ok := ts.Get(id)
	if have == n {
		sym.Assert(tsi.TID() == id && tsi.TagLen() == n, "long tag")
		sym.Assert(ok && len(tag) == n && tag[n-1] == last, "content of a long tag")
		sym.Assert(ts.Num() == 2, "tags")
		if id != 9 {
			v, ok := ts.TagByte(9)
			sym.Assert(ok && v == 77, "tag behind a long tag")
		}
	} else {
		sym.Assert(tsi.Failed() && !ok && !ts.Has(id) && ts.Num() == 0, "a tag that does not fit is a failure")
	}
	sym.Reach("end")
}
