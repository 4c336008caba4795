package core

import (
	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// ent is one tag of the reference ordered map.
type ent struct {
	id  uint16
	val []byte
}

func encode(list []ent) (b []byte) {
	for _, e := range list {
		b = append(b, byte(e.id), byte(e.id>>8), byte(len(e.val)), byte(len(e.val)>>8))
		b = append(b, e.val...)
	}
	return
}

// someTags is a tag set of k tags with distinct symbolic IDs and contents of 0..maxlen
// bytes, in storage with spare bytes of capacity.
func someTags(name string, k, maxlen, spare int) ([]ent, wpk.TagsetRaw) {
	var list []ent
	for i := 0; i < k; i++ {
		nm := name + string(rune('0'+i))
		e := ent{id: sym.Uint16(nm + ".id"), val: sym.Bytes(nm+".val", sym.IntRange(nm+".len", 0, maxlen))}
		for _, p := range list {
			sym.Assume(p.id != e.id)
		}
		list = append(list, e)
	}
	b := encode(list)
	store := make([]byte, len(b), len(b)+spare)
	copy(store, b)
	for i := range store[len(b):cap(store)] {
		store[:cap(store)][len(b)+i] = 0xee
	}
	return list, store
}

// edit performs one edit on the reference and on the real tag set.
func edit(name string, list []ent, ts wpk.TagsetRaw, op, maxlen int) ([]ent, wpk.TagsetRaw) {
	id := sym.Uint16(name + ".id")
	var val []byte
	if op != 4 && op != 5 {
		val = sym.Bytes(name+".val", sym.IntRange(name+".len", 0, maxlen))
	}
	at := -1
	for i := range list {
		if list[i].id == id {
			at = i
			break
		}
	}
	want := append([]ent{}, list...)
	var did, ok bool
	switch op {
	case 0: // put: only for absent tags
		sym.Assume(at < 0)
		ts = ts.Put(id, val)
		want = append(want, ent{id, val})
	case 1, 2:
		if op == 1 {
			ts, ok = ts.AddOk(id, val)
			if did = at < 0; did {
				want = append(want, ent{id, val})
			}
			sym.Assert(ok == did, "add tells whether it added")
		} else {
			ts = ts.Add(id, val)
			if at < 0 {
				want = append(want, ent{id, val})
			}
		}
	case 3, 6:
		if at >= 0 {
			want[at].val = val
		} else {
			want = append(want, ent{id, val})
		}
		if op == 3 {
			ts, ok = ts.SetOk(id, val)
			sym.Assert(ok == (at < 0), "set tells whether it appended")
		} else {
			ts = ts.Set(id, val)
		}
	case 4, 5:
		if at >= 0 {
			want = append(want[:at:at], want[at+1:]...)
		}
		if op == 4 {
			ts, ok = ts.DelOk(id)
			sym.Assert(ok == (at >= 0), "delete tells whether it deleted")
		} else {
			ts = ts.Del(id)
		}
	}
	opname := []string{"put", "add", "add", "set", "delete", "delete", "set"}[op]
	exp := encode(want)
	sym.Assert(len(ts) == len(exp), opname+" gives the right length")
	sym.Assert(sym.EqBytes(ts, exp), opname+" changes exactly the tag that was asked for")
	return want, ts
}

var spares = []int{0, 2, 5, 64}

// C06_edit: any single edit of any tag set.
func C06_edit() {
	k, l := 3, 2
	if sym.Tier() > 0 {
		k, l = 4, 2
	}
	k = sym.IntRange("tags", 0, k)
	list, ts := someTags("t", k, l, spares[sym.IntRange("spare", 0, len(spares)-1)])
	edit("e", list, ts, sym.IntRange("op", 0, 6), l+1)
	sym.Reach("end")
}

// C06_two: two edits in a row.
func C06_two() {
	k := 2
	if sym.Tier() > 0 {
		k = 3
	}
	k = sym.IntRange("tags", 0, k)
	list, ts := someTags("t", k, 1, spares[2*sym.IntRange("spare", 0, 1)])
	ops := []int{0, 1, 3, 4}
	list, ts = edit("e", list, ts, ops[sym.IntRange("op1", 0, 3)], 2)
	edit("f", list, ts, ops[sym.IntRange("op2", 0, 3)], 2)
	sym.Reach("end")
}

// C06_copy: edits of a copy leave the original alone, and the other way round.
func C06_copy() {
	k := sym.IntRange("tags", 0, 2)
	list, ts := someTags("t", k, 2, spares[2*sym.IntRange("spare", 0, 1)])
	full := ts[:cap(ts)]
	before := append([]byte{}, full...)
	cp := wpk.CopyTagset(ts)
	sym.Assert(len(cp) == len(ts) && sym.EqBytes(cp, ts), "a copy is equal")
	_, cp = edit("e", list, cp, sym.IntRange("op", 0, 6), 3)
	sym.Assert(sym.EqBytes(full, before), "editing a copy does not change the original")
	kept := append([]byte{}, cp...)
	edit("f", list, ts, []int{0, 3, 4}[sym.IntRange("op2", 0, 2)], 3)
	sym.Assert(sym.EqBytes(cp, kept), "editing the original does not change a copy")
	sym.Reach("end")
}

// C06_big: long values.
func C06_big() {
	sizes := []int{254, 255, 256, 257, 65534, 65535}
	n, m := sizes[sym.IntRange("from", 0, 5)], sizes[sym.IntRange("to", 0, 5)]
	mk := func(n int, name string) []byte {
		b := make([]byte, n)
		b[0], b[n-1] = sym.Uint8(name+".first"), sym.Uint8(name+".last")
		return b
	}
	a, z := sym.Uint16("a"), sym.Uint16("z")
	sym.Assume(a != z)
	v, w := mk(n, "v"), mk(m, "w")
	ts := wpk.TagsetRaw{}.Put(a, v).Put(z, []byte{7})
	exp := encode([]ent{{a, v}, {z, []byte{7}}})
	sym.Assert(len(ts) == len(exp) && sym.EqBytes(ts, exp), "put of a long value")
	switch sym.IntRange("op", 0, 2) {
	case 0:
		ts, _ = ts.SetOk(a, w)
		exp = encode([]ent{{a, w}, {z, []byte{7}}})
	case 1:
		ts, _ = ts.SetOk(z, w)
		exp = encode([]ent{{a, v}, {z, w}})
	case 2:
		ts, _ = ts.DelOk(a)
		exp = encode([]ent{{z, []byte{7}}})
	}
	sym.Assert(len(ts) == len(exp) && sym.EqBytes(ts, exp), "edit of a long value")
	sym.Reach("end")
}

// C06_iter: an iterator refuses to edit.
func C06_iter() {
	_, ts := someTags("t", 1, 1, 8)
	before := append([]byte{}, ts[:cap(ts)]...)
	it := ts.Iterator()
	tsi := &it
	tsi.Next()
	id, v := sym.Uint16("id"), sym.Bytes("v", 2)
	op := sym.IntRange("op", 0, 6)
	p := sym.Try(func() {
		switch op {
		case 0:
			tsi.Put(id, v)
		case 1:
			tsi.Add(id, v)
		case 2:
			tsi.AddOk(id, v)
		case 3:
			tsi.Set(id, v)
		case 4:
			tsi.SetOk(id, v)
		case 5:
			tsi.Del(id)
		case 6:
			tsi.DelOk(id)
		}
	})
	sym.Assert(p == wpk.ErrTsiConst, "an iterator refuses edits")
	sym.Assert(sym.EqBytes(ts[:cap(ts)], before), "an iterator edits nothing")
	sym.Reach("end")
}
