package core

import (
	"bytes"
	"errors"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// table is an empty table over a data area of the given place.
func table(off, size uint64) *wpk.FTT {
	b := make([]byte, wpk.HeaderSize)
	put(b[48:56], off)
	put(b[56:64], size)
	var h wpk.Header
	h.Parse(b)
	ftt := new(wpk.FTT)
	ftt.Init(&h)
	return ftt
}

// file is a file of a table.
type file struct {
	name string
	ts   wpk.TagsetRaw
}

// files lists what a table holds, in order.
func files(ftt *wpk.FTT) (list []file) {
	pkg := &wpk.Package{FTT: ftt, Workspace: "."}
	pkg.Enum(func(name string, ts wpk.TagsetRaw) bool {
		list = append(list, file{name, ts})
		return true
	})
	return
}

// sameTable demands that a table holds the given info and files.
func sameTable(ftt *wpk.FTT, info wpk.TagsetRaw, want []file, what string) {
	sym.Assert(sym.EqBytes(ftt.GetInfo(), info), what+": package info")
	got := files(ftt)
	sym.Assert(len(got) == len(want) && ftt.TagsetNum() == len(want), what+": number of files")
	for i := range want {
		if i < len(got) {
			sym.Assert(sym.EqStr(got[i].name, want[i].name), what+": names and their order")
			sym.Assert(sym.EqBytes(got[i].ts, want[i].ts), what+": tag sets")
		}
	}
}

// anyName is a name of symbolic bytes.
func anyName(what string, min, max int) string {
	b := sym.Bytes(what, sym.IntRange(what+".len", min, max))
	for _, c := range b {
		sym.Assume(c != '\\')
	}
	return string(b)
}

// roundtrip writes a table and reads it back in both ways.
func roundtrip(src *wpk.FTT, off, size uint64, info wpk.TagsetRaw, want []file) {
	var buf bytes.Buffer
	n, err := src.WriteTo(&buf)
	sym.Assert(err == nil, "table is written")
	total := 4 + len(info)
	for _, f := range want {
		total += 2 + len(f.ts)
	}
	sym.Assert(n == int64(buf.Len()), "writer reports the size of the table")
	sym.Assert(buf.Len() == total, "table has no more than its tag sets")
	sameTable(src, info, want, "written table")

	b := append([]byte{}, buf.Bytes()...)
	p := table(off, size)
	m, err := p.Parse(append(append([]byte{}, b...), 7, 7, 7))
	sym.Assert(err == nil, "table is parsed")
	sym.Assert(m == n, "parser reports the size of the table")
	sameTable(p, info, want, "parsed")

	p = table(off, size)
	r := &Frag{B: append(append([]byte{}, b...), 9, 9)}
	frag := 0
	if sym.Tier() > 0 || len(want) < 2 {
		frag = sym.IntRange("frag", 0, 3)
	} else {
		frag = sym.IntRange("frag", 0, 1)
	}
	switch frag {
	case 1:
		r.Max = 1
		if len(b) > 200 {
			r.Max = 255
		}
	case 2:
		r.B, r.EOFData = b, true
	case 3:
		if len(b) > 200 {
			r.Max = 4000
		} else {
			r.Cuts = []int64{int64(sym.IntRange("cut", 1, len(b)))}
		}
	}
	m, err = p.ReadFrom(r)
	sym.Assert(err == nil, "table is read")
	sym.Assert(m == n && r.Pos == n, "reader takes and reports the size of the table")
	sameTable(p, info, want, "read")
	sym.Reach("end")
}

// C07_table: a table of any files.
func C07_table() {
	off := sym.Uint64("datoffset")
	size := sym.Uint64("datsize")
	max := 2
	if sym.Tier() > 0 {
		max = 3
	}
	var info wpk.TagsetRaw
	if k := sym.IntRange("info", 0, 2); k > 0 {
		info = encode([]ent{{sym.Uint16("info.id"), sym.Bytes("info.val", k-1)}})
	}
	src := table(off, size)
	src.SetInfo(info)
	pkg := &wpk.Package{FTT: src, Workspace: "."}
	var want []file
	n := sym.IntRange("files", 0, max)
	for i := 0; i < n; i++ {
		nm := string(rune('a' + i))
		name := anyName(nm+".name", 0, 2)
		for _, f := range want {
			sym.Assume(!sym.EqStr(f.name, name))
		}
		o, s := sym.Uint64(nm+".off"), sym.Uint64(nm+".size")
		sym.Assume(o >= off)
		sym.Assume(o-off <= size)
		sym.Assume(s <= size-(o-off))
		ts := wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.Uint64Tag(o)).Put(wpk.TIDsize, wpk.Uint64Tag(s)).Put(wpk.TIDpath, wpk.StrTag(name))
		if i == 0 && sym.Bool("extra") {
			id := sym.Uint16("extra.id")
			sym.Assume(id > 3)
			ts = ts.Put(id, sym.Bytes("extra.val", sym.IntRange("extra.len", 0, 2)))
		}
		pkg.SetTagset(name, ts)
		want = append(want, file{name, ts})
	}
	roundtrip(src, off, size, info, want)
}

// C07_big: tag sets and info of sizes around the limits.
func C07_big() {
	lens := []int{255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 131072}
	n := lens[sym.IntRange("size", 0, len(lens)-1)]
	inInfo := sym.Bool("info")
	head := wpk.TagsetRaw{1, 0, 1, 0, 64, 2, 0, 1, 0, 0, 3, 0, 1, 0, 'a'}
	if inInfo {
		head = wpk.TagsetRaw{5, 0, 0, 0}
	}
	// the rest is filled with tags that are not too long
	ts := append(wpk.TagsetRaw{}, head...)
	for n-len(ts) > 0 {
		l := n - len(ts) - 4
		if l > 60000 {
			l = 30000
		}
		if l < 0 {
			l = 0
		}
		b := make([]byte, l)
		copy(b, sym.Bytes("first", 1))
		if l > 1 {
			b[l-1] = sym.Uint8("last")
		}
		ts = append(ts, 200, 1, byte(l), byte(l>>8))
		ts = append(ts, b...)
	}
	src := table(64, 10)
	small := append(wpk.TagsetRaw{}, 1, 0, 1, 0, 70, 2, 0, 1, 0, 4, 3, 0, 1, 0, 'b')
	pkg := &wpk.Package{FTT: src, Workspace: "."}
	var want []file
	var info wpk.TagsetRaw
	if inInfo {
		info = ts
		src.SetInfo(ts)
	} else {
		pkg.SetTagset("a", ts)
		want = append(want, file{"a", ts})
	}
	pkg.SetTagset("b", small)
	want = append(want, file{"b", small})
	if len(ts) > 65535 {
		var buf bytes.Buffer
		_, err := src.WriteTo(&buf)
		sym.Assert(errors.Is(err, wpk.ErrRangeTSSize), "a tag set that is too large is refused")
		sym.Reach("refused")
		return
	}
	roundtrip(src, 64, 10, info, want)
}
