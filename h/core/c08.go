package core

import (
	"bytes"
	"errors"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// checkOpened demands what an opened package promises.
func checkOpened(b []byte, pkg *wpk.Package, err error) {
	if err != nil {
		sym.Reach("refused")
		return
	}
	datoff, datsize := le(b[48:56]), le(b[56:64])
	var names []string
	n := 0
	pkg.Enum(func(name string, ts wpk.TagsetRaw) bool {
		n++
		p, ok := ts.TagStr(wpk.TIDpath)
		sym.Assert(ok, "every file has a name")
		sym.Assert(name == strings.ReplaceAll(p, "\\", "/"), "a file is found under its name")
		for _, o := range names {
			sym.Assert(o != name, "no two files share a name")
		}
		names = append(names, name)
		off, ok := ts.TagUint(wpk.TIDoffset)
		sym.Assert(ok, "every file has an offset")
		size, ok := ts.TagUint(wpk.TIDsize)
		sym.Assert(ok, "every file has a size")
		sym.Assert(uint64(off) >= datoff, "a file starts inside the data area")
		rel := uint64(off) - datoff
		sym.Assert(rel <= datsize, "a file starts before the end of the data area")
		sym.Assert(uint64(size) <= datsize-rel, "a file ends inside the data area")
		o, s := ts.Pos()
		sym.Assert(o == off && s == size, "the position used for reading is the checked one")
		_, whole := walk(ts)
		sym.Assert(whole, "tags of a file are complete")
		return true
	})
	sym.Assert(n == pkg.TagsetNum(), "number of files")
	_, whole := walk(pkg.GetInfo())
	sym.Assert(whole, "tags of the package are complete")
	sym.Observe("files", n)
	sym.Reach("opened")
	if n > 0 {
		sym.Reach("file")
	}
	if n > 1 {
		sym.Reach("two")
	}
}

func c08open(b []byte) {
	sym.AllocLimit(1<<16 + 1<<12)
	sym.StepLimit(200000)
	pkg := wpk.NewPackage()
	err := pkg.OpenStream(bytes.NewReader(b))
	sym.Observe("err", err)
	checkOpened(b, pkg, err)
}

// C08_header: every header over a small table.
func C08_header() {
	t := sym.IntRange("table", 0, 3)
	b := append([]byte{}, sym.Bytes("hdr", wpk.HeaderSize)...)
	sym.Assume(le(b[32:40]) >= wpk.HeaderSize) // a table inside the header: C08_inside
	switch t {
	case 1:
		b = append(b, sym.Bytes("rest", 5)...)
	case 2:
		b = buildTable(b, 64)
	case 3:
		b = append(b, 0, 0, 0, 0)
	}
	c08open(b)
}

// C08_inside: a header whose table lies in the header itself.
func C08_inside() {
	b := append([]byte{}, sym.Bytes("hdr", wpk.HeaderSize)...)
	n := 7
	if sym.Tier() > 0 {
		n = 12
	}
	sym.Assume(sym.And(le(b[32:40]) < wpk.HeaderSize, le(b[40:48]) <= uint64(n)))
	c08open(b)
}

func c08file(n int) []byte {
	b := make([]byte, wpk.HeaderSize, wpk.HeaderSize+n)
	copy(b, wpk.SignReady)
	copy(b[24:32], sym.Bytes("count", 8))
	put(b[32:40], 64)
	put(b[40:48], uint64(n))
	copy(b[48:64], sym.Bytes("data", 16))
	return b
}

// C08_table: an arbitrary table.
func C08_table() {
	max := 12
	if sym.Tier() > 0 {
		max = 17
	}
	n := sym.IntRange("n", 0, max)
	b := append(c08file(n), sym.Bytes("table", n)...)
	c08open(b)
}

// C08_entry: an arbitrary tag set of one file.
func C08_entry() {
	var t []byte
	if sym.Tier() > 0 && sym.Bool("whole") {
		n := sym.IntRange("n", 14, 16)
		t = append([]byte{0, 0, byte(n), 0}, sym.Bytes("tags", n)...)
	} else {
		max := 10
		if sym.Tier() > 0 {
			max = 14
		}
		n := sym.IntRange("n", 9, max)
		t = append([]byte{0, 0, byte(n + 5), 0, 3, 0, 1, 0, 'a'}, sym.Bytes("tags", n)...)
	}
	t = append(t, 0, 0)
	c08open(append(c08file(len(t)), t...))
}

// lens assumes that the first k lengths in a table are less than 16 or 65535.
func lens(t []byte, k int) {
	for ; k > 0 && len(t) >= 2; k-- {
		l := le(t[:2])
		sym.Assume(sym.Or(l < 16, l == 65535))
		n := 2 + int(l)
		if n > len(t) {
			return
		}
		t = t[n:]
	}
}

// C08_stream: an arbitrary table read from a stream.
func C08_stream() {
	sym.AllocLimit(1<<16 + 1<<12)
	sym.StepLimit(200000)
	var t []byte
	if sym.Bool("entry") {
		n := 10
		if sym.Tier() > 0 {
			n = sym.IntRange("n", 9, 12)
		}
		t = append([]byte{0, 0, byte(n + 5), 0, 3, 0, 1, 0, 'a'}, sym.Bytes("tags", n)...)
		t = append(t, 0, 0)
	} else {
		max := 8
		if sym.Tier() > 0 {
			max = 13
		}
		t = sym.Bytes("table", sym.IntRange("n", 0, max))
		lens(t, 2)
	}
	n := len(t)
	hb := c08file(n)
	copy(hb[24:32], []byte{1, 0, 0, 0, 0, 0, 0, 0})
	var hdr wpk.Header
	hdr.Parse(hb)
	pkg := wpk.NewPackage()
	pkg.FTT.Init(&hdr)
	m, err := pkg.FTT.ReadFrom(bytes.NewReader(t))
	sym.Observe("err", err)
	sym.Assert(m >= 0 && m <= int64(n), "no more is counted than there is")
	checkOpened(hb, pkg, err)
}

// rec is a tag set with an offset, a size and a name in an order of choice.
func rec(name string, olen, slen, plen, order int) []byte {
	tag := func(id byte, v []byte) []byte { return append([]byte{id, 0, byte(len(v)), 0}, v...) }
	o := tag(1, sym.Bytes(name+".off", olen))
	s := tag(2, sym.Bytes(name+".size", slen))
	p := tag(3, sym.Bytes(name+".name", plen))
	switch order {
	case 1:
		o, p = p, o
	case 2:
		s, p = p, s
	}
	return append(append(append([]byte{}, o...), s...), p...)
}

// C08_two: two files of any names, offsets and sizes.
func C08_two() {
	lens := []int{8, 4, 1}
	var t []byte
	t = append(t, 0, 0)
	for i := 0; i < 2; i++ {
		nm := string(rune('a' + i))
		l := 0
		if i == 0 || sym.Tier() > 0 {
			l = sym.IntRange(nm+".w", 0, 2)
		}
		r := rec(nm, lens[l], lens[l], sym.IntRange(nm+".nlen", 0, 2), 0)
		t = append(t, byte(len(r)), 0)
		t = append(t, r...)
	}
	t = append(t, 0, 0)
	c08open(append(c08file(len(t)), t...))
}

// C08_repeat: a file with a repeated tag.
func C08_repeat() {
	var t []byte
	t = append(t, 0, 0)
	l, order := 4, 0
	if sym.Tier() > 0 {
		l = []int{1, 4, 8}[sym.IntRange("width", 0, 2)]
		order = sym.IntRange("order", 0, 2)
	}
	r := rec("a", l, l, 1, order)
	id := sym.Uint8("extra.id")
	sym.Assume(id >= 1 && id <= 3)
	n := []int{0, 1, 8}[sym.IntRange("extra.len", 0, 2)]
	x := append([]byte{id, 0, byte(n), 0}, sym.Bytes("extra.val", n)...)
	if sym.Bool("before") {
		r = append(x, r...)
	} else {
		r = append(r, x...)
	}
	t = append(t, byte(len(r)), 0)
	t = append(t, r...)
	t = append(t, 0, 0)
	c08open(append(c08file(len(t)), t...))
}

// C08_cut: a sound package cut anywhere or with any one byte changed.
func C08_cut() {
	b := make([]byte, wpk.HeaderSize)
	copy(b, wpk.SignReady)
	put(b[24:32], 2)
	put(b[48:56], 64)
	put(b[56:64], 6)
	b = append(b, "abcdef"...)
	put(b[32:40], uint64(len(b)))
	at := len(b)
	b = append(b, 5, 0, 9, 0, 1, 0, 'i')
	b = append(b, 16, 0, 1, 0, 1, 0, 64, 2, 0, 1, 0, 4, 3, 0, 2, 0, 'd', '/')
	b = append(b, 15, 0, 1, 0, 1, 0, 68, 2, 0, 1, 0, 2, 3, 0, 1, 0, 'x')
	b = append(b, 0, 0)
	put(b[40:48], uint64(len(b)-at))
	if sym.Bool("cut") {
		c08open(b[:sym.IntRange("len", 0, len(b)-1)])
		return
	}
	i := sym.IntRange("at", 24, len(b)-1)
	b[i] = sym.Uint8("byte")
	c08open(b)
}

// C08_info: the short form of opening.
func C08_info() {
	sym.AllocLimit(1<<16 + 1<<12)
	sym.StepLimit(200000)
	b := append([]byte{}, sym.Bytes("hdr", wpk.HeaderSize)...)
	max := 7
	if sym.Tier() > 0 {
		max = 12
	}
	if sym.Bool("inside") {
		sym.Assume(sym.And(le(b[32:40]) < wpk.HeaderSize, le(b[32:40]) >= wpk.HeaderSize-8))
	} else {
		sym.Assume(le(b[32:40]) >= wpk.HeaderSize)
	}
	b = append(b, sym.Bytes("rest", sym.IntRange("n", 0, max))...)
	if at := le(b[32:40]); at <= uint64(len(b)) {
		lens(b[at:], 1)
	}
	if sym.Bool("cut") {
		b = b[:sym.IntRange("len", 0, wpk.HeaderSize-1)]
	}
	_, ts, err := wpk.GetPackageInfo(bytes.NewReader(b))
	sym.Observe("err", err)
	if err == nil {
		_, whole := walk(ts)
		sym.Assert(whole, "tags of the package are complete")
		sym.Reach("opened")
	} else {
		sym.Assert(!errors.Is(err, errIO), "own errors")
		sym.Reach("refused")
	}
}
