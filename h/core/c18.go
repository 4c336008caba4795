package core

import (
	"io"
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// three is a package of three files on disk, and what they hold.
func three(p at, mid int) (data [3][]byte) {
	w := begin(p)
	for i, name := range []string{"a", "b", "c"} {
		n := 2
		if i == 1 {
			n = mid
		}
		data[i] = sym.Bytes(name, n)
		w.pack(name, data[i])
	}
	w.sync()
	w.close()
	return
}

// C18_reader: any operations on an opened file.
func C18_reader() {
	p := place(sym.Bool("split"))
	which := sym.IntRange("file", 0, 2)
	size := 3
	if which == 1 {
		size = sym.IntRange("size", 0, 2+sym.Tier())
	}
	data := three(p, size)[which]
	pkg := open(p, sym.IntRange("opener", 0, 2))
	name := string(rune('a' + which))
	f, err := pkg.Open(name)
	must(err, "file opens")
	r, ok := f.(wpk.RFile)
	sym.Assert(ok, "file can be read at an offset and positioned")
	pos := int64(0)
	end := int64(len(data))
	max := 3 + 2*sym.Tier()
	for i := 0; i < 2+sym.Tier(); i++ {
		s := string(rune('0' + i))
		switch sym.IntRange("op"+s, 0, 2) {
		case 0:
			b := make([]byte, sym.IntRange("n"+s, 0, max))
			n, err := r.Read(b)
			if pos >= end {
				sym.Assert(n == 0 && err == io.EOF || len(b) == 0 && n == 0, "end of file at the end")
				continue
			}
			want := int64(len(b))
			if want > end-pos {
				want = end - pos
			}
			sym.Assert(n >= 0 && int64(n) <= want && (n > 0 || want == 0), "read gives no more than there is")
			sym.Assert(int64(n) == want, "read gives all that is there")
			sym.Assert(err == nil || err == io.EOF && pos+int64(n) == end, "read succeeds")
			sym.Assert(sym.EqBytes(b[:n], data[pos:pos+int64(n)]), "read gives the content")
			pos += int64(n)
		case 1:
			b := make([]byte, sym.IntRange("n"+s, 0, max))
			off := sym.Int64("off" + s)
			n, err := r.ReadAt(b, off)
			if off < 0 || off >= end {
				sym.Assert(n == 0 && err != nil, "read at an offset outside is an error")
				continue
			}
			want := int64(len(b))
			if want > end-off {
				want = end - off
			}
			sym.Assert(int64(n) == want, "read at an offset gives all that is there")
			sym.Assert(want == int64(len(b)) || err == io.EOF, "read at an offset that is cut is an end of file")
			sym.Assert(err == nil || err == io.EOF && off+want == end, "read at an offset succeeds")
			sym.Assert(sym.EqBytes(b[:n], data[off:off+want]), "read at an offset gives the content")
		case 2:
			off := sym.Int64("off" + s)
			sym.Assume(off >= -1<<60 && off <= 1<<60)
			wh := sym.IntRange("whence"+s, 0, 3)
			np := off
			switch wh {
			case io.SeekCurrent:
				np += pos
			case io.SeekEnd:
				np += end
			}
			at, err := r.Seek(off, wh)
			if wh == 3 || np < 0 {
				sym.Assert(err != nil, "a bad seek is an error")
				continue
			}
			sym.Assert(err == nil && at == np, "seek gives the position")
			pos = np
		}
	}
	fi, err := f.Stat()
	sym.Assert(err == nil && fi.Size() == end && fi.Name() == name && !fi.IsDir(), "info of an opened file")
	must(f.Close(), "file is closed")
	sym.Reach("end")
}

// C18_twice: files opened at the same time do not disturb each other.
func C18_twice() {
	p := place(sym.Bool("split"))
	data := three(p, sym.IntRange("size", 0, 3))
	pkg := open(p, sym.IntRange("opener", 0, 2))
	i, k := sym.IntRange("first", 0, 2), sym.IntRange("second", 0, 2)
	f1, err := pkg.Open(string(rune('a' + i)))
	must(err, "file opens")
	b := make([]byte, 1)
	n1, _ := f1.Read(b)
	f2, err := pkg.Open(string(rune('a' + k)))
	must(err, "second file opens")
	if sym.Bool("late") {
		must(f1.Close(), "first file is closed")
	} else {
		rest, err := io.ReadAll(f1)
		sym.Assert(err == nil && sym.EqBytes(append(b[:n1:n1], rest...), data[i]), "first file has its content")
		must(f1.Close(), "first file is closed")
	}
	all, err := io.ReadAll(f2)
	sym.Assert(err == nil && sym.EqBytes(all, data[k]), "second file has its content")
	must(f2.Close(), "second file is closed")
	again := content(pkg, string(rune('a'+i)))
	sym.Assert(sym.EqBytes(again, data[i]), "a file opens again")
	must(pkg.Tagger.Close(), "opener is closed")
	sym.Reach("end")
}

// C18_bounds: any recorded position.
func C18_bounds() {
	p := place(sym.Bool("split"))
	three(p, 3)
	opener := sym.IntRange("opener", 0, 2)
	pkg := open(p, opener)
	total := len(readAll(p.data))
	off, size := sym.Uint64("off"), sym.Uint64("size")
	ts := wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.Uint64Tag(off)).Put(wpk.TIDsize, wpk.Uint64Tag(size)).Put(wpk.TIDpath, wpk.StrTag("x"))
	if sym.Tier() == 0 {
		n := uint64(total)
		sym.Assume(sym.Or(sym.Or(off > n, size > n-off), sym.Or(sym.Or(off >= n-6, size == n-off), sym.And(off <= 1, size <= 2))))
	}
	f, err := pkg.Tagger.OpenTagset(ts)
	if off > uint64(total) || size > uint64(total)-off {
		sym.Assert(err != nil, "a position outside is an error")
		sym.Reach("outside")
		return
	}
	must(err, "a position inside opens")
	b, err := io.ReadAll(f)
	must(err, "file is read")
	sym.Assert(uint64(len(b)) == size, "size of the view")
	sym.Assert(sym.EqBytes(b, readAll(p.data)[off:off+size]), "content of the view")
	must(f.Close(), "file is closed")
	sym.Reach("inside")
}

// C18_big: files behind and across pages.
func C18_big() {
	p := place(sym.Bool("split"))
	w := begin(p)
	sizes := []int{1, 4095, 4096, 65471, 65472, 65473, 65535, 65536, 65537, 131072, 1<<20 + 1}
	n1 := sizes[sym.IntRange("before", 0, len(sizes)-1)]
	n2 := sizes[sym.IntRange("size", 0, len(sizes)-1)]
	d := make([]byte, n2)
	d[0], d[n2-1] = sym.Uint8("first"), sym.Uint8("last")
	fill := make([]byte, n1)
	fill[n1-1] = 0xaa
	w.pack("before", fill)
	w.pack("file", d)
	w.pack("behind", []byte{0xbb, 0xbb})
	w.sync()
	w.close()
	pkg := open(p, sym.IntRange("opener", 0, 2))
	f, err := pkg.Open("file")
	must(err, "file opens")
	r := f.(wpk.RFile)
	b := make([]byte, 4)
	n, err := r.ReadAt(b, int64(n2-1))
	sym.Assert(n == 1 && err == io.EOF && b[0] == d[n2-1], "last byte")
	n, err = r.ReadAt(b[:1], 0)
	sym.Assert(n == 1 && (err == nil || n2 == 1) && b[0] == d[0], "first byte")
	end, err := r.Seek(0, io.SeekEnd)
	sym.Assert(err == nil && end == int64(n2), "size")
	must(f.Close(), "file is closed")
	sym.Assert(sym.EqBytes(content(pkg, "behind"), []byte{0xbb, 0xbb}), "next file")
	sym.Reach("end")
}

// C18_missing: openers of what is not there.
func C18_missing() {
	opener := sym.IntRange("opener", 0, 2)
	t, err := tagger(opener, sym.Root()+"/none.wpk")
	if err == nil {
		_, err = t.OpenTagset(wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(0)).Put(wpk.TIDsize, wpk.UintTag(1)))
	}
	sym.Assert(err != nil, "a package that is not there is an error")
	sym.Reach("end")
}

// C18_far: files in a package of many gigabytes.
func C18_far() {
	name := sym.Root() + "/far.wpf"
	hole := []int64{1 << 24, 1<<31 - 2, 1 << 31, 1<<32 - 70000, 1 << 32, 5<<30 + 65535, 1<<40 + 12345}[sym.IntRange("hole", 0, 6)]
	f, err := os.Create(name)
	must(err, "file is made")
	must(f.Truncate(hole), "space is made")
	data := sym.Bytes("data", 3)
	_, err = f.Seek(0, io.SeekEnd)
	must(err, "end of space")
	_, err = f.Write(append(append([]byte{0xaa}, data...), 0xbb))
	must(err, "data is written")
	must(f.Close(), "file is closed")
	opener := sym.IntRange("opener", 1, 2)
	tgr, err := tagger(opener, name)
	must(err, "package opens")
	lead := int64(0) // zeros at the beginning of file
	if sym.Bool("large") {
		sym.Assume(opener == 2)
		lead = []int64{100, 70000, hole}[sym.IntRange("lead", 0, 2)]
	}
	off, size := hole+1-lead, lead+3
	if lead > 0 {
		off, size = off-1, size+1 // with 0xaa
	}
	ts := wpk.NewPackage().BaseTagset(uint(off), uint(size), "a")
	gotoff, gotsize := ts.Pos()
	sym.Assert(gotoff == uint(off) && gotsize == uint(size) && ts.Size() == size, "extent is kept")
	r, err := tgr.OpenTagset(ts)
	must(err, "file opens")
	fi, err := r.Stat()
	sym.Assert(err == nil && fi.Size() == size, "size")
	b := make([]byte, 5)
	n, err := r.ReadAt(b, size-3)
	sym.Assert(n == 3 && err == io.EOF && sym.EqBytes(b[:n], data), "last bytes")
	end, err := r.Seek(-2, io.SeekEnd)
	sym.Assert(err == nil && end == size-2, "position")
	n, err = io.ReadFull(r, b)
	sym.Assert(n == 2 && err == io.ErrUnexpectedEOF && sym.EqBytes(b[:n], data[1:]), "rest of the file")
	if lead > 0 {
		n, err = r.ReadAt(b[:2], 0)
		sym.Assert(n == 2 && err == nil && b[0] == 0 && b[1] == 0, "first bytes")
	}
	must(r.Close(), "file is closed")
	must(tgr.Close(), "package is closed")
	sym.Reach("end")
}
