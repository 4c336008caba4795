package core

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

// body is content of n bytes with up to three symbolic ones.
func body(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>8)
	}
	if n > 0 {
		d[0] = sym.Uint8("first")
		d[n/2] = sym.Uint8("middle")
		d[n-1] = sym.Uint8("last")
	}
	return d
}

func sizeOf(name string, sizes ...int) int {
	return sizes[sym.IntRange(name, 0, len(sizes)-1)]
}

// C14_during: changes of a map of many entries inside of a range.
func C14_during() {
	var m util.SeqMap[string, int]
	m.Init(0)
	r := new(refMap)
	n := sizeOf("n", 2, 9, 33, 64, 65, 129, 300)
	val := int(sym.Uint8("value"))
	for i := 0; i < n; i++ {
		r.do(&m, 0, string(rune('A'+i)), i+val)
	}
	was := append([]kv{}, r.list...)
	at := []int{0, 1, n / 2, n - 1}[sym.IntRange("at", 0, 3)]
	how := sym.IntRange("how", 0, 7)
	i := 0
	m.Range(func(k string, v int) bool {
		sym.Assert(i < n, "every entry is visited once")
		if i >= n {
			return false
		}
		sym.Assert(k == was[i].k && v == was[i].v, "entries are visited in order, as they were")
		switch {
		case how == 0: // each entry at its visit
			r.do(&m, 3, k, 0)
		case how == 1: // the last one at each visit
			r.do(&m, 2, "", 0)
		case how == 2: // the first one at some visits
			if i%3 == 0 {
				r.do(&m, 3, r.list[0].k, 0)
			}
		case how == 3: // one more at each visit
			r.do(&m, 1, string(rune('a'+1000+i)), i)
		case how == 4: // a new value for the next one at each visit
			r.do(&m, 0, was[(i+1)%n].k, -i)
		case i != at:
		case how == 5: // all at once
			for len(r.list) > 0 {
				r.do(&m, 3, r.list[len(r.list)/2].k, 0)
			}
		case how == 6: // all moved to other places
			for j := 0; j < n; j++ {
				r.do(&m, 3, was[j].k, 0)
				r.do(&m, 1, was[n-1-j].k, j)
			}
		case how == 7: // another range
			k := 0
			m.Range(func(string, int) bool { k++; return k < at })
			sym.Assert(k == max(1, at), "a range inside of other one stops when told")
		}
		i++
		return true
	})
	sym.Assert(i == n, "every entry is visited once")
	r.check(&m)
	sym.Reach("end")
}

// supply is a source of data that is delivered in pieces.
type supply struct {
	Frag
	idle bool // every other call gives nothing
	n    int
}

func (s *supply) Read(p []byte) (int, error) {
	if s.n++; s.idle && s.n%2 == 1 {
		return 0, nil
	}
	return s.Frag.Read(p)
}

// asFile is a source that can be packed as a file.
type asFile struct {
	io.Reader
	info *memInfo
}

func (f asFile) Stat() (fs.FileInfo, error) { return f.info, nil }
func (f asFile) Close() error               { return nil }

// C09_source: sources that deliver data in different ways.
func C09_source() {
	n := sizeOf("size", 0, 1, 2, 7, 511, 512, 513, 4096, 4097, 32768, 32769, 70000)
	d := body(n)
	var r io.Reader
	switch sym.IntRange("source", 0, 5) {
	case 0:
		s := &supply{Frag: Frag{B: d, Max: sizeOf("piece", 0, 1, 5, 512, 4096, 32768), EOFData: sym.Bool("eofdata")}, idle: sym.Bool("idle")}
		sym.Assume(s.Max != 1 || n < 100)
		sym.Assume(s.Max != 5 || n < 1000)
		sym.Assume(s.Max != 512 || n < 40000)
		r = s
	case 1:
		r = bytes.NewReader(d)
	case 2: // a part of a larger one
		r = &io.LimitedReader{R: bytes.NewReader(append(append([]byte{}, d...), "more"...)), N: int64(n)}
	case 3: // the rest of a larger one
		b := bytes.NewReader(append([]byte("before"), d...))
		b.Seek(6, io.SeekStart)
		r = b
	case 4:
		s := io.NewSectionReader(bytes.NewReader(append(append([]byte("before"), d...), "more"...)), 6, int64(n))
		r = s
	case 5: // two pieces
		r = io.MultiReader(bytes.NewReader(d[:n/2]), &Frag{B: d[n/2:], EOFData: true})
	}
	m := newMem()
	pkg := wpk.NewPackage()
	must(pkg.Begin(m, nil), "package is begun")
	pack := func(name string, r io.Reader) {
		_, err := pkg.PackData(m, r, name)
		must(err, "file is packed")
	}
	pack("x", strings.NewReader("one"))
	if sym.Bool("file") {
		_, err := pkg.PackFile(m, asFile{r, &memInfo{size: int64(sym.Uint16("info"))}}, "f")
		must(err, "file is packed")
	} else {
		pack("f", r)
	}
	pack("y", strings.NewReader("two"))
	must(pkg.Sync(m, nil), "package is finalised")

	got := wpk.NewPackage()
	must(got.OpenStream(m), "package is opened")
	sym.Assert(got.TagsetNum() == 3, "exactly the files that were packed")
	for _, f := range []struct {
		name string
		data []byte
	}{{"x", []byte("one")}, {"f", d}, {"y", []byte("two")}} {
		ts, ok := got.GetTagset(f.name)
		sym.Assert(ok, "file is there")
		off, size := ts.Pos()
		sym.Assert(size == uint(len(f.data)), "size is that of the data")
		if size == uint(len(f.data)) {
			sym.Assert(sym.EqBytes(m.B[off:off+size], f.data), "content is the data of the source")
		}
	}
	sym.Reach("end")
}

// C07_sizes: tables of sizes about powers of two and multiples of usual blocks.
func C07_sizes() {
	size := sizeOf("block", 64, 128, 256, 512, 1000, 1024, 3072, 4096, 5120, 8192, 12288, 16384, 32768, 49152, 65536, 98304, 131072)
	size += sym.IntRange("more", -2, 2)
	src := table(64, 10)
	pkg := &wpk.Package{FTT: src, Workspace: "."}
	left := size - 4 // lengths of info and of the end
	var info wpk.TagsetRaw
	if sym.Bool("info") {
		info = wpk.TagsetRaw{110, 0, 1, 0, sym.Uint8("label")}
		src.SetInfo(info)
		left -= len(info)
	}
	var want []file
	for i := 0; left > 0; i++ {
		ts := wpk.TagsetRaw{1, 0, 1, 0, 64, 2, 0, 1, 0, 0, 3, 0, 1, 0, 'a' + byte(i)}
		n := left - len(ts) - 6 // of the further tag
		if n > 60000 {
			n = 30000
		}
		b := make([]byte, n)
		b[0], b[n-1] = sym.Uint8("first"), sym.Uint8("last")
		ts = append(append(ts, 200, 1, byte(n), byte(n>>8)), b...)
		left -= len(ts) + 2
		pkg.SetTagset(string([]byte{'a' + byte(i)}), ts)
		want = append(want, file{string([]byte{'a' + byte(i)}), ts})
	}
	sym.Assert(left == 0, "table is of the size")
	roundtrip(src, 64, 10, info, want)
	sym.Reach("end")
}

// C19_slow: larger files in pieces, that end where they have to or not.
func C19_slow() {
	n := sizeOf("size", 100, 511, 512, 513, 4095, 4096, 4097, 5000, 32768, 33000, 65536, 70000)
	opened := 0
	d := body(n)
	t := &slow{b: d, max: []int{0, 7, 500, 4096, n / 2, n - 1}[sym.IntRange("max", 0, 5)], eofd: sym.Bool("eofdata"), bad: -1, open: &opened}
	sym.Assume(t.max != 7 || n < 600)
	sym.Assume(t.max != 500 || n < 6000)
	bad := sym.IntRange("bad", 0, 4)
	if bad > 0 {
		t.bad = []int{0, n - 1, n / 2, min(4096, n-1)}[bad-1]
		t.err = errIO
		if sym.Bool("early") {
			t.err = io.EOF
		}
	}
	pkg := wpk.NewPackage()
	pkg.Tagger = t
	pkg.SetTagset("d/x", pkg.BaseTagset(64, uint(n), "d/x"))
	u, name := someFS(pkg), "d/x"
	if sym.Bool("view") {
		s, err := u.(fs.SubFS).Sub("d")
		must(err, "view is there")
		u, name = s.(readFS), "x"
	}
	b, err := u.ReadFile(name)
	if bad == 0 {
		sym.Assert(err == nil, "a file is read without an error")
		sym.Assert(len(b) == n, "all of it is read")
		sym.Assert(sym.EqBytes(b, d), "content")
		sym.Reach("whole")
	} else {
		sym.Assert(err != nil && len(b) == 0, "a file that is not read completely is an error")
		if t.err == errIO {
			sym.Assert(errors.Is(err, errIO), "the reason is reported")
		}
		sym.Reach("failed")
	}
	sym.Assert(opened == 0, "the file is closed again")
}

// shortMem transfers a part of one write without an error.
type shortMem struct {
	Mem
	at, part int // write of data, and bytes that are transferred of it
	n        int
}

func (m *shortMem) Write(p []byte) (int, error) {
	if m.n++; m.n == m.at {
		p = p[:min(m.part, len(p)-1)]
		m.Hit = true
	}
	return m.Mem.Write(p)
}

// C21_short: a write of data that comes up short without an error.
func C21_short() {
	n := sizeOf("size", 1, 2, 5, 600, 5000, 33000, 70000)
	m := &shortMem{Mem: *newMem()}
	pkg := wpk.NewPackage()
	must(pkg.Begin(m, nil), "package is begun")
	_, err := pkg.PackData(m, strings.NewReader("one"), "x")
	must(err, "file is packed")
	d := body(n)
	var r io.Reader = bytes.NewReader(d)
	if sym.Bool("pieces") {
		r = &Frag{B: d, Max: max(1, n/3)}
	}
	m.n, m.at, m.part = 0, sym.IntRange("at", 1, 4), sizeOf("part", 0, 1, 4, 4096, 30000)
	if sym.Bool("file") {
		_, err = pkg.PackFile(m, asFile{r, &memInfo{}}, "f")
	} else {
		_, err = pkg.PackData(m, r, "f")
	}
	m.at = 0
	sym.Assert((err != nil) == m.Hit, "a write that comes up short is reported")
	sym.Assert(pkg.HasTagset("f") == !m.Hit, "a file whose packing failed is not in the package")
	_, err = pkg.PackData(m, strings.NewReader("two"), "y")
	must(err, "file is packed")
	must(pkg.Sync(m, nil), "package is finalised")
	got := wpk.NewPackage()
	must(got.OpenStream(m), "package is opened")
	for name, data := range map[string]string{"x": "one", "y": "two"} {
		ts, ok := got.GetTagset(name)
		sym.Assert(ok, "file is there")
		off, size := ts.Pos()
		sym.Assert(string(m.B[off:off+size]) == data, "files before and after are correct")
	}
	sym.Assert(got.HasTagset("f") == !m.Hit, "a file whose packing failed is not in the package")
	if m.Hit {
		sym.Reach("short")
	} else {
		sym.Reach("whole")
	}
}

// broken is a package of a union that cannot be opened or read.
type broken struct {
	wpk.Tagger
	how int // 0 - files do not open, 1 - they do not read, 2 - they end early
}

func (b broken) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	switch b.how {
	case 0:
		return nil, errIO
	case 1:
		return deaf{ts, errIO}, nil
	}
	return deaf{ts, io.EOF}, nil
}

// deaf is a file that gives nothing but the error.
type deaf struct {
	ts  wpk.TagsetRaw
	err error
}

func (f deaf) Read([]byte) (int, error)             { return 0, f.err }
func (f deaf) ReadAt([]byte, int64) (int, error)    { return 0, f.err }
func (f deaf) Seek(off int64, _ int) (int64, error) { return off, nil }
func (f deaf) Stat() (fs.FileInfo, error)           { return f.ts, nil }
func (f deaf) Close() error                         { return nil }
func (f deaf) Size() int64                          { return 0 }

// C17_broken: a package of a union whose files cannot be read.
func C17_broken() {
	closed := 0
	list := layers()
	for i := range list {
		if list[i].view != "" {
			sym.Assume(false)
		}
	}
	u := union(list, &closed)
	bad := sym.IntRange("bad", 0, len(list)-1)
	how := sym.IntRange("how", 0, 2)
	u.List[bad].Tagger = broken{u.List[bad].Tagger, how}
	names := merged(list)
	k := sym.IntRange("name", 0, 3)
	sym.Assume(k < len(names))
	name := names[k]
	i, at := firstOf(list, name)
	b, err := u.ReadFile(name)
	if i == bad {
		sym.Assert(err != nil && len(b) == 0, "a file of the first package that has it is not replaced")
		sym.Assert(how == 2 || errors.Is(err, errIO), "the reason is reported")
		sym.Assert(!errors.Is(err, fs.ErrNotExist), "the file is there")
		sym.Reach("bad")
	} else {
		sym.Assert(err == nil && len(b) == 2 && b[0] == byte(i) && b[1] == byte(70+at), "the file of the first package that has it")
		sym.Reach("good")
	}
	f, err := u.Open(name)
	if i == bad && how == 0 {
		sym.Assert(errors.Is(err, errIO), "a file of the first package that has it is not replaced")
		return
	}
	must(err, "file is opened")
	b, err = io.ReadAll(f)
	if i == bad {
		sym.Assert(len(b) == 0 && (err == nil) == (how == 2), "a file of the first package that has it is not replaced")
	} else {
		sym.Assert(err == nil && len(b) == 2 && b[0] == byte(i) && b[1] == byte(70+at), "the file of the first package that has it")
	}
	fi, err := u.Stat(name)
	sym.Assert(err == nil && !fi.IsDir(), "info of a file")
}
