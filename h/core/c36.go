package core

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/util"
)

// about demands that an error is of a kind and tells the name.
func about(err, kind error, name, what string) {
	sym.Assert(errors.Is(err, kind), what+": kind of error")
	for _, k := range []error{fs.ErrExist, fs.ErrNotExist, fs.ErrPermission, fs.ErrClosed, wpk.ErrNoPath, wpk.ErrSignBad, io.EOF} {
		sym.Assert(k == kind || !errors.Is(err, k), what+": error is of no other kind")
	}
	var pe *fs.PathError
	for e := err; e != nil; e = errors.Unwrap(e) {
		if p, ok := e.(*fs.PathError); ok {
			pe = p
		}
	}
	sym.Assert(pe != nil, what+": error has a path")
	path, name := slash(pe.Path), slash(name)
	at := len(path) - len(name)
	sym.Assert(at == 0 || at > 0 && path[at-1] == '/', what+": error has the path")
	sym.Assert(sym.EqStr(path[at:], name), what+": error tells the name that it is about")
}

// some36 is a package, a view of it or a union of both, and the prefix of its names in the package.
func some36() (fsys wpk.CompleteFS, list []layer) {
	closed := 0
	all := []layer{{names: []string{"a", "d/b", "d/e/c"}}, {names: []string{"d/b", "x/y"}}}
	switch sym.IntRange("fs", 0, 5) {
	case 0:
		all = all[:1]
		return union(all, &closed).List[0], all
	case 1:
		all = []layer{{names: all[0].names, view: "v/"}}
		return union(all, &closed).List[0], all
	case 2:
		return union(all, &closed), all
	case 3:
		all[1].view = "v/w/"
		return union(all, &closed), all
	case 4:
		s, err := union(all, &closed).Sub("d")
		must(err, "view of union")
		return s.(wpk.CompleteFS), []layer{{names: []string{"b", "e/c"}}, {names: []string{"b"}}}
	default:
		return union(nil, &closed), nil
	}
}

// C36_read: a name that is not there.
func C36_read() {
	f, list := some36()
	var name string
	if k := sym.IntRange("name", 0, 8); k < 5 {
		name = []string{"d/b/c", "e/d", "none", "d/e/c/", "d\\f"}[k]
	} else {
		name = cleanName("char", k-4)
	}
	sym.Assume(slash(name) != wpk.PackName)
	prefix := slash(name) + "/"
	file, dir := false, false
	for _, l := range list {
		for _, n := range l.names {
			file = file || n == slash(name)
			dir = dir || strings.HasPrefix(n, prefix)
		}
	}
	if !file && !dir {
		_, err := f.Open(name)
		about(err, fs.ErrNotExist, name, "open")
		_, err = f.Stat(name)
		about(err, fs.ErrNotExist, name, "stat")
		sym.Reach("none")
	}
	if !file {
		_, err := f.ReadFile(name)
		about(err, fs.ErrNotExist, name, "read file")
		sym.Reach("no file")
	}
	if !dir {
		_, err := f.Sub(name)
		about(err, fs.ErrNotExist, name, "sub")
		_, err = f.ReadDir(name)
		about(err, fs.ErrNotExist, name, "read dir")
		sym.Reach("no dir")
	}
	sym.Reach("end")
}

// C36_write: a name that is not there or is taken.
func C36_write() {
	full := wpk.NewPackage()
	w := newMem()
	must(full.Begin(w, nil), "package is begun")
	pkg := full
	if sym.Bool("view") {
		pkg = &wpk.Package{FTT: full.FTT, Workspace: "v"}
	}
	names := []string{"a", "d/b", "d/c", "e/c"}
	for _, n := range names {
		_, err := pkg.PackData(w, bytes.NewReader([]byte(n)), n)
		must(err, "file is packed")
	}
	name := func(what string) string {
		if k := sym.IntRange(what, 0, 5); k < 5 {
			return []string{"a", "d/b", "d\\c", "none", "d"}[k]
		}
		return cleanName(what+".c", 1+sym.Tier())
	}
	has := func(name string) (ok bool) {
		for _, n := range names {
			ok = ok || n == slash(name)
		}
		return
	}
	a, b := name("a"), name("b")
	var err error
	what := "rename"
	switch sym.IntRange("op", 0, 3) {
	case 0:
		err = pkg.Rename(a, b)
	case 1:
		what = "alias"
		err = pkg.PutAlias(a, b)
	case 2:
		what = "pack"
		a = "a"
		_, err = pkg.PackData(w, strings.NewReader("x"), b)
	case 3:
		_, err = pkg.RenameDir("d", "e", false)
		about(err, fs.ErrExist, "e/c", "rename dir")
		sym.Reach("dir")
		return
	}
	switch {
	case has(a) && has(b):
		about(err, fs.ErrExist, b, what)
		sym.Reach("exist")
	case !has(a) && !has(b):
		about(err, fs.ErrNotExist, a, what)
		sym.Reach("missing")
	case !has(a):
		sym.Assert(errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrExist), what+": kind of error")
		if errors.Is(err, fs.ErrNotExist) {
			about(err, fs.ErrNotExist, a, what)
		} else {
			about(err, fs.ErrExist, b, what)
		}
	default:
		must(err, what)
	}
	sym.Reach("end")
}

// C36_entry: an entry of the table that is not allowed.
func C36_entry() {
	hb := make([]byte, wpk.HeaderSize)
	copy(hb, wpk.SignReady)
	copy(hb[48:64], sym.Bytes("data", 16))
	datoff, datsize := le(hb[48:56]), le(hb[56:64])
	var hdr wpk.Header
	_, err := hdr.Parse(hb)
	must(err, "header")
	ftt := &wpk.FTT{}
	ftt.Init(&hdr)
	pkg := &wpk.Package{FTT: ftt}
	pkg.SetTagset("d/first", wpk.TagsetRaw{}.Put(wpk.TIDpath, wpk.StrTag("d/first")))

	var ts wpk.TagsetRaw
	ts = ts.Put(77, wpk.StrTag("more"))
	name, haspath, repeated := "", false, false
	switch sym.IntRange("path", 0, 4) {
	case 0:
	case 1:
		name, haspath = "other", true
	case 2:
		name, haspath = "first", true
	case 3:
		name, haspath, repeated = "d/first", true, true
	case 4:
		name, haspath, repeated = "d\\first", true, true
	}
	if haspath {
		ts = ts.Put(wpk.TIDpath, wpk.StrTag(name))
	}
	field := func(what string, tid wpk.TID) (uint64, bool) {
		switch k := sym.IntRange(what, 0, 3); k {
		case 0:
			return 0, false
		case 1:
			ts = ts.Put(tid, []byte{1, 2, 3}) // not a number
			return 0, false
		default:
			b := sym.Bytes(what+".b", []int{2, 8}[k-2])
			ts = ts.Put(tid, b)
			return le(b), true
		}
	}
	off, hasoff := field("off", wpk.TIDoffset)
	size, hassize := field("size", wpk.TIDsize)
	outoff := sym.And(hasoff, sym.Or(off < datoff, off-datoff > datsize))
	outsize := sym.And(hasoff, sym.And(hassize, sym.And(sym.Not(outoff), size > datsize-(off-datoff))))

	key, err := ftt.CheckTagset(ts)
	if err == nil {
		sym.Assert(haspath && !repeated && hasoff && hassize && key == name, "only a complete entry is taken")
		sym.Assert(sym.And(sym.Not(outoff), sym.Not(outsize)), "only an entry inside of the data is taken")
		sym.Reach("taken")
		return
	}
	var et *wpk.ErrTag
	for e := err; e != nil; e = errors.Unwrap(e) {
		if t, ok := e.(*wpk.ErrTag); ok {
			et = t
		}
	}
	sym.Assert(et != nil, "error tells the tag")
	sym.Assert(et.Key == name, "error tells the name of the file")
	known := false
	for _, k := range []struct {
		err error
		tid wpk.TID
		is  bool
	}{
		{wpk.ErrNoPath, wpk.TIDpath, !haspath},
		{fs.ErrExist, wpk.TIDpath, repeated},
		{wpk.ErrNoOffset, wpk.TIDoffset, !hasoff},
		{wpk.ErrNoSize, wpk.TIDsize, !hassize},
		{wpk.ErrOutOff, wpk.TIDoffset, outoff},
		{wpk.ErrOutSize, wpk.TIDsize, outsize},
	} {
		if errors.Is(err, k.err) {
			sym.Assert(!known, "error is of one kind")
			sym.Assert(k.is, "error tells what is wrong")
			sym.Assert(et.TID == k.tid, "error tells the tag that is wrong")
			sym.Assert(strings.Contains(err.Error(), name) && strings.Contains(err.Error(), k.err.Error()), "error text tells the file and what is wrong")
			known = true
		}
	}
	sym.Assert(known, "error is one of the documented")
	sym.Reach("refused")
}

// C36_file: a file that is out of its package.
func C36_file() {
	p := place(sym.Bool("split"))
	w := begin(p)
	w.pack("d/a", []byte("content"))
	w.sync()
	w.close()
	n := sym.IntRange("opener", 0, 2)
	pkg := open(p, n)
	defer pkg.Close()
	noff, nsize := sym.Uint64("off"), sym.Uint64("size")
	total := uint64(len(readAll(p.data)))
	sym.Assume(sym.Or(noff > total, nsize > total-noff))
	bad := wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.Uint64Tag(noff)).Put(wpk.TIDsize, wpk.Uint64Tag(nsize)).Put(wpk.TIDpath, wpk.StrTag("d/a"))
	_, err := pkg.OpenTagset(bad)
	sym.Assert(err != nil, "a file out of its package is refused")
	var et *wpk.ErrTag
	for e := err; e != nil; e = errors.Unwrap(e) {
		if t, ok := e.(*wpk.ErrTag); ok {
			et = t
		}
	}
	sym.Assert(et != nil && et.Key == "d/a", "error tells the name of the file")
	isoff, issize := errors.Is(err, wpk.ErrOutOff), errors.Is(err, wpk.ErrOutSize)
	sym.Assert(isoff != issize, "error is of one kind")
	sym.Assert(sym.Implies(isoff, sym.And(et.TID == wpk.TIDoffset, noff > total)), "offset is out of bounds")
	sym.Assert(sym.Implies(issize, sym.And(et.TID == wpk.TIDsize, noff <= total)), "size is out of bounds")
	sym.Reach("refused")
}

// C36_head: a header or a table that does not fit.
func C36_head() {
	b := make([]byte, wpk.HeaderSize)
	copy(b, wpk.SignReady)
	b = buildTable(b, 64)
	good := uint64(len(b) - 64)
	put(b[24:32], 1)
	put(b[48:56], 64)
	b = append(b, 0, 0, 0)
	fttoff, fttsize := sym.Uint64("fttoffset"), sym.Uint64("fttsize")
	copy(b[32:40], wpk.Uint64Tag(fttoff))
	copy(b[40:48], wpk.Uint64Tag(fttsize))
	total := uint64(len(b))
	if sym.Bool("at the table") {
		sym.Assume(fttoff == 64)
	} else {
		sym.Assume(sym.Or(fttoff > total, sym.Or(fttsize > total, fttoff+fttsize > total)))
	}
	pkg := wpk.NewPackage()
	err := pkg.OpenStream(bytes.NewReader(b))
	out := sym.Or(fttoff > total, fttsize > total-fttoff)
	switch {
	case err == nil:
		sym.Assert(sym.Or(fttsize == good, fttsize == 0), "table has the size that the header tells")
		sym.Reach("taken")
	case errors.Is(err, wpk.ErrSignFTT):
		sym.Assert(sym.Or(out, fttsize != good), "header or table do not fit")
		sym.Reach("unfit")
	default:
		sym.Assert(errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF), "table is cut")
		sym.Assert(sym.Or(out, fttsize < good), "table is cut")
		sym.Reach("cut")
	}
}

// C36_missing: a package file that is not there.
func C36_missing() {
	root := sym.Root()
	path := root + "/" + []string{"none.wpk", "d/none.wpk"}[sym.IntRange("path", 0, 1)]
	var err error
	switch k := sym.IntRange("op", 0, 3); k {
	case 0:
		err = wpk.NewPackage().OpenFile(path)
	default:
		_, err = tagger(k-1, path)
		if k == 3 && err == nil {
			// a file system of parts has nothing open until a file is
			var t wpk.Tagger
			t, err = fsys.MakeTagger(path)
			must(err, "opener")
			_, err = t.OpenTagset(wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(64)).Put(wpk.TIDsize, wpk.UintTag(0)).Put(wpk.TIDpath, wpk.StrTag("a")))
		}
	}
	about(err, fs.ErrNotExist, path, "open")
	sym.Reach("end")
}

// C36_pass: the reason of a failed read of the table is told.
func C36_pass() {
	b := make([]byte, wpk.HeaderSize)
	copy(b, wpk.SignReady)
	b = buildTable(b, 64)
	put(b[32:40], 64)
	put(b[40:48], uint64(len(b)-64))
	put(b[24:32], 1)
	put(b[48:56], 64)
	w := sym.IntRange("seek", -1, 3)
	r := &failing{Reader: bytes.NewReader(b), left: sym.IntRange("reads", 0, 12), seeks: w}
	pkg := wpk.NewPackage()
	err := pkg.OpenStream(r)
	if r.failed {
		sym.Assert(errors.Is(err, errIO), "error of the stream is told")
		sym.Reach("failed")
	} else {
		must(err, "package is opened")
	}
	r = &failing{Reader: bytes.NewReader(b), left: r.left, seeks: w}
	_, _, err = wpk.GetPackageInfo(r)
	if r.failed {
		sym.Assert(errors.Is(err, errIO), "error of the stream is told")
	} else {
		must(err, "info is read")
	}
	sym.Reach("end")
}

// failing is a stream whose reads fail after some.
type failing struct {
	*bytes.Reader
	left, seeks int
	failed      bool
}

func (f *failing) Read(p []byte) (int, error) {
	if f.left--; f.left < 0 {
		f.failed = true
		return 0, errIO
	}
	return f.Reader.Read(p)
}

func (f *failing) Seek(off int64, whence int) (int64, error) {
	if f.seeks--; f.seeks == 0 {
		f.failed = true
		return 0, errIO
	}
	return f.Reader.Seek(off, whence)
}

// C36_codec: fixed-width numbers in streams.
func C36_codec() {
	v := sym.Uint64("v")
	n := sym.IntRange("n", 0, 9)
	var w bytes.Buffer
	var err error
	var width int
	var back uint64
	read := func(r io.Reader, kind int) (u uint64, err error) {
		switch kind {
		case 0:
			var x uint16
			x, err = util.ReadU16(r)
			u = uint64(x)
		case 1:
			var x uint32
			x, err = util.ReadU32(r)
			u = uint64(x)
		case 2:
			u, err = util.ReadU64(r)
		}
		return
	}
	kind := sym.IntRange("kind", 0, 2)
	switch kind {
	case 0:
		err, width = util.WriteU16(&w, uint16(v)), 2
	case 1:
		err, width = util.WriteU32(&w, uint32(v)), 4
	case 2:
		err, width = util.WriteU64(&w, v), 8
	}
	must(err, "number is written")
	sym.Assert(w.Len() == width, "number has its width")
	mask := uint64(1)<<(8*uint(width)-1)<<1 - 1
	sym.Assert(le(w.Bytes()) == v&mask, "number is little-endian")
	b := append(append([]byte{}, w.Bytes()...), 1, 2)
	if n > len(b) {
		n = len(b)
	}
	r := bytes.NewReader(b[:n])
	back, err = read(&Frag{B: b[:n], Max: 1 + sym.IntRange("max", 0, 2)}, kind)
	if n < width {
		sym.Assert(err != nil, "a cut number is an error")
		sym.Reach("cut")
	} else {
		must(err, "number is read")
		sym.Assert(back == v&mask, "the same number is read")
		_, err = read(r, kind)
		must(err, "number is read")
		sym.Assert(r.Len() == n-width, "no more is read")
		sym.Reach("read")
	}
	sym.Assert(errors.Is(util.WriteU16(full{}, 1), errIO) && errors.Is(util.WriteU32(full{}, 1), errIO) && errors.Is(util.WriteU64(full{}, 1), errIO), "a failed write is told")
}

// full is a stream that takes nothing.
type full struct{}

func (full) Write([]byte) (int, error) { return 0, errIO }
