package core

import (
	"bytes"
	"io"
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
)

func must(err error, what string) {
	if err != nil {
		sym.Fail(what)
		panic(what)
	}
}

// at is a package on disk: one file, or a tags file and a data file.
type at struct{ tags, data string }

func place(split bool) at {
	if split {
		p := sym.Root() + "/p.wpt"
		return at{wpk.MakeTagsPath(p), wpk.MakeDataPath(p)}
	}
	return at{sym.Root() + "/p.wpk", sym.Root() + "/p.wpk"}
}

func (p at) split() bool { return p.tags != p.data }

// pen is a package being written.
type pen struct {
	*wpk.Package
	wpt, wpf *os.File
	short    bool // names of one byte
}

// begin starts a new package on disk.
func begin(p at) *pen {
	w := &pen{Package: wpk.NewPackage()}
	w.create(p)
	must(w.Begin(w.wpt, w.f2()), "package is begun")
	return w
}

// f2 is the second argument of writing functions.
func (w *pen) f2() io.WriteSeeker {
	if w.wpf == nil {
		return nil
	}
	return w.wpf
}

// dat is the writer for data.
func (w *pen) dat() io.WriteSeeker {
	if w.wpf == nil {
		return w.wpt
	}
	return w.wpf
}

func (w *pen) create(p at) {
	var err error
	w.wpt, err = os.OpenFile(p.tags, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	must(err, "file is made")
	if p.split() {
		w.wpf, err = os.OpenFile(p.data, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		must(err, "data file is made")
	}
}

// reopen opens a finished package to append.
func reopen(p at) *pen {
	w := &pen{Package: wpk.NewPackage()}
	must(w.OpenFile(p.tags), "package is opened to append")
	var err error
	w.wpt, err = os.OpenFile(p.tags, os.O_WRONLY, 0644)
	must(err, "file is opened")
	if p.split() {
		w.wpf, err = os.OpenFile(p.data, os.O_WRONLY, 0644)
		must(err, "data file is opened")
	}
	must(w.Append(w.wpt, w.f2()), "append starts")
	return w
}

func (w *pen) sync() {
	must(w.Sync(w.wpt, w.f2()), "package is finalised")
}

func (w *pen) close() {
	w.wpt.Close()
	if w.wpf != nil {
		w.wpf.Close()
	}
}

func (w *pen) pack(name string, data []byte) wpk.TagsetRaw {
	ts, err := w.PackData(w.dat(), bytes.NewReader(data), name)
	must(err, "file is packed")
	return ts
}

// tagger makes the opener with given number.
func tagger(n int, path string) (wpk.Tagger, error) {
	switch n {
	case 0:
		return bulk.MakeTagger(path)
	case 1:
		return mmap.MakeTagger(path)
	}
	return fsys.MakeTagger(path)
}

// open opens a finished package for reading.
func open(p at, opener int) *wpk.Package {
	pkg := wpk.NewPackage()
	must(pkg.OpenFile(p.tags), "finished package opens")
	t, err := tagger(opener, p.data)
	must(err, "opener is made")
	pkg.Tagger = t
	return pkg
}

// content reads a file of a package through its reader.
func content(pkg *wpk.Package, name string) []byte {
	f, err := pkg.Open(name)
	must(err, "file opens")
	b, err := io.ReadAll(f)
	must(err, "file is read")
	must(f.Close(), "file is closed")
	return b
}

// packed is what was put into a package.
type packed struct {
	name string
	data []byte
	ts   wpk.TagsetRaw
}

// verify demands that a package on disk holds exactly the given files.
func verify(p at, opener int, info wpk.TagsetRaw, want []packed) {
	pkg := open(p, opener)
	sym.Assert(sym.EqBytes(pkg.GetInfo(), info), "package info is read back")
	got := files(pkg.FTT)
	sym.Assert(len(got) == len(want) && pkg.TagsetNum() == len(want), "exactly the packed files are listed")
	for i, f := range want {
		if i < len(got) {
			sym.Assert(sym.EqStr(got[i].name, f.name), "names are read back in order")
		}
		ts, ok := pkg.GetTagset(f.name)
		sym.Assert(ok, "file is found")
		if !ok {
			continue
		}
		sym.Assert(sym.EqBytes(ts, f.ts), "tags are read back")
		sym.Assert(ts.Size() == int64(len(f.data)), "recorded size")
		fi, err := pkg.Stat(f.name)
		sym.Assert(err == nil && fi.Size() == int64(len(f.data)), "size of file info")
		b := content(pkg, f.name)
		sym.Assert(sym.EqBytes(b, f.data), "content is read back")
	}
	must(pkg.Tagger.Close(), "opener is closed")
}

func readAll(path string) []byte {
	b, err := os.ReadFile(path)
	must(err, "file is read whole")
	return b
}

func openTrunc(path string) (*os.File, error) {
	return os.OpenFile(path, os.O_WRONLY|os.O_TRUNC, 0644)
}
