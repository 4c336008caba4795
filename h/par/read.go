package par

import (
	"io"
	"io/fs"
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
)

// onDisk writes a finished package with files a and d/b and opens it.
func onDisk(opener int) *wpk.Package {
	p := sym.Root() + "/p.wpk"
	f, err := os.Create(p)
	must(err)
	d := &desk{Package: wpk.NewPackage(), w: &file{}}
	must(d.Begin(d.w, nil))
	must(d.put("a", "1"))
	must(d.put("d/b", "22"))
	must(d.Sync(d.w, nil))
	_, err = f.Write(d.w.b)
	must(err)
	must(f.Close())
	pkg := wpk.NewPackage()
	must(pkg.OpenFile(p))
	switch opener {
	case 0:
		pkg.Tagger, err = bulk.MakeTagger(p)
	case 1:
		pkg.Tagger, err = mmap.MakeTagger(p)
	default:
		pkg.Tagger, err = fsys.MakeTagger(p)
	}
	must(err)
	return pkg
}

// look makes an operation that reads.
func look(what string) func(fs wpk.CompleteFS) string {
	n := names[sym.IntRange(what+".name", 0, 2)]
	switch sym.IntRange(what, 0, 6) {
	case 0:
		return func(f wpk.CompleteFS) string {
			b, err := f.ReadFile(n)
			if err != nil {
				return "none"
			}
			return string(b)
		}
	case 1:
		return func(f wpk.CompleteFS) string {
			h, err := f.(fs.FS).Open(n)
			if err != nil {
				return "none"
			}
			b, err := io.ReadAll(h)
			must(err)
			must(h.Close())
			return string(b)
		}
	case 2:
		return func(f wpk.CompleteFS) string {
			h, err := f.(fs.FS).Open(n)
			if err != nil {
				return "none"
			}
			b := make([]byte, 1)
			k, _ := h.(io.ReaderAt).ReadAt(b, 1)
			h.Close()
			return string(b[:k])
		}
	case 3:
		return func(f wpk.CompleteFS) string {
			fi, err := f.Stat(n)
			if err != nil {
				return "none"
			}
			return fi.Name()
		}
	case 4:
		return func(f wpk.CompleteFS) string {
			l, err := f.ReadDir(".")
			must(err)
			s := ""
			for _, e := range l {
				s += e.Name() + " "
			}
			return s
		}
	case 5:
		return func(f wpk.CompleteFS) string {
			l, err := f.Glob("*")
			must(err)
			s := ""
			for _, e := range l {
				s += e + " "
			}
			return s
		}
	}
	return func(f wpk.CompleteFS) string {
		g, err := f.Sub("d")
		must(err)
		b, err := fs.ReadFile(g, "b")
		must(err)
		return string(b)
	}
}

// C30_read: reading of a finished package by several threads, through every
// opener, also in a union, gives what each would read alone.
func C30_read() {
	pkg := onDisk(sym.IntRange("opener", 0, 2))
	var f wpk.CompleteFS = pkg
	if sym.Bool("union") {
		f = &wpk.Union{List: []*wpk.Package{pkg}}
	}
	g, h := look("op1"), look("op2")
	var a, b string
	sym.Par(func() { a = g(f) }, func() { b = h(f) })
	sym.Assert(sym.EqStr(a, g(f)), "one reader is not affected by another")
	sym.Assert(sym.EqStr(b, h(f)), "one reader is not affected by another")
	must(pkg.Tagger.Close())
	sym.Reach("end")
}
