package core

import (
	"errors"
	"io"
	"io/fs"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// slow opens one file that is delivered in pieces and may fail or end early.
type slow struct {
	b    []byte
	max  int
	eofd bool
	bad  int // bytes after which reading fails, or -1
	err  error
	open *int
}

type slowFile struct {
	nulFile
	r    Frag
	bad  int
	err  error
	open *int
}

func (t *slow) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	*t.open++
	f := &slowFile{r: Frag{B: t.b, Max: t.max, EOFData: t.eofd}, bad: t.bad, err: t.err, open: t.open}
	f.ts = ts
	return f, nil
}

func (t *slow) Close() error { return nil }

func (f *slowFile) Read(p []byte) (int, error) {
	if f.bad >= 0 {
		left := f.bad - int(f.r.Pos)
		if left <= 0 {
			return 0, f.err
		}
		if len(p) > left {
			p = p[:left]
		}
	}
	return f.r.Read(p)
}

func (f *slowFile) Close() error {
	*f.open--
	return nil
}

// readFS reads files by name.
type readFS interface {
	ReadFile(string) ([]byte, error)
}

func someFS(pkg *wpk.Package) readFS {
	if sym.Bool("union") {
		return &wpk.Union{List: []*wpk.Package{wpk.NewPackage(), pkg}}
	}
	return pkg
}

// C19_pieces: a file delivered in pieces.
func C19_pieces() {
	n := sym.IntRange("size", 0, 5)
	opened := 0
	t := &slow{b: sym.Bytes("data", n), max: sym.IntRange("max", 0, 3), eofd: sym.Bool("eofdata"), bad: -1, open: &opened}
	pkg := wpk.NewPackage()
	pkg.Tagger = t
	pkg.SetTagset("x", pkg.BaseTagset(64, uint(n), "x"))
	u := someFS(pkg)
	b, err := u.ReadFile("x")
	sym.Assert(err == nil, "a file is read without an error")
	sym.Assert(len(b) == n, "all of it is read")
	sym.Assert(sym.EqBytes(b, t.b), "content")
	sym.Assert(opened == 0, "the file is closed again")
	_, err = u.ReadFile(string(sym.Bytes("other", 2)))
	sym.Assert(errors.Is(err, fs.ErrNotExist), "an unknown name is a not-exist error")
	sym.Reach("end")
}

// C19_fails: a file that cannot be read completely.
func C19_fails() {
	n := sym.IntRange("size", 1, 5)
	opened := 0
	t := &slow{b: sym.Bytes("data", n), max: sym.IntRange("max", 0, 3), bad: sym.IntRange("bad", 0, n-1), open: &opened}
	t.err = errIO
	if sym.Bool("early") {
		t.err = io.EOF
	}
	pkg := wpk.NewPackage()
	pkg.Tagger = t
	pkg.SetTagset("x", pkg.BaseTagset(64, uint(n), "x"))
	b, err := someFS(pkg).ReadFile("x")
	sym.Assert(err != nil, "a file that is not read completely is an error")
	sym.Assert(len(b) == 0, "and gives no data")
	if t.err == errIO {
		sym.Assert(errors.Is(err, errIO), "the reason is reported")
	}
	sym.Assert(opened == 0, "the file is closed again")
	sym.Reach("end")
}

// C19_disk: files on disk, through every opener.
func C19_disk() {
	p := place(sym.Bool("split"))
	sizes := []int{0, 1, 3, 600, 5000}
	n := sizes[sym.IntRange("size", 0, len(sizes)-1)]
	w := begin(p)
	d := make([]byte, n)
	if n > 0 {
		d[0], d[n-1] = sym.Uint8("first"), sym.Uint8("last")
	}
	at := sym.IntRange("at", 0, 2)
	for i := 0; i < 3; i++ {
		if i == at {
			w.pack("x", d)
		} else {
			w.pack("o"+string(rune('0'+i)), sym.Bytes("o"+string(rune('0'+i)), 2))
		}
	}
	w.sync()
	w.close()
	pkg := open(p, sym.IntRange("opener", 0, 2))
	u := someFS(pkg)
	b, err := u.ReadFile("x")
	sym.Assert(err == nil, "a file is read without an error")
	sym.Assert(sym.EqBytes(b, d), "content")
	// the bytes are the caller's own
	for i := range b {
		b[i] ^= 0xff
	}
	b2, err := u.ReadFile("x")
	sym.Assert(err == nil && sym.EqBytes(b2, d), "a change of returned bytes changes nothing else")
	must(pkg.Tagger.Close(), "opener is closed")
	sym.Assert(sym.EqBytes(b2, d), "returned bytes stay after closing")
	sym.Reach("end")
}

// C19_cut: a data file that is shorter than recorded.
func C19_cut() {
	p := place(true)
	w := begin(p)
	d := sym.Bytes("data", 4)
	w.pack("a", d)
	w.pack("b", d[:2])
	w.sync()
	w.close()
	n := sym.IntRange("left", 0, 5)
	cut := readAll(p.data)[:n]
	f, err := openTrunc(p.data)
	must(err, "data file is cut")
	f.Write(cut)
	f.Close()
	pkg := open(p, sym.IntRange("opener", 0, 2))
	u := someFS(pkg)
	for i, name := range []string{"a", "b"} {
		b, err := u.ReadFile(name)
		if i == 0 && n >= 4 {
			sym.Assert(err == nil && sym.EqBytes(b, d), "what is left is read")
			sym.Reach("whole")
			continue
		}
		sym.Assert(err != nil, "what is cut is an error")
		sym.Assert(len(b) == 0, "and gives no data")
	}
	sym.Reach("end")
}

// plenty gives files of zeros whatever their sizes are.
type plenty struct{}

func (plenty) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return &zeros{io.NewSectionReader(nil, 0, 0), ts}, nil
}

func (plenty) Close() error { return nil }

type zeros struct {
	wpk.PkgReader
	tags wpk.TagsetRaw
}

func (z *zeros) Read(b []byte) (int, error) { return len(b), nil }
func (z *zeros) Stat() (fs.FileInfo, error) { return z.tags, nil }
func (z *zeros) Close() error               { return nil }

// C19_huge: the whole of a file of any size is asked for.
func C19_huge() {
	size := sym.Uint64("size")
	sym.Assume(sym.And(size > 1<<26, size < 1<<36))
	pkg := wpk.NewPackage()
	pkg.SetTagset("x", pkg.BaseTagset(0, uint(size), "x"))
	pkg.Tagger = plenty{}
	sym.AllocOnly(size)
	b, err := someFS(pkg).ReadFile("x")
	sym.Assert(err != nil || uint64(len(b)) == size, "a file is read as a whole")
}
