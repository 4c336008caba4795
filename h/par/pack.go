package par

import (
	"bytes"
	"io"
	"io/fs"
	"time"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// source is a file to be packed.
type source struct {
	r *bytes.Reader
}

func (f *source) Stat() (fs.FileInfo, error) { return sourceInfo{}, nil }
func (f *source) Read(b []byte) (int, error) { return f.r.Read(b) }
func (f *source) Close() error               { return nil }

type sourceInfo struct{}

func (sourceInfo) Name() string       { return "x" }
func (sourceInfo) Size() int64        { return 3 }
func (sourceInfo) Mode() fs.FileMode  { return 0644 }
func (sourceInfo) ModTime() time.Time { return time.Unix(1000, 5) }
func (sourceInfo) IsDir() bool        { return false }
func (sourceInfo) Sys() any           { return nil }

// desk is a package being written, with the file it is written to.
type desk struct {
	*wpk.Package
	w, dat *file // dat is nil for a package in one file
}

// writer is where data goes.
func (d *desk) writer() io.WriteSeeker {
	if d.dat != nil {
		return d.dat
	}
	return d.w
}

func (d *desk) second() io.WriteSeeker {
	if d.dat != nil {
		return d.dat
	}
	return nil
}

// newDesk begins a package with files a and d/b.
func newDesk(split bool) func() *desk {
	return func() *desk {
		d := &desk{Package: wpk.NewPackage(), w: &file{}}
		if split {
			d.dat = &file{}
		}
		must(d.Begin(d.w, d.second()))
		d.put("a", "1")
		d.put("d/b", "22")
		d.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("old")))
		var b []byte
		if split {
			b = append(b, d.dat.b...)
		} else {
			b = append(b, d.w.b...)
		}
		d.Tagger = &shelf{b}
		return d
	}
}

func (d *desk) put(name, data string) error {
	_, err := d.PackData(d.writer(), bytes.NewReader([]byte(data)), name)
	return err
}

// shelf opens nested files of a package in memory.
type shelf struct{ b []byte }

type nested struct {
	*bytes.Reader
	ts wpk.TagsetRaw
}

func (f *nested) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f *nested) Close() error               { return nil }

func (t *shelf) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	off, n := ts.Pos()
	if off+n > uint(len(t.b)) {
		return nil, fs.ErrInvalid
	}
	return &nested{bytes.NewReader(t.b[off : off+n]), ts}, nil
}

func (t *shelf) Close() error { return nil }

// bytesOf is the content of a file by its tagset.
func (d *desk) bytesOf(ts wpk.TagsetRaw) string {
	b := d.w.b
	if d.dat != nil {
		b = d.dat.b
	}
	off, n := ts.Pos()
	if off+n > uint(len(b)) {
		return "out of the package"
	}
	return string(b[off : off+n])
}

// fate is what a file is without its place.
func (d *desk) fate(key string, ts wpk.TagsetRaw) []cell {
	_, t := ts.TagTime(wpk.TIDmtime)
	return []cell{txt(key), txt(ts.Path()), txt(d.bytesOf(ts)), flag(t)}
}

// holds is all that is in the package.
func holds(d *desk) (res []cell) {
	type extent struct{ a, b uint }
	var es []extent
	d.Enum(func(key string, ts wpk.TagsetRaw) bool {
		res = append(res, d.fate(key, ts)...)
		off, n := ts.Pos()
		e := extent{off, off + n}
		for _, x := range es {
			sym.Assert(x == e || x.b <= e.a || e.b <= x.a, "extents do not overlap")
		}
		es = append(es, e)
		return true
	})
	label, _ := d.GetInfo().TagStr(wpk.TIDlabel)
	return append(res, num(d.TagsetNum()), num(int(d.DataSize())), txt(label))
}

var names = []string{"a", "d/b", "c", "e/b"}

func aName(what string) string { return names[sym.IntRange(what, 0, 3)] }

// alone makes an operation that is carried out as if alone.
func alone(what, data string) func(d *desk) []cell {
	err := func(e error) []cell { return []cell{flag(e == nil)} }
	switch sym.IntRange(what, 0, 8) {
	case 0:
		n := aName(what + ".name")
		return func(d *desk) []cell { return err(d.put(n, data)) }
	case 1:
		n := aName(what + ".name")
		return func(d *desk) []cell {
			_, e := d.PackFile(d.writer(), &source{bytes.NewReader([]byte(data))}, n)
			return err(e)
		}
	case 2:
		x, y := aName(what+".from"), aName(what+".to")
		return func(d *desk) []cell { return err(d.Rename(x, y)) }
	case 3:
		x, y := aName(what+".from"), aName(what+".to")
		return func(d *desk) []cell { return err(d.PutAlias(x, y)) }
	case 4:
		skip := sym.Bool(what + ".skip")
		return func(d *desk) []cell {
			n, e := d.RenameDir("d", "e", skip)
			return append(err(e), num(n))
		}
	case 5:
		n := aName(what + ".name")
		return func(d *desk) []cell { return []cell{flag(d.HasTagset(n))} }
	case 6:
		n := aName(what + ".name")
		return func(d *desk) []cell {
			ts, ok := d.GetTagset(n)
			_, t := ts.TagTime(wpk.TIDmtime)
			return []cell{flag(ok), num(int(ts.Size())), txt(ts.Path()), flag(t)}
		}
	case 7:
		return func(d *desk) []cell {
			d.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag(data)))
			return nil
		}
	}
	return func(d *desk) []cell {
		s, ok := d.GetInfo().TagStr(wpk.TIDlabel)
		return []cell{txt(s), flag(ok)}
	}
}

// C30_pack: operations that pack, rename and look up.
func C30_pack() {
	mk := newDesk(sym.Bool("split"))
	oneByOne(mk, []func(*desk) []cell{alone("op1", "333"), alone("op2", "4444")}, holds)
	sym.Reach("end")
}

// empty makes tags of a file without content.
func (d *desk) empty(n string) wpk.TagsetRaw {
	off := uint(wpk.HeaderSize)
	if d.dat != nil {
		off = 0
	}
	return wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(off)).Put(wpk.TIDsize, wpk.UintTag(0)).Put(wpk.TIDpath, wpk.StrTag(n))
}

// any makes any operation on an open package.
func any1(what, data string, from int, named bool) (func(d *desk), int) {
	k := sym.IntRange(what, from, 20)
	n := names[0]
	if named && k < 14 {
		n = aName(what + ".name")
	}
	return anyOf(what, data, k, n), k
}

func anyOf(what, data string, k int, n string) func(d *desk) {
	dir := func() (string, string) {
		if sym.Tier() > 0 && sym.Bool(what+".swap") {
			return "e", "d"
		}
		return "d", "e"
	}
	switch k {
	case 0:
		return func(d *desk) { d.put(n, data) }
	case 1:
		return func(d *desk) { d.PackFile(d.writer(), &source{bytes.NewReader([]byte(data))}, n) }
	case 2:
		return func(d *desk) { d.Rename("a", n) }
	case 3:
		return func(d *desk) { d.PutAlias("d/b", n) }
	case 4:
		return func(d *desk) { d.HasTagset(n) }
	case 5:
		return func(d *desk) { d.GetTagset(n) }
	case 6:
		return func(d *desk) { d.DelTagset(n) }
	case 7:
		return func(d *desk) { d.SetTagset(n, d.empty(n)) }
	case 8:
		return func(d *desk) { d.SetupTagset(d.empty(n)) }
	case 9:
		return func(d *desk) { d.Stat(n) }
	case 10:
		return func(d *desk) { d.ReadFile("a") }
	case 11:
		return func(d *desk) {
			if f, err := d.Open(n); err == nil {
				f.Close()
			}
		}
	case 12:
		return func(d *desk) { d.Sub("d") }
	case 13:
		x, y := dir()
		return func(d *desk) { d.RenameDir(x, y, true) }
	case 14:
		return func(d *desk) { must(d.Sync(d.w, d.second())) }
	case 15:
		return func(d *desk) {
			d.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag(data)))
		}
	case 16:
		return func(d *desk) { d.GetInfo().TagStr(wpk.TIDlabel) }
	case 17:
		return func(d *desk) {
			d.DataSize()
			d.TagsetNum()
			d.IsSplitted()
		}
	case 18:
		return func(d *desk) { d.Glob("*") }
	case 19:
		return func(d *desk) { d.ReadDir(".") }
	}
	return func(d *desk) {
		if f, err := d.Open(wpk.PackName); err == nil {
			f.Close()
		}
	}
}

// C30_any: any two operations do not race, and the package can be finished
// afterwards with its files intact.
func C30_any() {
	d := newDesk(sym.Bool("split"))()
	f, k := any1("op1", "333", 0, true)
	g, _ := any1("op2", "4444", k, true)
	sym.Par(func() { f(d) }, func() { g(d) })
	sound(d)
	sym.Reach("end")
}

// C30_any3: any three operations.
func C30_any3() {
	d := newDesk(sym.Bool("split"))()
	f, k := any1("op1", "333", 0, true)
	g, k := any1("op2", "4444", k, false)
	h, _ := any1("op3", "55555", k, false)
	sym.Par(func() { f(d) }, func() { g(d) }, func() { h(d) })
	sound(d)
	sym.Reach("end")
}

// sound finishes the package and reads it.
func sound(d *desk) {
	must(d.Sync(d.w, d.second()))
	q := wpk.NewPackage()
	sym.Assert(q.OpenStream(&file{b: d.w.b}) == nil, "package opens after operations at the same time")
	sym.Assert(q.TagsetNum() == d.TagsetNum(), "files are listed")
	q.Enum(func(key string, ts wpk.TagsetRaw) bool {
		own, ok := d.GetTagset(key)
		sym.Assert(ok && sym.EqStr(string(own), string(ts)), "tags are kept")
		off, n := ts.Pos()
		if n == 0 {
			return true
		}
		all := d.w.b
		if d.dat != nil {
			all = d.dat.b
		}
		sym.Assert(off+n <= uint(len(all)), "file is in the package")
		b := all[off : off+n]
		for _, c := range b {
			sym.Assert(c == b[0] && uint(c-'0') == n, "content is kept")
		}
		return true
	})
}

// C30_many: files packed by several threads.
func C30_many() {
	d := newDesk(sym.Bool("split"))()
	threads, each := 3, 2
	if sym.Tier() > 0 {
		each = 3
	}
	fresh := []string{"m", "d/n", "o", "p", "q", "r", "s", "t", "u"}
	var errs []error
	var ns []string
	var fs []func()
	for i := 0; i < threads; i++ {
		for j := 0; j < each; j++ {
			n := fresh[i*each+j]
			if i > 0 && j == 0 && sym.Bool("same") {
				n = fresh[0]
			}
			ns = append(ns, n)
			errs = append(errs, nil)
		}
	}
	for i := 0; i < threads; i++ {
		i := i
		fs = append(fs, func() {
			for j := 0; j < each; j++ {
				k := i*each + j
				errs[k] = d.put(ns[k], "333")
			}
		})
	}
	sym.Par(fs...)
	for _, n := range ns {
		won := 0
		for l, o := range ns {
			if o == n && errs[l] == nil {
				won++
			}
		}
		sym.Assert(won == 1, "a name is packed once")
		_, ok := d.GetTagset(n)
		sym.Assert(ok, "packed file is not lost")
	}
	sound(d)
	holds(d)
	sym.Reach("end")
}
