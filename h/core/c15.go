package core

import (
	"errors"
	"io"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// child is a direct child of a directory.
type child struct {
	name string
	dir  bool
	of   int // file
}

// children lists the direct children of a directory given by its prefix.
func children(names []string, prefix string) (list []child) {
	for i, name := range names {
		if !strings.HasPrefix(name, prefix) {
			continue
		}
		rest := name[len(prefix):]
		c := child{rest, false, i}
		if k := strings.IndexByte(rest, '/'); k >= 0 {
			c = child{rest[:k], true, i}
		}
		dup := false
		for _, o := range list {
			if o.name == c.name && o.dir == c.dir {
				dup = true
			}
		}
		if !dup {
			list = append(list, c)
		}
	}
	return
}

// conflict assumes that no name is both a file and a directory.
func conflict(names []string) {
	for _, a := range names {
		for _, b := range names {
			if len(a) < len(b) {
				sym.Assume(!strings.HasPrefix(b, a+"/"))
			}
		}
	}
}

// sorted demands an order by name.
func sorted(list []fs.DirEntry, what string) {
	for i := 1; i < len(list); i++ {
		sym.Assert(list[i-1].Name() < list[i].Name(), what+": sorted by name, each once")
	}
}

// isChild demands that an entry is right.
func isChild(de fs.DirEntry, want []child, what string) {
	hit := false
	for _, c := range want {
		if de.Name() == c.name {
			hit = true
			sym.Assert(de.IsDir() == c.dir, what+": kind of entry")
			sym.Assert(de.Type().IsDir() == c.dir && de.Type().IsRegular() == !c.dir, what+": type of entry")
			fi, err := de.Info()
			sym.Assert(err == nil && fi.Name() == c.name && fi.IsDir() == c.dir && fi.Mode().IsDir() == c.dir, what+": info of entry")
			sym.Assert(de.Type() == fi.Mode().Type(), what+": entry type is that of its mode")
			if !c.dir {
				sym.Assert(fi.Size() == int64(10+c.of), what+": size of entry")
			}
		}
	}
	sym.Assert(hit, what+": nothing else is listed")
}

func listing(list []fs.DirEntry, want []child, what string) {
	sym.Assert(len(list) == len(want), what+": number of entries")
	for _, de := range list {
		isChild(de, want, what)
	}
	sorted(list, what)
}

// tree is a package of files with the given names.
func tree(names []string) *wpk.Package {
	pkg := wpk.NewPackage()
	for i, name := range names {
		pkg.SetTagset(name, pkg.BaseTagset(64, uint(10+i), name))
	}
	return pkg
}

// someTree is a number of symbolic names.
func someTree(lens ...int) (names []string) {
	for i, n := range lens {
		name := cleanName(string(rune('a'+i)), n)
		for _, o := range names {
			sym.Assume(!sym.EqStr(o, name))
		}
		names = append(names, name)
	}
	return
}

// someDir is a directory and the prefix of its files.
func someDir(names []string, max int) (dir, prefix string) {
	switch k := sym.IntRange("dir.form", 0, max+1); k {
	case 0:
		return "", ""
	case 1:
		return ".", ""
	default:
		dir = cleanName("dir", k-1)
	}
	prefix = dir + "/"
	if k := strings.IndexByte(dir, '/'); k >= 0 && sym.Bool("dir.back") {
		dir = dir[:k] + "\\" + dir[k+1:]
	}
	return
}

// C15_readdir: a directory listing in one call.
func C15_readdir() {
	sym.MapOrder(true)
	last := 3
	if sym.Tier() > 0 {
		last = 5
	}
	names := someTree(3, 5, last)
	conflict(names)
	pkg := tree(names)
	dir, prefix := someDir(names, 3+2*sym.Tier())
	want := children(names, prefix)
	list, err := pkg.ReadDir(dir)
	if len(want) == 0 {
		sym.Assert(errors.Is(err, fs.ErrNotExist), "a directory that does not exist is an error")
		sym.Reach("none")
		return
	}
	sym.Assert(err == nil, "an existing directory is read")
	listing(list, want, "ReadDir")
	if len(want) > 1 {
		sym.Reach("many")
	}
	f, err := pkg.Open(dir)
	must(err, "directory opens")
	d, ok := f.(fs.ReadDirFile)
	sym.Assert(ok, "an opened directory can be read")
	list, err = d.ReadDir(-1)
	sym.Assert(err == nil, "an opened directory is read")
	listing(list, want, "opened")
	sym.Reach("end")
}

// C15_limit: successive calls with limits.
func C15_limit() {
	sym.MapOrder(true)
	names := []string{"b", "a/x", "d/a", "a/y", "c", "d/e/f", "d/b"}
	// the first letters are permuted by the order of insertion
	rot := sym.IntRange("rot", 0, len(names)-1)
	names = append(append([]string{}, names[rot:]...), names[:rot]...)
	pkg := tree(names)
	dir, prefix := "", ""
	if sym.Bool("sub") {
		dir, prefix = "d", "d/"
	}
	want := children(names, prefix)
	f, err := pkg.Open(dir)
	must(err, "directory opens")
	d := f.(fs.ReadDirFile)
	var all []fs.DirEntry
	for i := 0; i < 3; i++ {
		n := sym.Int("n" + string(rune('0'+i)))
		sym.Assume(n >= -1 && n <= 1<<40)
		list, err := d.ReadDir(n)
		left := len(want) - len(all)
		all = append(all, list...)
		_ = append(list, nil, nil) // it is the caller's own
		if n <= 0 {
			sym.Assert(err == nil && len(list) == left, "no limit gives all that are left")
			continue
		}
		sym.Assert(len(list) <= n, "at most n entries")
		if left == 0 {
			sym.Assert(len(list) == 0 && err == io.EOF, "end of file after all entries")
			sym.Reach("eof")
		} else {
			sym.Assert(len(list) > 0 && err == nil, "some entries while there are any")
		}
	}
	list, err := d.ReadDir(-1)
	sym.Assert(err == nil, "the rest is read")
	all = append(all, list...)
	listing(all, want, "successive calls")
	// the form without state
	k := sym.Int("k")
	sym.Assume(k >= -1 && k <= 1<<40)
	list, err = pkg.FTT.ReadDirN(dir, k)
	sym.Assert(err == nil || (err == io.EOF && k > 0), "listing is read")
	if k > 0 {
		sym.Assert(len(list) <= k, "ReadDirN: at most n entries")
		sym.Assert(len(list) == k || len(list) == len(want), "ReadDirN: as many as there are up to n")
	} else {
		sym.Assert(len(list) == len(want), "ReadDirN: all entries")
	}
	for _, de := range list {
		isChild(de, want, "ReadDirN")
	}
	sorted(list, "ReadDirN")
	sym.Reach("end")
}

// C15_open: what can be opened and asked for.
func C15_open() {
	names := someTree(1, 3, 5)
	conflict(names)
	pkg := tree(names)
	pkg.Tagger = nul{}
	dir, prefix := someDir(names, 5)
	file := -1
	for i, n := range names {
		if n == slash(dir) {
			file = i
		}
	}
	sym.Assume(slash(dir) != wpk.PackName)
	isdir := len(children(names, prefix)) > 0
	f, err := pkg.Open(dir)
	st, err2 := pkg.Stat(dir)
	if file >= 0 {
		must(err, "file opens")
		must(err2, "file has info")
		fi, err := f.Stat()
		sym.Assert(err == nil && !fi.IsDir() && fi.Size() == int64(10+file), "info of an opened file")
		sym.Assert(!st.IsDir() && st.Size() == int64(10+file), "info of a file")
		sym.Reach("file")
		return
	}
	if isdir {
		must(err, "directory opens")
		must(err2, "directory has info")
		fi, err := f.Stat()
		sym.Assert(err == nil && fi.IsDir() && fi.Mode().IsDir(), "info of an opened directory")
		sym.Assert(st.IsDir() && st.Mode().IsDir(), "info of a directory")
		sym.Assert(fi.Name() == st.Name(), "name of a directory")
		base := slash(dir)
		base = base[strings.LastIndexByte(base, '/')+1:]
		sym.Assert(base == "" || fi.Name() == base, "name of a directory is its last element")
		sym.Reach("dir")
		return
	}
	sym.Assert(errors.Is(err, fs.ErrNotExist), "nothing else opens")
	sym.Assert(errors.Is(err2, fs.ErrNotExist), "nothing else has info")
	sym.Reach("none")
}

// nul opens every file as an empty one.
type nul struct{}

type nulFile struct {
	*strings.Reader
	ts wpk.TagsetRaw
}

func (f nulFile) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f nulFile) Close() error               { return nil }

func (nul) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return nulFile{strings.NewReader(""), ts}, nil
}
func (nul) Close() error { return nil }
