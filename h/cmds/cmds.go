package cmds

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"sort"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

func must(err error, what string) {
	if err != nil {
		sym.Fail(what)
		panic(what)
	}
}

// entry is a file or a directory.
type entry struct {
	path string
	dir  bool
	data []byte
}

// list gives all that is below a directory, except below one of its parts.
func list(dir, except string) (res []entry) {
	des, err := os.ReadDir(dir)
	must(err, "directory is read")
	for _, de := range des {
		p := dir + "/" + de.Name()
		if p == except {
			continue
		}
		if de.IsDir() {
			res = append(res, entry{path: p, dir: true})
			res = append(res, list(p, except)...)
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = nil // a dangling link
		}
		res = append(res, entry{path: p, data: b})
	}
	return
}

// same demands that two lists are equal.
func same(a, b []entry, what string) {
	sym.Assert(len(a) == len(b), what)
	for i := range a {
		if i < len(b) {
			sym.Assert(a[i].path == b[i].path && a[i].dir == b[i].dir && sym.EqBytes(a[i].data, b[i].data), what)
		}
	}
}

func mkdir(path string) { must(os.MkdirAll(path, 0755), "directory is made") }

func write(path string, data []byte) { must(os.WriteFile(path, data, 0644), "file is written") }

// file is a file of a package.
type file struct {
	name string
	data []byte
	tags func(wpk.TagsetRaw) wpk.TagsetRaw
}

// build makes a package and gives the path for the tool.
func build(path string, split bool, files ...file) string {
	pkg := wpk.NewPackage()
	tags, data := path, path
	var wpt, wpf *os.File
	var f2 io.WriteSeeker
	var err error
	if split {
		tags, data = wpk.MakeTagsPath(path), wpk.MakeDataPath(path)
	}
	wpt, err = os.Create(tags)
	must(err, "package is made")
	w := wpt
	if split {
		wpf, err = os.Create(data)
		must(err, "package is made")
		w, f2 = wpf, wpf
	}
	must(pkg.Begin(wpt, f2), "package is begun")
	for _, f := range files {
		ts, err := pkg.PackData(w, bytes.NewReader(f.data), f.name)
		must(err, "file is packed")
		if f.tags != nil {
			pkg.SetTagset(f.name, f.tags(ts))
		}
	}
	must(pkg.Sync(wpt, f2), "package is finalised")
	must(wpt.Close(), "package is closed")
	if split {
		must(wpf.Close(), "package is closed")
	}
	return tags
}

// modes of opening packages.
var modes = []string{"bulk", "mmap", "fsys"}

func some(what string, max int) []byte { return sym.Bytes(what, sym.IntRange(what+".len", 0, max)) }

// names gives the regular files below a directory by relative name, sorted.
func names(fsys fs.FS) (res []string) {
	var walk func(dir string)
	walk = func(dir string) {
		des, err := fs.ReadDir(fsys, dir)
		must(err, "directory is read")
		for _, de := range des {
			p := de.Name()
			if dir != "." {
				p = dir + "/" + p
			}
			if de.IsDir() {
				walk(p)
			} else {
				res = append(res, p)
			}
		}
	}
	walk(".")
	sort.Strings(res)
	return
}
