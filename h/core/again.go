package core

import (
	"errors"
	"io"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// What was asked for is asked for again after a change.

// item is a file with its size.
type item struct {
	name string
	size int
}

// sized opens files whose bytes are their size.
type sized struct{}

func (sized) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	n := int(ts.Size())
	return nulFile{strings.NewReader(strings.Repeat(string(rune(n)), n)), ts}, nil
}

func (sized) Close() error { return nil }

// filled makes a package of files.
func filled(items []item) *wpk.Package {
	pkg := wpk.NewPackage()
	pkg.Tagger = sized{}
	for _, f := range items {
		pkg.SetTagset(f.name, pkg.BaseTagset(64, uint(f.size), f.name))
	}
	return pkg
}

func has(items []item, name string) int {
	for i, f := range items {
		if f.name == name {
			return i
		}
	}
	return -1
}

// change makes one change of a package and of the list of its files.
func change(pkg *wpk.Package, was []item, what string) []item {
	list := append([]item{}, was...)
	i := sym.IntRange(what+".file", 0, len(list)-1)
	name := list[i].name
	switch sym.IntRange(what, 0, 6) {
	case 0: // a new file
		pkg.SetTagset("d/n", pkg.BaseTagset(64, 50, "d/n"))
		if k := has(list, "d/n"); k >= 0 {
			list[k].size = 50
		} else {
			list = append(list, item{"d/n", 50})
		}
	case 1:
		_, ok := pkg.DelTagset(name)
		sym.Assert(ok, "file is deleted")
		list = append(list[:i:i], list[i+1:]...)
	case 2:
		to := oneOf(what+".to", "d/r", "r", "d/s/r")
		sym.Assume(has(list, to) < 0)
		must(pkg.Rename(name, to), "file is renamed")
		list[i].name = to
	case 3:
		_, err := pkg.RenameDir("d", "e", false)
		must(err, "directory is renamed")
		for k := range list {
			if strings.HasPrefix(list[k].name, "d/") {
				list[k].name = "e/" + list[k].name[2:]
			}
		}
	case 4: // other content of the same name
		pkg.SetTagset(name, pkg.BaseTagset(64, 60, name))
		list[i].size = 60
	case 5: // the same, by two steps
		_, ok := pkg.DelTagset(name)
		sym.Assert(ok, "file is deleted")
		pkg.SetTagset(name, pkg.BaseTagset(64, 70, name))
		list[i].size = 70
	case 6:
		sym.Assume(has(list, "d/q") < 0)
		must(pkg.PutAlias(name, "d/q"), "alias is put")
		list = append(list, item{"d/q", list[i].size})
	}
	return list
}

var places = []string{".", "d", "d/s", "e", "d/a", "b", "d/r", "none", "r", "d/n"}

// whole is what packages, views and unions have.
type whole interface {
	fs.StatFS
	fs.ReadDirFS
	fs.ReadFileFS
	fs.GlobFS
}

// picked gives the whole list, or one of it.
func picked(list []string, only int) []string {
	if only < 0 {
		return list
	}
	return list[only%len(list) : only%len(list)+1]
}

// lists demands that directories are as the names of files say.
func lists(v whole, list []item, only int) {
	var names []string
	for _, f := range list {
		names = append(names, f.name)
	}
	for _, dir := range picked(places, only) {
		prefix := dir + "/"
		if dir == "." {
			prefix = ""
		}
		kids := children(names, prefix)
		des, err := v.ReadDir(dir)
		var des2 []fs.DirEntry
		f, err2 := v.Open(dir)
		if err2 == nil {
			d, ok := f.(fs.ReadDirFile)
			sym.Assert(ok == (has(list, dir) < 0), "directories open as directories")
			if ok {
				des2, err2 = d.ReadDir(-1)
			} else {
				sym.Assert(has(list, dir) >= 0, "file opens")
				continue
			}
		}
		if len(kids) == 0 && dir != "." {
			sym.Assert(errors.Is(err, fs.ErrNotExist) && errors.Is(err2, fs.ErrNotExist), "a directory that is not there is not listed")
			continue
		}
		if len(kids) == 0 {
			sym.Assert(len(des) == 0 && len(des2) == 0, "nothing is listed")
			continue
		}
		must(err, "directory is listed")
		must(err2, "opened directory is listed")
		sym.Assert(len(des) == len(kids) && len(des2) == len(kids), "every child is listed once")
		for _, c := range kids {
			for k, l := range [][]fs.DirEntry{des, des2} {
				hit := false
				for _, de := range l {
					if de.Name() == c.name {
						hit = true
						fi, err := de.Info()
						sym.Assert(err == nil && de.IsDir() == c.dir, "kind of entry")
						sym.Assert(c.dir || fi.Size() == int64(list[c.of].size), "size of entry")
					}
				}
				sym.Assert(hit, "every child is listed: "+[]string{"read", "opened"}[k])
			}
		}
		for i := range des { // it is the caller's own
			des[i] = nil
		}
	}
}

// finds demands that files are found by their names.
func finds(v whole, list []item, only int) {
	for _, name := range picked(places, only) {
		i := has(list, name)
		dir := name == "."
		for _, f := range list {
			dir = dir || strings.HasPrefix(f.name, name+"/")
		}
		fi, err := v.Stat(name)
		sym.Assert((err == nil) == (i >= 0 || dir), "info of what is there")
		if err == nil {
			sym.Assert(fi.IsDir() == (i < 0), "kind of file")
			sym.Assert(i < 0 || fi.Size() == int64(list[i].size), "size of file")
		}
		f, err := v.Open(name)
		sym.Assert((err == nil) == (i >= 0 || dir), "what is there can be opened")
		if i >= 0 && err == nil {
			b, err := io.ReadAll(f)
			must(err, "file is read")
			sym.Assert(string(b) == strings.Repeat(string(rune(list[i].size)), list[i].size), "content of opened file")
		}
	}
}

// reads demands the contents of files, and changes what was given.
func reads(v whole, list []item, only int) {
	for _, name := range picked(places, only) {
		i := has(list, name)
		b, err := v.ReadFile(name)
		sym.Assert((err == nil) == (i >= 0), "what is there is read")
		if i >= 0 && err == nil {
			sym.Assert(string(b) == strings.Repeat(string(rune(list[i].size)), list[i].size), "content of file")
			for k := range b { // it is the caller's own
				b[k] = 0
			}
			_ = append(b, 1, 2, 3)
		} else {
			sym.Assert(errors.Is(err, fs.ErrNotExist), "what is not there is not read")
		}
	}
}

// globs demands that names are found by patterns.
func globs(v whole, list []item, only int) {
	var names []string
	for _, f := range list {
		names = append(names, f.name)
	}
	for _, p := range picked([]string{"*", "d/*", "?", "d/a", "*/*", "*/*/*", "b"}, only) {
		got, err := v.Glob(p)
		globbed(got, err, p, names)
	}
}

// again looks, makes one or two changes with looks between, for packages.
func again(look func(whole, []item, int)) {
	list := []item{{"d/a", 10}, {"b", 11}, {"d/s/c", 12}}
	pkg := filled(list)
	only := sym.IntRange("only", -1, len(places)-1) // all places, or the same one every time
	look(pkg, list, only)
	n := 1 + sym.IntRange("two", 0, 1)
	for i := 0; i < n; i++ {
		sym.Assume(len(list) > 0)
		list = change(pkg, list, "change"+string(rune('0'+i)))
		look(pkg, list, only)
	}
	sym.Reach("end")
}

// below gives files of a view.
func below(list []item, dir string) (res []item) {
	for _, f := range list {
		if strings.HasPrefix(f.name, dir+"/") {
			res = append(res, item{f.name[len(dir)+1:], f.size})
		}
	}
	return
}

// C15_again: directories after changes.
func C15_again() { again(lists) }

// C19_again: contents after changes.
func C19_again() { again(reads) }

// C31_again: patterns after changes.
func C31_again() { again(globs) }

// C16_again: a view after changes of the package.
func C16_again() {
	list := []item{{"x/d/a", 10}, {"b", 11}, {"x/d/s/c", 12}, {"x/b", 13}}
	pkg := filled(list)
	v, err := sub(pkg, "x")
	must(err, "view")
	seen := below(list, "x")
	only := sym.IntRange("only", -1, 6)
	all := func() {
		for _, look := range []func(whole, []item, int){lists, finds, reads, globs} {
			look(v, seen, only)
		}
		i := 0
		v.Enum(func(name string, ts wpk.TagsetRaw) bool {
			k := has(seen, name)
			sym.Assert(k >= 0 && ts.Size() == int64(seen[k].size), "files of the directory are enumerated")
			i++
			return true
		})
		sym.Assert(i == len(seen), "every file is enumerated")
	}
	all()
	switch sym.IntRange("at", 0, 1) {
	case 0: // through the view
		seen = change(v, seen, "change")
	case 1: // in the package
		name := oneOf("name", "x/d/a", "x/b", "b")
		to := oneOf("to", "x/r", "r", "x/d/r", "xx/r")
		must(pkg.Rename(name, to), "file is renamed")
		list[has(list, name)].name = to
		seen = below(list, "x")
	}
	all()
	sym.Reach("end")
}

// C17_again: a union after changes of its packages.
func C17_again() {
	lists2 := [][]item{{{"d/a", 10}, {"b", 11}}, {{"d/a", 20}, {"d/s/c", 21}, {"b2", 22}}}
	u := &wpk.Union{List: []*wpk.Package{filled(lists2[0]), filled(lists2[1])}}
	seen := func() (list []item) {
		for _, l := range lists2 {
			for _, f := range l {
				if has(list, f.name) < 0 {
					list = append(list, f)
				}
			}
		}
		return
	}
	only := sym.IntRange("only", -1, 2) // all places, or the same one every time
	all := func() {
		list := seen()
		for _, look := range []func(whole, []item, int){lists, finds, reads, globs} {
			look(u, list, only)
		}
		keys := u.AllKeys()
		sym.Assert(len(keys) == len(list), "every name once")
		for _, f := range list {
			hit := false
			for _, k := range keys {
				hit = hit || k == f.name
			}
			sym.Assert(hit, "every name")
		}
	}
	all()
	n := 1 + sym.IntRange("two", 0, sym.Tier())
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		at := sym.IntRange("at"+s, 0, 1)
		switch sym.IntRange("kind"+s, 0, 3) {
		case 0:
			sym.Assume(len(lists2[at]) > 0)
			lists2[at] = change(u.List[at], lists2[at], "change"+s)
		case 1: // a file of the other one appears
			name := oneOf("name"+s, "d/s/c", "b2", "b")
			u.List[at].SetTagset(name, u.List[at].BaseTagset(64, 30, name))
			if k := has(lists2[at], name); k >= 0 {
				lists2[at][k].size = 30
			} else {
				lists2[at] = append(lists2[at], item{name, 30})
			}
		case 2: // the order is changed
			u.List[0], u.List[1] = u.List[1], u.List[0]
			lists2[0], lists2[1] = lists2[1], lists2[0]
		case 3: // one more package
			l := []item{{"b2", 40}, {"e/x", 41}}
			u.List = append([]*wpk.Package{filled(l)}, u.List...)
			lists2 = append([][]item{l}, lists2...)
		}
		// no name of a file and of a directory
		var names []string
		for _, f := range seen() {
			names = append(names, f.name)
		}
		conflict(names)
		all()
	}
	sym.Reach("end")
}
