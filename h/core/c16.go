package core

import (
	"bytes"
	"errors"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// tagFile tells which file was opened.
func tagsOf(f fs.File) wpk.TagsetRaw {
	fi, err := f.Stat()
	must(err, "info of opened file")
	return fi.Sys().(wpk.TagsetRaw)
}

// sub is a view of a directory of a package.
func sub(pkg *wpk.Package, dir string) (*wpk.Package, error) {
	s, err := pkg.Sub(dir)
	if err != nil {
		return nil, err
	}
	return s.(*wpk.Package), nil
}

// looks demands that a view of a prefix shows what is below the prefix.
func looks(pkg, view *wpk.Package, names []string, prefix string) {
	var below []string
	for _, n := range names {
		if strings.HasPrefix(n, prefix) {
			below = append(below, n)
		}
	}
	i := 0
	view.Enum(func(rel string, ts wpk.TagsetRaw) bool {
		sym.Assert(i < len(below), "no more files are enumerated")
		sym.Assert(sym.EqStr(prefix+rel, below[i]), "files below the directory are enumerated")
		full, ok := pkg.GetTagset(below[i])
		sym.Assert(ok && sym.EqBytes(full, ts), "with their tags")
		i++
		return true
	})
	sym.Assert(i == len(below), "every file below the directory is enumerated")
	i = 0
	view.Enum(func(string, wpk.TagsetRaw) bool {
		i++
		return false
	})
	sym.Assert(i == 1, "enumeration stops when told")
}

// same results for a relative name in a view and a full name in the package.
func sameLook(pkg, view *wpk.Package, full, rel string) {
	a, ok1 := pkg.GetTagset(full)
	b, ok2 := view.GetTagset(rel)
	sym.Assert(ok1 == ok2 && sym.EqBytes(a, b), "lookup")
	sym.Assert(view.HasTagset(rel) == ok1, "presence")
	fi1, err1 := pkg.Stat(full)
	fi2, err2 := view.Stat(rel)
	sym.Assert((err1 == nil) == (err2 == nil), "info exists for the same names")
	if err1 == nil {
		sym.Assert(fi1.Size() == fi2.Size() && fi1.IsDir() == fi2.IsDir() && fi1.Name() == fi2.Name(), "info")
	} else {
		sym.Assert(errors.Is(err2, fs.ErrNotExist), "no info is a not-exist error")
	}
	f1, err1 := pkg.Open(full)
	f2, err2 := view.Open(rel)
	sym.Assert((err1 == nil) == (err2 == nil), "the same names open")
	if err1 == nil {
		st1, _ := f1.Stat()
		st2, _ := f2.Stat()
		sym.Assert(st1.Size() == st2.Size() && st1.IsDir() == st2.IsDir() && st1.Name() == st2.Name(), "opened file")
		sym.Reach("opened")
	} else {
		sym.Assert(errors.Is(err2, fs.ErrNotExist), "not opened is a not-exist error")
	}
	l1, err1 := pkg.ReadDir(full)
	l2, err2 := view.ReadDir(rel)
	sym.Assert((err1 == nil) == (err2 == nil) && len(l1) == len(l2), "the same directories are listed")
	for i := range l1 {
		sym.Assert(l1[i].Name() == l2[i].Name() && l1[i].IsDir() == l2[i].IsDir(), "directory entries")
	}
	if len(l1) > 0 {
		sym.Reach("listed")
	}
	b1, err1 := pkg.ReadFile(full)
	b2, err2 := view.ReadFile(rel)
	sym.Assert((err1 == nil) == (err2 == nil) && sym.EqBytes(b1, b2), "the same files are read")
}

// C16_view: what a view shows.
func C16_view() {
	last := 3
	if sym.Tier() > 0 {
		last = 5
	}
	names := someTree(3, 5, last)
	conflict(names)
	pkg := tree(names)
	pkg.Tagger = nul{}
	dir, prefix := someDir(names, 3)
	n := 0
	for _, name := range names {
		if strings.HasPrefix(name, prefix) {
			n++
		}
	}
	view, err := sub(pkg, dir)
	if n == 0 {
		sym.Assert(errors.Is(err, fs.ErrNotExist), "no view of a directory without files")
		sym.Reach("none")
		return
	}
	must(err, "view of a directory with files")
	looks(pkg, view, names, prefix)
	rel := cleanName("rel", sym.IntRange("rel.len", 1, 3))
	sym.Assume(prefix+rel != wpk.PackName)
	sym.Assert(view.FullPath(rel) == prefix+rel, "full path")
	sym.Assert(view.TrimPath(prefix+rel) == rel, "trimmed path")
	sameLook(pkg, view, prefix+rel, rel)
	sym.Reach("end")
}

// C16_root: the root of a view is the directory.
func C16_root() {
	names := []string{"a/b/c", "a/d", "a/b/e/f", "ab/c", "b/c"}
	pkg := tree(names)
	pkg.Tagger = nul{}
	dir := []string{"a", "a/b", "a\\b"}[sym.IntRange("dir", 0, 2)]
	view, err := sub(pkg, dir)
	must(err, "view")
	root := []string{".", ""}[sym.IntRange("root", 0, 1)]
	sameLook(pkg, view, slash(dir), root)
	sym.Assert(view.TrimPath(slash(dir)) == ".", "trimmed directory")
	s := sym.Bytes("any", sym.IntRange("any.len", 0, 4))
	p := string(s)
	if p != slash(dir) && !strings.HasPrefix(p, slash(dir)+"/") {
		sym.Assert(view.TrimPath(p) == "", "a path outside has no relative form")
	}
	sym.Reach("end")
}

// C16_nested: a view of a view.
func C16_nested() {
	names := someTree(5, 7, 3)
	conflict(names)
	pkg := tree(names)
	pkg.Tagger = nul{}
	a, b := cleanName("outer", 1), cleanName("inner", 1)
	both, err := sub(pkg, a+"/"+b)
	outer, err1 := sub(pkg, a)
	if err1 != nil {
		sym.Assert(err != nil, "no inner view without an outer one")
		sym.Reach("noouter")
		return
	}
	inner, err2 := sub(outer, b)
	sym.Assert((err == nil) == (err2 == nil), "nested view exists if the direct one does")
	if err != nil {
		sym.Reach("none")
		return
	}
	looks(pkg, inner, names, a+"/"+b+"/")
	rel := cleanName("rel", 1)
	sameLook(both, inner, rel, rel)
	root := []string{".", ""}[sym.IntRange("root", 0, 1)]
	same, err := sub(inner, root)
	must(err, "view of the root")
	looks(pkg, same, names, a+"/"+b+"/")
	sym.Reach("end")
}

// C16_change: a change through a view is the change of the full name.
func C16_change() {
	m := some(3, 5, 1)
	dir := cleanName("dir", 1)
	pre := dir + "/"
	n := 0
	for _, f := range m.list {
		if strings.HasPrefix(f.name, pre) {
			n++
		}
	}
	sym.Assume(n > 0)
	w1, w2 := newMem(), newMem()
	w1.B, w2.B = make([]byte, 164), make([]byte, 164)
	w1.Pos, w2.Pos = 164, 164
	pkg := &wpk.Package{FTT: m.load(), Workspace: "."}
	whole := &wpk.Package{FTT: m.load(), Workspace: "."}
	view, err := sub(whole, dir)
	must(err, "view")
	a, b := arg("a", 1), arg("b", 1+2*sym.IntRange("b.long", 0, 1))
	var e1, e2 error
	switch sym.IntRange("op", 0, 6) {
	case 0:
		var t1, t2 wpk.TagsetRaw
		t1, e1 = pkg.PackData(w1, strings.NewReader("data"), pre+a)
		t2, e2 = view.PackData(w2, strings.NewReader("data"), a)
		sym.Assert(sym.EqBytes(t1, t2), "tags of a packed file")
	case 1:
		var t1, t2 wpk.TagsetRaw
		fi := &memInfo{size: 3}
		t1, e1 = pkg.PackFile(w1, &memFile{r: strings.NewReader("abc"), fi: fi}, pre+a)
		t2, e2 = view.PackFile(w2, &memFile{r: strings.NewReader("abc"), fi: fi}, a)
		sym.Assert(sym.EqBytes(t1, t2), "tags of a packed file")
	case 2:
		e1, e2 = pkg.Rename(pre+a, pre+b), view.Rename(a, b)
	case 3:
		e1, e2 = pkg.PutAlias(pre+a, pre+b), view.PutAlias(a, b)
	case 4:
		t1, ok1 := pkg.DelTagset(pre + a)
		t2, ok2 := view.DelTagset(a)
		sym.Assert(ok1 == ok2 && sym.EqBytes(t1, t2), "deleted tags")
	case 5:
		ts := pkg.BaseTagset(64, 7, pre+a)
		t2 := view.BaseTagset(64, 7, a)
		sym.Assert(sym.EqBytes(ts, t2), "tags of a new file")
		pkg.SetTagset(pre+a, ts)
		view.SetTagset(a, ts)
	case 6:
		var n1, n2 int
		skip := sym.Bool("skip")
		n1, e1 = pkg.RenameDir(pre+a, pre+b, skip)
		n2, e2 = view.RenameDir(a, b, skip)
		sym.Assert(n1 == n2, "number of renamed files")
	}
	sym.Assert((e1 == nil) == (e2 == nil), "both succeed or both fail")
	sym.Assert(errors.Is(e1, fs.ErrExist) == errors.Is(e2, fs.ErrExist), "same refusal")
	sym.Assert(errors.Is(e1, fs.ErrNotExist) == errors.Is(e2, fs.ErrNotExist), "same refusal")
	sym.Assert(bytes.Equal(w1.B, w2.B) && w1.Pos == w2.Pos, "same data is written")
	sym.Assert(pkg.DataSize() == whole.DataSize(), "same data size")
	f1, f2 := files(pkg.FTT), files(whole.FTT)
	sym.Assert(len(f1) == len(f2), "same number of files")
	for i := range f1 {
		sym.Assert(sym.And(sym.EqStr(f1[i].name, f2[i].name), sym.EqBytes(f1[i].ts, f2[i].ts)), "same files")
	}
	sym.Reach("end")
}

// C16_odd: enumeration of any names.
func C16_odd() {
	var names []string
	for i := 0; i < 3; i++ {
		s := string(rune('0' + i))
		name := string(sym.Bytes("name"+s, sym.IntRange("len"+s, 2, 4)))
		for j := 0; j < len(name); j++ {
			sym.Assume(name[j] != '\\')
		}
		for _, n := range names {
			sym.Assume(n != name)
		}
		names = append(names, name)
	}
	pkg := tree(names)
	pkg.Tagger = nul{}
	dir := cleanName("dir", 1)
	view, err := sub(pkg, dir)
	n := 0
	for _, name := range names {
		if strings.HasPrefix(name, dir+"/") {
			n++
		}
	}
	sym.Assert((err == nil) == (n > 0), "view of a directory with files")
	if err == nil {
		looks(pkg, view, names, dir+"/")
		sym.Reach("end")
	} else {
		sym.Reach("none")
	}
}
