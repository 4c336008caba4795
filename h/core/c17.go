package core

import (
	"errors"
	"io"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// layer is a package of a union with the names that are seen in it.
type layer struct {
	names []string
	view  string // the names are below it
}

// numbered opens files with content made of the number of the package and of the file.
type numbered struct {
	n      int
	closed *int
	err    error
}

func (t numbered) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	off, _ := ts.TagUint(wpk.TIDoffset)
	return nulFile{strings.NewReader(string([]byte{byte(t.n), byte(off)})), ts}, nil
}

func (t numbered) Close() error {
	*t.closed++
	return t.err
}

// union makes a union of packages.
func union(list []layer, closed *int) *wpk.Union {
	u := new(wpk.Union)
	for i, l := range list {
		full := wpk.NewPackage()
		full.Tagger = numbered{i, closed, nil}
		for k, name := range l.names {
			full.SetTagset(l.view+name, wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(uint(70+k))).
				Put(wpk.TIDsize, wpk.UintTag(2)).Put(wpk.TIDpath, wpk.StrTag(l.view+name)))
		}
		pkg := full
		if l.view != "" {
			full.SetTagset("out", full.BaseTagset(64, 1, "out"))
			var err error
			pkg, err = sub(full, l.view[:len(l.view)-1])
			must(err, "view")
		}
		u.List = append(u.List, pkg)
	}
	return u
}

// firstOf is the first package with a file, and the file's number.
func firstOf(list []layer, name string) (int, int) {
	for i, l := range list {
		for k, n := range l.names {
			if n == name {
				return i, k
			}
		}
	}
	return -1, -1
}

// merged is the distinct names of all packages.
func merged(list []layer) (names []string) {
	for _, l := range list {
		for _, n := range l.names {
			dup := false
			for _, o := range names {
				if o == n {
					dup = true
				}
			}
			if !dup {
				names = append(names, n)
			}
		}
	}
	return
}

// layers are two or three packages with symbolic names.
func layers() (list []layer) {
	third := sym.Tier() > 0 && sym.Bool("third")
	lens := [][]int{{3, 1}, {3, 3}}
	if third {
		lens = [][]int{{3}, {3, 1}, {3}}
	}
	views := sym.Bool("views")
	for i, ls := range lens {
		var l layer
		for k, n := range ls {
			name := cleanName(string([]byte{byte('a' + i), byte('0' + k)}), n)
			for _, o := range l.names {
				sym.Assume(o != name)
			}
			l.names = append(l.names, name)
		}
		if views && i != 1 {
			l.view = []string{"v/", "", "w/"}[i]
		}
		list = append(list, l)
	}
	conflict(merged(list))
	return
}

// C17_lookup: every lookup gives the file of the first package.
func C17_lookup() {
	closed := 0
	list := layers()
	u := union(list, &closed)
	dir, prefix := someDir(nil, 3)
	path := slash(dir)
	sym.Assume(path != wpk.PackName)
	pi, fi := firstOf(list, path)
	kids := children(merged(list), prefix)
	st, err := u.Stat(dir)
	f, err2 := u.Open(dir)
	b, err3 := u.ReadFile(dir)
	switch {
	case pi >= 0:
		must(err, "file has info")
		must(err2, "file opens")
		must(err3, "file is read")
		off, _ := st.Sys().(wpk.TagsetRaw).TagUint(wpk.TIDoffset)
		sym.Assert(!st.IsDir() && off == uint(70+fi), "info is of the first package")
		data, err := io.ReadAll(f)
		must(err, "opened file is read")
		want := []byte{byte(pi), byte(70 + fi)}
		sym.Assert(string(data) == string(want), "opened file is of the first package")
		sym.Assert(string(b) == string(want), "read file is of the first package")
		if pi > 0 {
			sym.Reach("second")
		}
		sym.Reach("file")
	case len(kids) > 0:
		must(err, "directory has info")
		must(err2, "directory opens")
		sym.Assert(st.IsDir(), "info of a directory")
		fi, err := f.Stat()
		sym.Assert(err == nil && fi.IsDir(), "opened directory")
		sym.Assert(err3 != nil, "a directory is not read as a file")
		sym.Reach("dir")
	default:
		sym.Assert(errors.Is(err, fs.ErrNotExist), "no info of an unknown name")
		sym.Assert(errors.Is(err2, fs.ErrNotExist), "an unknown name does not open")
		sym.Assert(errors.Is(err3, fs.ErrNotExist), "an unknown name is not read")
		sym.Reach("none")
	}
	must(u.Close(), "union closes")
	sym.Assert(closed == len(list), "every package is closed")
}

// C17_keys: enumeration.
func C17_keys() {
	sym.MapOrder(true)
	closed := 0
	list := layers()
	u := union(list, &closed)
	want := merged(list)
	got := u.AllKeys()
	sym.Assert(len(got) == len(want), "every name once")
	for i := range want {
		if i < len(got) {
			sym.Assert(sym.EqStr(got[i], want[i]), "names of the packages in order")
		}
	}
	glob, err := u.Glob("*/*")
	must(err, "glob")
	n := 0
	for _, w := range want {
		if strings.IndexByte(w, '/') >= 0 { // a clean name of at most 3 bytes
			sym.Assert(n < len(glob) && glob[n] == w, "matching names once")
			n++
		}
	}
	sym.Assert(len(glob) == n, "no other names")
	sym.Reach("end")
}

// unionEntries demands that entries are of the first package.
func unionEntries(des []fs.DirEntry, list []layer, kids []child, prefix, what string) {
	for _, de := range des {
		hit := false
		for _, c := range kids {
			if c.name == de.Name() {
				hit = true
				sym.Assert(de.IsDir() == c.dir, what+": kind of entry")
				if !c.dir {
					_, fi := firstOf(list, prefix+c.name)
					ts, err := de.Info()
					must(err, "info of entry")
					off, _ := ts.Sys().(wpk.TagsetRaw).TagUint(wpk.TIDoffset)
					pi, _ := firstOf(list, prefix+c.name)
					p, _ := ts.Sys().(wpk.TagsetRaw).TagStr(wpk.TIDpath)
					sym.Assert(off == uint(70+fi) && p == list[pi].view+prefix+c.name, what+": entry is of the first package")
				}
			}
		}
		sym.Assert(hit, what+": nothing else")
	}
	sorted(des, what)
}

// C17_list: directories show the merged children.
func C17_list() {
	sym.MapOrder(true)
	closed := 0
	list := layers()
	u := union(list, &closed)
	dir, prefix := someDir(nil, 1)
	kids := children(merged(list), prefix)
	l, err := u.ReadDir(dir)
	if len(kids) == 0 {
		sym.Assert(errors.Is(err, fs.ErrNotExist), "an unknown directory is an error")
		sym.Reach("none")
		return
	}
	must(err, "directory is listed")
	sym.Assert(len(l) == len(kids), "every child once")
	unionEntries(l, list, kids, prefix, "ReadDir")
	n := sym.Int("n")
	sym.Assume(n > 0)
	l, err = u.ReadDirN(dir, n)
	sym.Assert(err == nil || err == io.EOF, "limited listing")
	sym.Assert(len(l) <= n && (len(l) == n || len(l) == len(kids)), "at most n entries")
	unionEntries(l, list, kids, prefix, "ReadDirN")
	f, err := u.Open(dir)
	must(err, "directory opens")
	d := f.(fs.ReadDirFile)
	l, err = d.ReadDir(n)
	sym.Assert(err == nil && len(l) <= n && len(l) > 0, "opened directory is read")
	_ = append(l, nil, nil) // it is the caller's own
	l2, err := d.ReadDir(-1)
	sym.Assert(err == nil && len(l)+len(l2) == len(kids), "and then the rest")
	unionEntries(append(append([]fs.DirEntry{}, l...), l2...), list, kids, prefix, "opened")
	l, err = d.ReadDir(1)
	sym.Assert(len(l) == 0 && err == io.EOF, "and then the end")
	sym.Reach("end")
}

// C17_sub: a view of a union is the union of the views.
func C17_sub() {
	closed := 0
	list := layers()
	u := union(list, &closed)
	dir := cleanName("dir", 1)
	var below []layer
	for _, l := range list {
		var b layer
		for _, n := range l.names {
			if strings.HasPrefix(n, dir+"/") {
				b.names = append(b.names, n[2:])
			}
		}
		if len(b.names) > 0 {
			below = append(below, b)
		}
	}
	s, err := u.Sub(dir)
	if len(below) == 0 {
		sym.Assert(errors.Is(err, fs.ErrNotExist), "no view of a directory without files")
		sym.Reach("none")
		return
	}
	must(err, "view")
	v := s.(*wpk.Union)
	sym.Assert(len(v.List) == len(below), "packages with the directory")
	want := merged(below)
	got := v.AllKeys()
	sym.Assert(len(got) == len(want), "names below the directory")
	for i := range want {
		if i < len(got) {
			sym.Assert(sym.EqStr(got[i], want[i]), "relative names")
		}
	}
	rel := cleanName("rel", 1)
	st1, err1 := u.Stat(dir + "/" + rel)
	st2, err2 := v.Stat(rel)
	sym.Assert((err1 == nil) == (err2 == nil), "the same names are known")
	if err1 == nil {
		sym.Assert(sym.EqBytes(st1.Sys().(wpk.TagsetRaw), st2.Sys().(wpk.TagsetRaw)), "the same file")
		b1, e1 := u.ReadFile(dir + "/" + rel)
		b2, e2 := v.ReadFile(rel)
		sym.Assert(e1 == nil && e2 == nil && string(b1) == string(b2), "the same content")
		sym.Reach("file")
	}
	l1, err1 := u.ReadDir(dir)
	l2, err2 := v.ReadDir(".")
	sym.Assert(err1 == nil && err2 == nil && len(l1) == len(l2), "the same listing")
	for i := range l1 {
		sym.Assert(l1[i].Name() == l2[i].Name() && l1[i].IsDir() == l2[i].IsDir(), "the same entries")
	}
	f, err := v.Open(".")
	must(err, "root of the view opens")
	l3, err := f.(fs.ReadDirFile).ReadDir(0)
	sym.Assert(err == nil && len(l3) == len(l1), "root of the view is listed")
	sym.Reach("end")
}

// C17_empty: a union of nothing, and closing with errors.
func C17_empty() {
	u := new(wpk.Union)
	name := string(sym.Bytes("name", sym.IntRange("len", 0, 3)))
	_, err := u.Open(name)
	sym.Assert(errors.Is(err, fs.ErrNotExist), "nothing opens")
	_, err = u.Stat(name)
	sym.Assert(errors.Is(err, fs.ErrNotExist), "nothing has info")
	_, err = u.ReadFile(name)
	sym.Assert(errors.Is(err, fs.ErrNotExist), "nothing is read")
	_, err = u.Sub(name)
	sym.Assert(errors.Is(err, fs.ErrNotExist), "no view")
	sym.Assert(len(u.AllKeys()) == 0, "no names")
	must(u.Close(), "closes")
	closed := 0
	bad := sym.IntRange("bad", 0, 2)
	for i := 0; i < 3; i++ {
		p := wpk.NewPackage()
		t := numbered{i, &closed, nil}
		if i == bad {
			t.err = errIO
		}
		p.Tagger = t
		u.List = append(u.List, p)
	}
	sym.Assert(errors.Is(u.Close(), errIO), "an error on closing is reported")
	sym.Assert(closed == 3, "every package is closed all the same")
	sym.Reach("end")
}

// C17_pack: references to the packages of a union.
func C17_pack() {
	closed := 0
	u := union([]layer{{names: []string{"a"}}, {names: []string{"a", "b"}}}, &closed)
	if sym.Bool("view") {
		// a view of a directory with the reserved name is an ordinary one
		p := wpk.NewPackage()
		p.Tagger = numbered{7, &closed, nil}
		p.SetTagset("@pack/0", p.BaseTagset(70, 2, "@pack/0"))
		p.SetTagset("@pack/x", p.BaseTagset(71, 2, "@pack/x"))
		v, err := sub(p, "@pack")
		must(err, "view")
		u = &wpk.Union{List: []*wpk.Package{v}}
		name := string(sym.Bytes("name", 1))
		sym.Assume(name != "." && name != "/" && name != "\\")
		f, err := u.Open(name)
		sym.Assert((err == nil) == (name == "0" || name == "x"), "files of the view open")
		if err == nil {
			sym.Assert(!tagsOf(f).IsDir(), "a file")
		}
		sym.Reach("view")
		return
	}
	s := string(sym.Bytes("num", sym.IntRange("len", 0, 3)))
	f, err := u.Open("@pack/" + s)
	ok := s == "0" || s == "1" || s == "00" || s == "01" || s == "000" || s == "001"
	sym.Assert((err == nil) == ok, "packages are referred to by number")
	if ok {
		b, err := io.ReadAll(f)
		must(err, "package is read")
		sym.Assert(b[0] == s[len(s)-1]-'0', "the package with this number")
		sym.Reach("end")
	}
}

// C17_many: unions of more files than a few.
func C17_many() {
	n := []int{2, 300, 1100, 2500}[sym.IntRange("n", 0, 3)]
	var lists [2]*wpk.Package
	name := func(i int) string {
		return "d" + string(rune('0'+i%7)) + "/" + string([]byte{byte('a' + i/676%26), byte('a' + i/26%26), byte('a' + i%26)})
	}
	for k := range lists {
		lists[k] = wpk.NewPackage()
		for i := 0; i < n; i++ {
			j := i + k*(n/2) // a half is shared
			lists[k].SetTagset(name(j), lists[k].BaseTagset(uint(k), uint(j), name(j)))
		}
	}
	u := &wpk.Union{List: lists[:]}
	total := n + n/2
	keys := u.AllKeys()
	sym.Assert(len(keys) == total, "every name once")
	got, err := u.Glob("d*/???")
	must(err, "names are found")
	sym.Assert(len(got) == total, "every name is found once")
	seen := map[string]bool{}
	for i := range keys {
		sym.Assert(!seen[keys[i]], "every name once")
		seen[keys[i]] = true
	}
	for _, g := range got {
		sym.Assert(seen[g], "every name is found")
	}
	sum := 0
	for k := 0; k < 7; k++ {
		des, err := u.ReadDir("d" + string(rune('0'+k)))
		if err == nil {
			sum += len(des)
		}
		for i := 1; i < len(des); i++ {
			sym.Assert(des[i-1].Name() < des[i].Name(), "listing is sorted, every name once")
		}
	}
	sym.Assert(sum == total, "every file is listed once")
	for _, j := range []int{0, n/2 - 1, n / 2, n - 1, n, total - 1, total} {
		fi, err := u.Stat(name(j))
		sym.Assert((err == nil) == (j < total), "what is there is found")
		if err == nil {
			sym.Assert(fi.Size() == int64(j), "info of the file")
			off, _ := fi.(wpk.TagsetRaw).Pos()
			sym.Assert(off == 0 == (j < n), "the file of the first package")
		}
	}
	sym.Reach("end")
}
