package core

import (
	"bytes"
	"errors"
	"io/fs"
	"path"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

// Larger structures than those of the other harnesses, with fewer symbolic parts.

// forest is names with depth, common beginnings, dots and case.
var forest = []string{
	"readme.txt", "a", "ab/x", "a.b/x", "img/1.png", "img/2.png", "img/sub/3.png", "img/sub/deep/er/4.png",
	"img2/1.png", "IMG/1.png", "z/.hidden", "img/sub2/5", "im", "z/\u540d.txt", "img/sub/..x", "c d/e f",
	"very/long/path/of/directories/that/goes/down/ten/levels/file.tar.gz",
}

// blob is n bytes, three of them symbolic.
func blob(what string, n int) []byte {
	d := make([]byte, n)
	for i := 0; i < n; i += 97 {
		d[i] = byte(i)
	}
	if n > 0 {
		d[0], d[n/2], d[n-1] = sym.Uint8(what+"0"), sym.Uint8(what+"1"), sym.Uint8(what+"2")
	}
	return d
}

// oneOf is one of few strings.
func oneOf(what string, of ...string) string { return of[sym.IntRange(what, 0, len(of)-1)] }

// C06_many: edits of a long tag set.
func C06_many() {
	n := 20
	var list []ent
	for i := 0; i < n; i++ {
		b := make([]byte, (i*37)%300)
		for k := range b {
			b[k] = byte(i)
		}
		list = append(list, ent{wpk.TID(3 * i), b})
	}
	raw := encode(list)
	buf := append(make([]byte, 0, len(raw)+[]int{0, 3, 700}[sym.IntRange("cap", 0, 2)]), raw...)
	ts := wpk.TagsetRaw(buf)
	id := wpk.TID(sym.Uint16("id"))
	at := -1
	for i, e := range list {
		if e.id == id {
			at = i
		}
	}
	v := blob("v", []int{0, 1, 36, 37, 38, 255, 256, 300}[sym.IntRange("len", 0, 7)])
	want := append([]ent{}, list...)
	var ok bool
	switch sym.IntRange("op", 0, 2) {
	case 0:
		ts, ok = ts.SetOk(id, v)
		if at >= 0 {
			want[at].val = v
		} else {
			want = append(want, ent{id, v})
		}
		sym.Assert(ok == (at < 0), "set tells what happened")
	case 1:
		ts, ok = ts.AddOk(id, v)
		if at < 0 {
			want = append(want, ent{id, v})
		}
		sym.Assert(ok == (at < 0), "add tells what happened")
	case 2:
		ts, ok = ts.DelOk(id)
		if at >= 0 {
			want = append(append([]ent{}, want[:at]...), want[at+1:]...)
		}
		sym.Assert(ok == (at >= 0), "delete tells what happened")
	}
	sym.Assert(sym.EqBytes(ts, encode(want)), "exactly the asked tag is changed")
	sym.Assert(ts.Num() == len(want), "number of tags")
	sym.Reach("end")
}

// C09_count: many files.
func C09_count() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	w := begin(p)
	var want []packed
	n := 300
	big := sym.IntRange("big", 0, 3)
	for i := 0; i < n; i++ {
		name := "d" + string([]byte{'0' + byte(i%7)}) + "/" + strings.Repeat("n", i%5) + string([]byte{'0' + byte(i/100), '0' + byte(i/10%10), '0' + byte(i%10)})
		d := []byte{byte(i), byte(i >> 8)}[:i%3]
		if i == 137 {
			d = blob("data", []int{2, 70000, 131073, 1<<20 + 1}[big])
		}
		ts := w.pack(name, d)
		want = append(want, packed{name, d, ts})
	}
	w.sync()
	w.close()
	pkg := open(p, opener)
	sym.Assert(pkg.TagsetNum() == n, "all files are listed")
	i := 0
	pkg.Enum(func(name string, ts wpk.TagsetRaw) bool {
		sym.Assert(i < n && name == want[i].name && sym.EqBytes(ts, want[i].ts), "files in the order of packing with their tags")
		i++
		return true
	})
	sym.Assert(i == n, "all files are listed")
	for _, i := range []int{0, 1, 2, 136, 137, 138, 255, 256, 298, 299} {
		sym.Assert(sym.EqBytes(content(pkg, want[i].name), want[i].data), "content is read back")
	}
	must(pkg.Tagger.Close(), "opener is closed")
	sym.Reach("end")
}

// C10_long: many rounds of appending.
func C10_long() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	w := begin(p)
	info := wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag(strings.Repeat("l", 300)))
	w.SetInfo(info)
	var want []packed
	sizes := []int{5, 0, 300, 70000, 1, 4096, 0, 33000}
	rot := sym.IntRange("rot", 0, len(sizes)-1)
	for r := 0; r < 6; r++ {
		var data []byte
		if r > 0 {
			data = dataOf(p, headOf(p))
			w = reopen(p)
		}
		for k := 0; k <= r%3; k++ {
			name := forest[len(want)]
			d := blob(name, sizes[(len(want)+rot)%len(sizes)])
			ts := w.pack(name, d)
			if k == 1 {
				ts = wpk.CopyTagset(ts).Put(wpk.TIDcomment, wpk.StrTag(strings.Repeat("c", 260)))
				w.SetTagset(name, ts)
			}
			want = append(want, packed{name, d, wpk.CopyTagset(ts)})
		}
		w.sync()
		w.close()
		if r > 0 {
			now := dataOf(p, headOf(p))
			sym.Assert(len(now) >= len(data) && sym.EqBytes(now[:len(data)], data), "earlier data is not written over")
		}
	}
	verify(p, opener, info, want)
	sym.Reach("end")
}

// grown is a model of the names of the forest.
func grown() *model {
	m := new(model)
	for i, name := range forest {
		m.list = append(m.list, want{name, byte(64 + i), byte(i), []byte{byte(i)}})
	}
	return m
}

// C13_tree: directories of a larger tree are renamed.
func C13_tree() {
	m := grown()
	ftt := m.load()
	pkg := &wpk.Package{FTT: ftt, Workspace: "."}
	if sym.Bool("view") {
		pkg.Workspace, m.pre = "img", "img/"
	}
	for i := 0; i < 1+sym.Tier(); i++ {
		s := string(rune('0' + i))
		a := oneOf("old"+s, "", "img", "img/sub", "img/sub/", "im", "sub", "very\\long/path", "none", "sub/deep", "z")
		b := oneOf("new"+s, "", "new", "img2", "img/sub", "deep/new\\dir/", ".", "?", "sub")
		if b == "?" {
			c := sym.String("char"+s, 1)
			sym.Assume(sym.And(c[0] != '/', sym.And(c[0] != '\\', c[0] != '.')))
			b = "img" + c
		}
		skip := sym.Bool("skip" + s)
		n, werr := m.renameDir(a, b, skip)
		got, err := pkg.RenameDir(a, b, skip)
		same(err, werr, "renamedir")
		sym.Assert(got == n, "number of renamed files")
		m.check(ftt, "after")
	}
	m.survive(ftt)
	sym.Reach("end")
}

// C13_many: steps on names of a larger tree.
func C13_many() {
	m := grown()
	ftt := m.load()
	pkg := &wpk.Package{FTT: ftt, Workspace: "."}
	for i := 0; i < 2; i++ {
		s := string(rune('0' + i))
		a := oneOf("a"+s, "a", "img/sub/3.png", "img\\1.png", "new")
		b := oneOf("b"+s, "new", "img/1.png", "z\\.hidden", "deep/new/file.x")
		switch sym.IntRange("op"+s, 0, 2) {
		case 0:
			want := m.rename(a, b)
			same(pkg.Rename(a, b), want, "rename")
		case 1:
			want := m.alias(a, b)
			same(pkg.PutAlias(a, b), want, "alias")
		case 2:
			k := m.at(a)
			_, ok := pkg.DelTagset(a)
			sym.Assert(ok == (k >= 0), "delete reports whether there was a file")
			if k >= 0 {
				m.drop(k)
			}
		}
	}
	m.check(ftt, "after")
	m.survive(ftt)
	sym.Reach("end")
}

// C14_large: a map of many entries.
func C14_large() {
	var m util.SeqMap[string, int]
	m.Init(sym.IntRange("hint", 0, 1) * 10)
	r := new(refMap)
	n := 40
	if sym.Bool("more") {
		n = 300
	}
	for i := 0; i < n; i++ {
		k := string(rune('A' + i))
		m.Poke(k, i)
		r.list = append(r.list, kv{k, i})
	}
	if n == 40 {
		r.do(&m, 3, string(sym.Bytes("key", 1)), 0)
	} else {
		r.do(&m, 3, oneOf("key", "A", "C", string(rune('A'+150)), string(rune('A'+298)), string(rune('A'+299))), 0)
	}
	for i := 0; i < 2; i++ {
		s := string(rune('0' + i))
		r.do(&m, sym.IntRange("op"+s, 0, 4), oneOf("key"+s, "A", "T", string(rune('A'+n-1)), "new"), 100+i)
	}
	r.check(&m)
	sym.Reach("end")
}

// C14_drain: a map that grows and becomes empty again.
func C14_drain() {
	var m util.SeqMap[string, int]
	m.Init(16 * sym.IntRange("init", 0, 1))
	r := new(refMap)
	n := []int{2, 17, 65, 130}[sym.IntRange("n", 0, 3)]
	push := sym.IntRange("by", 0, 1)
	for i := 0; i < n; i++ {
		r.do(&m, push, string(rune('A'+i)), i)
	}
	left := []int{0, 1, 16, 33}[sym.IntRange("left", 0, 3)]
	sym.Assume(left < n)
	how := sym.IntRange("how", 0, 2)
	for i := 0; len(r.list) > left; i++ {
		switch how {
		case 0: // from the end
			r.do(&m, 2, "", 0)
		case 1: // from the start
			r.do(&m, 3, r.list[0].k, 0)
		case 2: // from the middle
			r.do(&m, 3, r.list[len(r.list)/2].k, 0)
		}
		if i%29 == 0 {
			r.check(&m)
		}
	}
	r.check(&m)
	// and is used further
	r.do(&m, sym.IntRange("op", 0, 4), oneOf("key", "A", string(rune('A'+n-1)), string(rune('A'+n/2)), "new"), 1000)
	for i := 0; i < 3; i++ {
		r.do(&m, push, string(rune('a'+i)), 2000+i)
	}
	r.check(&m)
	sym.Reach("end")
}

// nearPath is a path of the forest, a directory of it, or one with a symbolic character in place of another.
func nearPath() string {
	p := oneOf("path", "img", "img/sub", "img/sub/deep", "im", "img/1.png", "very/long/path/of/directories/that/goes/down/ten/levels", "z/\u540d.txt", "ab", "img/sub/deep/er/4.png", "c d")
	if sym.Bool("change") {
		i := sym.IntRange("i", 0, 8)
		sym.Assume(i < len(p))
		c := sym.Uint8("char")
		sym.Assume(sym.And(c < 0x80, p[i] < 0x80))
		b := []byte(p)
		b[i] = c
		p = string(b)
	}
	return p
}

// clean tells if a path has no empty and no dot elements.
func clean(p string) bool {
	for _, e := range strings.Split(slash(p), "/") {
		if e == "" || e == "." || e == ".." {
			return false
		}
	}
	return true
}

// C15_tree: a larger tree.
func C15_tree() {
	pkg := tree(forest)
	pkg.Tagger = nul{}
	p := nearPath()
	sym.Assume(clean(p))
	file := -1
	for i, n := range forest {
		if n == slash(p) {
			file = i
		}
	}
	kids := children(forest, slash(p)+"/")
	f, err := pkg.Open(p)
	st, err2 := pkg.Stat(p)
	list, err3 := pkg.ReadDir(p)
	switch {
	case file >= 0:
		must(err, "file opens")
		must(err2, "file has info")
		fi, err := f.Stat()
		sym.Assert(err == nil && !fi.IsDir() && fi.Size() == int64(10+file), "info of an opened file")
		sym.Assert(!st.IsDir() && st.Size() == int64(10+file) && st.Name() == path.Base(slash(p)), "info of a file")
		sym.Reach("file")
	case len(kids) > 0:
		must(err, "directory opens")
		must(err2, "directory has info")
		must(err3, "directory is listed")
		sym.Assert(st.IsDir() && st.Name() == path.Base(slash(p)), "info of a directory")
		listing(list, kids, "ReadDir")
		d, ok := f.(fs.ReadDirFile)
		sym.Assert(ok, "an opened directory can be read")
		list, err = d.ReadDir(1)
		sym.Assert(err == nil && len(list) == 1, "one entry")
		rest, err := d.ReadDir(0)
		sym.Assert(err == nil, "the other entries")
		listing(append(list, rest...), kids, "opened")
		sym.Reach("dir")
	default:
		sym.Assert(errors.Is(err, fs.ErrNotExist) && errors.Is(err2, fs.ErrNotExist) && errors.Is(err3, fs.ErrNotExist), "nothing else is there")
		sym.Reach("none")
	}
}

// C15_walk: walking the whole tree in any way meets every file once.
func C15_walk() {
	rot := sym.IntRange("rot", 0, len(forest)-1)
	names := append(append([]string{}, forest[rot:]...), forest[:rot]...)
	extra := cleanName("extra", 3)
	sym.Assume(clean(extra))
	names = append(names, "img/"+extra)
	for _, n := range forest {
		sym.Assume(n != "img/"+extra)
	}
	conflict(names)
	pkg := tree(names)
	seen := map[string]int{}
	err := fs.WalkDir(pkg, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			seen[p]++
		}
		return nil
	})
	sym.Assert(err == nil, "the tree is walked")
	n := 0
	for _, name := range names {
		sym.Assert(seen[name] == 1, "every file is met once")
		n++
	}
	sym.Assert(len(seen) == n, "and nothing else")
	sym.Reach("end")
}

// C16_deep: views in a larger tree.
func C16_deep() {
	pkg := tree(forest)
	pkg.Tagger = nul{}
	dir := oneOf("dir", "img", "img/sub", "img\\sub\\deep", "very/long/path", "im", "z", "i", "img/su", "IMG")
	pre := slash(dir) + "/"
	n := 0
	for _, f := range forest {
		if strings.HasPrefix(f, pre) {
			n++
		}
	}
	view, err := sub(pkg, dir)
	if n == 0 {
		sym.Assert(errors.Is(err, fs.ErrNotExist), "no view of a directory without files")
		sym.Reach("none")
		return
	}
	must(err, "view of a directory with files")
	looks(pkg, view, forest, pre)
	rel := oneOf("rel", "1.png", "sub", "sub/3.png", "deep\\er/4.png", "er", "of/directories", ".hidden", "readme.txt", "img/1.png", "a")
	if sym.Bool("change") {
		b := []byte(rel)
		b[0] = sym.Uint8("char")
		sym.Assume(b[0] < 0x80)
		rel = string(b)
		sym.Assume(clean(rel))
	}
	sameLook(pkg, view, pre+rel, rel)
	pattern := oneOf("pattern", "*", "*/*", "?.png", "*/*/*", "[a-z]*")
	got, err := view.Glob(pattern)
	var below []string
	for _, f := range forest {
		if strings.HasPrefix(f, pre) {
			below = append(below, f[len(pre):])
		}
	}
	globbed(got, err, pattern, below)
}

// C17_large: three packages that share names.
func C17_large() {
	closed := 0
	list := []layer{{names: forest[:7]}, {names: forest[4:12]}, {names: append([]string{"own", "a"}, forest[9:]...)}}
	rot := sym.IntRange("rot", 0, 2)
	list = append(append([]layer{}, list[rot:]...), list[:rot]...)
	if sym.Bool("view") {
		list[1].view = "v/w/"
	}
	u := union(list, &closed)
	all := merged(list)
	p := nearPath()
	sym.Assume(clean(p))
	pi, fi := firstOf(list, slash(p))
	kids := children(all, slash(p)+"/")
	st, err := u.Stat(p)
	b, err2 := u.ReadFile(p)
	des, err3 := u.ReadDir(p)
	switch {
	case pi >= 0:
		must(err, "file has info")
		must(err2, "file is read")
		off, _ := st.Sys().(wpk.TagsetRaw).TagUint(wpk.TIDoffset)
		sym.Assert(!st.IsDir() && off == uint(70+fi), "info is of the first package")
		sym.Assert(string(b) == string([]byte{byte(pi), byte(70 + fi)}), "read file is of the first package")
		sym.Reach("file")
	case len(kids) > 0:
		must(err, "directory has info")
		must(err3, "directory is listed")
		sym.Assert(st.IsDir() && err2 != nil, "info of a directory")
		sym.Assert(len(des) == len(kids), "every child once")
		unionEntries(des, list, kids, slash(p)+"/", "ReadDir")
		sym.Reach("dir")
	default:
		sym.Assert(errors.Is(err, fs.ErrNotExist) && errors.Is(err2, fs.ErrNotExist) && errors.Is(err3, fs.ErrNotExist), "nothing else is there")
		sym.Reach("none")
	}
	keys := u.AllKeys()
	sym.Assert(len(keys) == len(all), "every name once")
	for i := range all {
		sym.Assert(i < len(keys) && keys[i] == all[i], "names of the packages in order")
	}
	pattern := oneOf("pattern", "*", "*/*", "img/*", "*/*/*", "[a-z]*")
	got, err := u.Glob(pattern)
	globbed(got, err, pattern, all)
}

// C19_large: large files.
func C19_large() {
	p := place(sym.Bool("split"))
	n := []int{32767, 32768, 65535, 65536, 70000, 131073, 1<<20 + 1}[sym.IntRange("size", 0, 6)]
	w := begin(p)
	d := blob("data", n)
	w.pack("before", blob("before", 300))
	w.pack("x", d)
	w.pack("after", []byte("after"))
	w.sync()
	w.close()
	pkg := open(p, sym.IntRange("opener", 0, 2))
	b, err := someFS(pkg).ReadFile("x")
	sym.Assert(err == nil, "a file is read without an error")
	sym.Assert(sym.EqBytes(b, d), "content")
	must(pkg.Tagger.Close(), "opener is closed")
	sym.Reach("end")
}

// C21_large: faults while large files are packed.
func C21_large() {
	w := &work{Package: wpk.NewPackage(), p: &plan{}, wpt: &rig{}}
	w.wpt.p = w.p
	if sym.Bool("split") {
		w.wpf = &rig{p: w.p}
	}
	must(w.Begin(w.wpt, w.f2()), "package is begun")
	p := somePlan(24, 1, nothing, partly)
	if p.kind == partly {
		p.part = []int{1, 20000, 32767}[p.part-1]
	}
	*w.p = *p
	file := sym.Bool("file")
	w.put("a", blob("a", 300), !file)
	w.put("b", blob("b", 70000), file)
	w.put("c", blob("c", 33000), !file)
	covered(w.p, 24)
	w.p.fail = [2]int{}
	must(w.Sync(w.wpt, w.f2()), "package is finalised")
	w.finish()
}

// C22_long: long strings with one symbolic character.
func C22_long() {
	s := oneOf("s", "Dir/Sub.dir/File.Tar.GZ", "/abs\\Path\\", "noext", ".hidden", "a.b/c", "C:\\Dir\\x.wpk", "\u540d/\u0416x.TXT")
	i := sym.IntRange("i", 0, 22)
	sym.Assume(i < len(s))
	b := []byte(s)
	b[i] = sym.Uint8("char")
	s = string(b)
	var sl, lo, up, key []byte
	for i := 0; i < len(s); i++ {
		c, l, u := s[i], s[i], s[i]
		if c == '\\' {
			c = '/'
		}
		if l >= 'A' && l <= 'Z' {
			l += 32
		}
		if u >= 'a' && u <= 'z' {
			u -= 32
		}
		k := l
		if k == '\\' {
			k = '/'
		}
		sl, lo, up, key = append(sl, c), append(lo, l), append(up, u), append(key, k)
	}
	switch sym.IntRange("fn", 0, 6) {
	case 0:
		sym.Assert(sym.EqStr(util.ToSlash(s), string(sl)), "slashes")
	case 1:
		sym.Assert(sym.EqStr(util.ToLower(s), string(lo)), "lower case")
	case 2:
		sym.Assert(sym.EqStr(util.ToUpper(s), string(up)), "upper case")
	case 3:
		sym.Assert(sym.EqStr(util.ToKey(s), string(key)), "key")
	case 4:
		d := oneOf("dir", "d", "d/", "", ".")
		want := s
		if d != "" && d != "." {
			want = "d"
			if s[0] != '/' {
				want += "/"
			}
			want += s
		}
		if s != "." {
			sym.Assert(sym.EqStr(util.JoinPath(d, s), want), "joined")
		}
	case 5:
		j, k := 0, len(s)
		for i := len(s) - 1; i >= 0; i-- {
			if s[i] == '/' || s[i] == '\\' {
				j = i + 1
				break
			}
		}
		for i := len(s) - 1; i >= j; i-- {
			if s[i] == '.' {
				k = i
			}
		}
		sym.Assert(sym.EqStr(util.PathName(s), s[j:k]), "bare name")
	case 6:
		k := len(s)
		for i := len(s) - 1; i >= 0 && s[i] != '/'; i-- {
			if s[i] == '.' {
				k = i
				break
			}
		}
		sym.Assume(b[i] != '\\' && !strings.Contains(s, "\\"))
		sym.Assert(sym.EqStr(wpk.MakeTagsPath(s), s[:k]+".wpt"), "path of tags")
		sym.Assert(sym.EqStr(wpk.MakeDataPath(s), s[:k]+".wpf"), "path of data")
	}
	sym.Assert(s == string(b), "the argument is kept")
	sym.Reach("end")
}

// C23_long: several references in a longer path.
func C23_long() {
	env := map[string]string{"HOME": "/home/" + sym.String("home", 1), "Dir_1": "a$HOME%HOME%", "E": "", "LONG_NAME_OF_A_VARIABLE_0123456789": "v"}
	parts := [][2]string{{"$HOME", env["HOME"]}, {"${Dir_1}", env["Dir_1"]}, {"%E%", ""}, {"%LONG_NAME_OF_A_VARIABLE_0123456789%", "v"}, {"$NONE_", "$NONE_"}, {"${none}", "${none}"}, {"%none%", "%none%"}, {"text.d", "text.d"}}
	var in, want string
	for i := 0; i < 3; i++ {
		p := parts[sym.IntRange("part"+string(rune('0'+i)), 0, len(parts)-1)]
		sep := oneOf("sep", "/", "-", " ")
		in += p[0] + sep
		want += p[1] + sep
	}
	sym.Assert(sym.EqStr(util.Envfmt(in, env), want), "references are replaced and nothing else")
	sym.Reach("end")
}

// C31_tree: patterns over a larger tree.
func C31_tree() {
	names := append(append([]string{}, forest...), "img/"+cleanName("x", 1)+".png")
	for _, f := range forest {
		sym.Assume(f != names[len(forest)])
	}
	pkg := tree(names)
	pattern := oneOf("pattern", "img/*.png", "*/*.png", "img\\?.png", "[a-i]*/*", "*/*/*", "img/[^1].png", "img/sub/d*/*/*", "*", "*.*", "img*/1.png", "**", "img/", "/img/*", "*/*/*/*/*/*/*/*/*/*/*", "z/?.txt", "[", "img/[]a]")
	got, err := pkg.Glob(pattern)
	globbed(got, err, pattern, names)
}

// C32_large: info of any size.
func C32_large() {
	n := []int{127, 255, 256, 511, 512, 513, 4096, 5000, 32768, 65000}[sym.IntRange("size", 0, 9)]
	w := &work{Package: wpk.NewPackage(), p: &plan{}, wpt: &rig{}}
	w.wpt.p = w.p
	if sym.Bool("split") {
		w.wpf = &rig{p: w.p}
	}
	w.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, blob("label", n)).Put(wpk.TIDauthor, sym.Bytes("author", 2)))
	must(w.Begin(w.wpt, w.f2()), "package is begun")
	w.put("a", blob("a", 300), false)
	must(w.Sync(w.wpt, w.f2()), "package is finalised")
	b := w.wpt.b
	sym.Assert(agree(b, []int{0, 7, 1000}[sym.IntRange("max", 0, 2)]), "a finished package opens")
	end := int(le(b[32:40])) + 2 + len(w.GetInfo())
	cut := []int{end - 1, end - 2, end - n/2, end}[sym.IntRange("cut", 0, 3)]
	_, _, err := wpk.GetPackageInfo(&Frag{B: b[:cut], Max: 1000})
	sym.Assert((err == nil) == (cut == end), "info that is cut off is refused")
	_, info, err := wpk.GetPackageInfo(bytes.NewReader(b))
	sym.Assert(err == nil && sym.EqBytes(info, w.GetInfo()), "info is that of the package")
	sym.Reach("end")
}
