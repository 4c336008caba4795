package lua

import (
	"io"
	"os"
	"path"
	"sort"
	"time"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	lw "github.com/schwarzlichtbezirk/wpk/luawpk"
)

// fullVM is a Lua machine with everything that scripts have.
func fullVM() vm {
	ls := glua.NewState(glua.Options{SkipOpenLibs: true, RegistrySize: 256, CallStackSize: 16})
	lw.InitLuaVM(ls)
	return vm{ls}
}

// fn calls a function and gives its results.
func (m vm) fn(f glua.LValue, args ...glua.LValue) (res []glua.LValue, err error) {
	top := m.ls.GetTop()
	err = m.ls.CallByParam(glua.P{Fn: f, NRet: glua.MultRet, Protect: true}, args...)
	for i := top + 1; i <= m.ls.GetTop(); i++ {
		res = append(res, m.ls.Get(i))
	}
	m.ls.SetTop(top)
	return
}

func (m vm) global(name string, args ...glua.LValue) ([]glua.LValue, error) {
	return m.fn(m.ls.GetGlobal(name), args...)
}

func (m vm) path(name string, args ...glua.LValue) ([]glua.LValue, error) {
	return m.fn(m.ls.GetField(m.ls.GetGlobal("path"), name), args...)
}

// get reads a property.
func (m vm) get(p glua.LValue, name string) glua.LValue { return m.ls.GetField(p, name) }

func isNum(v glua.LValue, n int) bool { x, ok := v.(glua.LNumber); return ok && x == glua.LNumber(n) }

// list demands that a call gave exactly the strings.
func list(res []glua.LValue, want []string, what string) {
	sym.Assert(len(res) == len(want), what)
	for i, w := range want {
		s, ok := res[i].(glua.LString)
		sym.Assert(ok && sym.EqStr(string(s), w), what)
	}
}

// C33_query: properties and queries of a package that is being written, that
// is finished and that is loaded.
func C33_query() {
	m := fullVM()
	p := m.pack()
	split := sym.Bool("split")
	args := []glua.LValue{glua.LString(sym.Root() + "/p.wpk")}
	tags := sym.Root() + "/p.wpk"
	if split {
		tags = sym.Root() + "/p.wpt"
		args = []glua.LValue{glua.LString(tags), glua.LString(sym.Root() + "/p.wpf")}
	}
	sym.Assert(m.get(p, "label") == glua.LNil, "new package has no label")
	_, err := m.call(p, "begin", args...)
	must(err, "package is begun")
	// names in the package with their sizes, and the records
	type rec struct {
		name string
		size int
		rec  int
	}
	var have []rec
	total, empty := 0, 0
	n := sym.IntRange("files", 0, 2+sym.Tier())
	for i := 0; i < n; i++ {
		size := sym.IntRange("size", 0, 2)
		if size == 0 {
			empty++
			sym.Assume(empty < 2) // two empty records may have the same place
		}
		name := []string{"a", "d/b", "c"}[i]
		_, err = m.call(p, "putdata", glua.LString(name), glua.LString(sym.String("data", size)))
		must(err, "file is put")
		have = append(have, rec{name, size, i})
		total += size
	}
	label := sym.String("label", sym.IntRange("len", 0, 2))
	m.set(p, "label", glua.LString(label))
	look := func(p glua.LValue, synced bool) {
		recs, sum := map[int]bool{}, 0
		for _, r := range have {
			recs[r.rec] = true
			sum += r.size
		}
		sym.Assert(isNum(m.get(p, "recnum"), len(recs)), "recnum counts data records")
		sym.Assert(isNum(m.get(p, "tagnum"), len(have)), "tagnum counts names")
		res, err := m.call(p, "sumsize")
		must(err, "sizes are summed")
		sym.Assert(len(res) == 1 && isNum(res[0], sum), "sumsize is the sum of all sizes")
		s, ok := m.get(p, "label").(glua.LString)
		sym.Assert(ok && sym.EqStr(string(s), label), "label reads back")
		if synced {
			sym.Assert(isNum(m.get(p, "datasize"), total), "datasize is the size of data")
			b, err := os.ReadFile(tags)
			must(err, "file is read")
			want := 0
			for i := 0; i < 8; i++ {
				want |= int(b[40+i]) << (8 * i)
			}
			sym.Assert(isNum(m.get(p, "fftsize"), want), "fftsize is the size of the tags table")
		}
		for _, name := range []string{"a", "d/b", "d\\b", "c", "x", "d", "b", ""} {
			size := -1
			for _, r := range have {
				if r.name == name || name == "d\\b" && r.name == "d/b" {
					size = r.size
				}
			}
			res, err = m.call(p, "hasfile", glua.LString(name))
			must(err, "presence is queried")
			sym.Assert(len(res) == 1 && res[0] == glua.LBool(size >= 0), "hasfile tells what names there are")
			res, err = m.call(p, "filesize", glua.LString(name))
			sym.Assert((err == nil) == (size >= 0), "size of missing file is an error")
			if err == nil {
				sym.Assert(len(res) == 1 && isNum(res[0], size), "filesize is the size of file")
			}
		}
	}
	look(p, false)
	if n > 0 {
		switch sym.IntRange("edit", 0, 4) {
		case 1:
			_, err = m.call(p, "putalias", glua.LString("a"), glua.LString("x"))
			must(err, "alias is put")
			have = append(have, rec{"x", have[0].size, 0})
		case 2:
			_, err = m.call(p, "delalias", glua.LString("a"))
			must(err, "name is deleted")
			have = have[1:]
		case 3: // replaced
			_, err = m.call(p, "delalias", glua.LString("a"))
			must(err, "name is deleted")
			_, err = m.call(p, "putdata", glua.LString("a"), glua.LString("large"))
			must(err, "file is put")
			have[0] = rec{"a", 5, 7}
			total += 5
		case 4:
			_, err = m.call(p, "rename", glua.LString("a"), glua.LString("x"))
			must(err, "file is renamed")
			have[0].name = "x"
		}
	}
	look(p, false)
	sym.Assert(m.get(p, "pkgpath") == args[0], "path of open package")
	if split {
		sym.Assert(m.get(p, "datpath") == args[1], "path of open package")
		_, err = m.call(p, "flush")
		must(err, "package is flushed")
		look(p, true)
	} else {
		sym.Assert(m.get(p, "datpath") == glua.LNil, "there is no data part")
	}
	_, err = m.call(p, "finalize")
	must(err, "package is finalized")
	look(p, true)
	q := m.pack()
	_, err = m.call(q, "load", args...)
	must(err, "package is loaded")
	look(q, true)
	sym.Reach("end")
}

// C33_glob: names by pattern.
func C33_glob() {
	m := fullVM()
	p := m.pack()
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is begun")
	names := []string{"a", "d/b", "ab"}
	for _, name := range names {
		_, err = m.call(p, "putdata", glua.LString(name), glua.LString(""))
		must(err, "file is put")
	}
	pat := sym.String("pat", sym.IntRange("len", 0, 2+sym.Tier()))
	var want []string
	_, bad := path.Match(pat, "")
	for _, name := range names {
		if ok, _ := path.Match(pat, name); ok {
			want = append(want, name)
		}
	}
	res, err := m.call(p, "glob", glua.LString(pat))
	sym.Assert((err != nil) == (bad != nil), "bad pattern is an error and good one is not")
	if err == nil {
		list(res, want, "glob gives the names that match")
		sym.Reach("list")
	}
	sym.Reach("end")
}

// C33_props: settings are read back, and others cannot be set.
func C33_props() {
	m := fullVM()
	p := m.pack()
	flags := []string{"autofid", "automime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
	vals := map[string]glua.LValue{}
	for _, f := range flags {
		vals[f] = glua.LFalse
	}
	same := func() {
		for _, f := range flags {
			sym.Assert(m.get(p, f) == vals[f], "settings are as they were set")
		}
	}
	same()
	set := m.ls.NewFunction(func(ls *glua.LState) int {
		ls.SetField(ls.Get(1), ls.CheckString(2), ls.Get(3))
		return 0
	})
	secret := ""
	for i := 0; i < 2; i++ {
		switch sym.IntRange("what", 0, 2) {
		case 0:
			f := flags[sym.IntRange("flag", 0, len(flags)-1)]
			v := glua.LBool(sym.Bool("v"))
			_, err := m.fn(set, p, glua.LString(f), v)
			must(err, "setting is set")
			vals[f] = v
		case 1:
			secret = sym.String("secret", 2)
			_, err := m.fn(set, p, glua.LString("secret"), glua.LString(secret))
			must(err, "setting is set")
		case 2:
			f := []string{"pkgpath", "datpath", "recnum", "tagnum", "fftsize", "datasize"}[sym.IntRange("fixed", 0, 5)]
			old := m.get(p, f)
			_, err := m.fn(set, p, glua.LString(f), glua.LNumber(7))
			sym.Assert(err != nil, "property that is only read cannot be set")
			sym.Assert(m.get(p, f) == old, "property that is only read cannot be set")
		}
		same()
		s, ok := m.get(p, "secret").(glua.LString)
		sym.Assert(ok && sym.EqStr(string(s), secret), "secret is as it was set")
	}
	sym.Reach("end")
}

const hexes = "0123456789abcdef"

// C33_hex: binary to hexadecimal and back.
func C33_hex() {
	m := fullVM()
	if sym.Bool("long") {
		n := []int{16, 64, 255, 256, 257, 511, 512, 513, 1024, 1025, 2049, 4097, 40000}[sym.IntRange("size", 0, 12)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i/256)
		}
		for i, at := range []int{0, n / 2, n - 1} {
			b[at] = sym.Uint8("byte" + string(rune('0'+i)))
		}
		want := make([]byte, 0, 2*n)
		for _, c := range b {
			want = append(want, hexes[c>>4], hexes[c&15])
		}
		res, err := m.global("bin2hex", glua.LString(b))
		must(err, "string is converted")
		list(res, []string{string(want)}, "bin2hex gives two digits for each byte")
		res, err = m.global("hex2bin", res...)
		must(err, "string is converted back")
		list(res, []string{string(b)}, "hex2bin is the inverse")
		sym.Reach("to")
		return
	}
	if sym.Bool("to") {
		bin := sym.String("bin", sym.IntRange("len", 0, 2+sym.Tier()))
		var want []byte
		for i := 0; i < len(bin); i++ {
			want = append(want, hexes[bin[i]>>4], hexes[bin[i]&15])
		}
		res, err := m.global("bin2hex", glua.LString(bin))
		must(err, "string is converted")
		list(res, []string{string(want)}, "bin2hex gives two digits for each byte")
		res, err = m.global("hex2bin", res...)
		must(err, "string is converted back")
		list(res, []string{bin}, "hex2bin is the inverse")
		sym.Reach("to")
		return
	}
	s := sym.String("hex", sym.IntRange("len", 0, 3+sym.Tier()))
	good := len(s)%2 == 0
	var want []byte
	for i := 0; i < len(s); i++ {
		c, d := s[i], byte(0)
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case c >= 'a' && c <= 'f':
			d = c - 'a' + 10
		case c >= 'A' && c <= 'F':
			d = c - 'A' + 10
		default:
			good = false
		}
		if i%2 == 0 {
			want = append(want, d<<4)
		} else {
			want[i/2] |= d
		}
	}
	res, err := m.global("hex2bin", glua.LString(s))
	sym.Assert((err == nil) == good, "hex2bin takes pairs of digits and nothing else")
	if good {
		list(res, []string{string(want)}, "hex2bin gives the bytes")
		sym.Reach("from")
	} else {
		sym.Reach("bad")
	}
}

// C33_time: milliseconds to text and back.
func C33_time() {
	m := fullVM()
	ms := []int64{0, -1500, -62135596800000, 1709251199000, 253402300799999}[sym.IntRange("base", 0, 4)]
	if ms == 1709251199000 || sym.Tier() > 0 && ms != 253402300799999 {
		ms += int64(sym.Uint8("ms")) * 10
	}
	res, err := m.global("milli2time", glua.LNumber(ms))
	must(err, "time is formatted")
	sym.Assert(len(res) == 1, "time is formatted")
	text, ok := res[0].(glua.LString)
	sym.Assert(ok, "time is formatted")
	t, err := time.Parse(lw.ISO8601, string(text))
	sym.Assert(err == nil && t.UnixMilli() == ms, "milli2time gives the time")
	res, err = m.global("time2milli", text)
	must(err, "time is parsed")
	n, ok := res[0].(glua.LNumber)
	sym.Assert(len(res) == 1 && ok && int64(n) == ms, "time2milli is the inverse")
	// with a layout
	lay := glua.LString("06-01-02 15h")
	res, err = m.global("milli2time", glua.LNumber(ms), lay)
	must(err, "time is formatted")
	list(res, []string{time.UnixMilli(ms).Format(string(lay))}, "milli2time follows the layout")
	_, err = m.global("time2milli", glua.LString("2024-02-30T00:00:00Z"))
	sym.Assert(err != nil, "bad time is an error")
	res, err = m.global("time2milli", glua.LString("24-02-29 15h"), lay)
	must(err, "time is parsed")
	sym.Assert(len(res) == 1 && isNum(res[0], 1709218800000), "time2milli follows the layout")
	sym.Reach("end")
}

// C33_path: functions on names.
func C33_path() {
	m := fullVM()
	s := sym.String("s", sym.IntRange("len", 0, 3))
	one := func(name string, want ...string) {
		res, err := m.path(name, glua.LString(s))
		must(err, "path function works")
		list(res, want, "path."+name+" gives its result")
	}
	switch sym.IntRange("fn", 0, 9) {
	case 0:
		var b []byte
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c == '\\' {
				c = '/'
			}
			b = append(b, c)
		}
		one("toslash", string(b))
	case 1:
		one("clean", path.Clean(s))
	case 2:
		one("dir", path.Dir(s))
	case 3:
		one("base", path.Base(s))
	case 4:
		one("ext", path.Ext(s))
	case 5:
		d, f := path.Split(s)
		one("split", d, f)
	case 6:
		one("volume", "")
	case 7:
		i, j := 0, len(s)
		for k := len(s) - 1; k >= 0; k-- {
			if s[k] == '/' || s[k] == '\\' {
				i = k + 1
				break
			}
		}
		for k := len(s) - 1; k >= i; k-- {
			if s[k] == '.' {
				j = k
			}
		}
		one("name", s[i:j])
	case 8:
		t := []string{"", "x", "../y"}[sym.IntRange("t", 0, 2)]
		res, err := m.path("join", glua.LString("d"), glua.LString(s), glua.LString(t))
		must(err, "path function works")
		list(res, []string{path.Join("d", s, t)}, "path.join joins")
		res, err = m.path("join")
		must(err, "path function works")
		list(res, []string{""}, "path.join of nothing is empty")
	case 9:
		name := []string{"", "a", "ab", "d/b"}[sym.IntRange("name", 0, 3)]
		ok, bad := path.Match(s, name)
		res, err := m.path("match", glua.LString(name), glua.LString(s))
		sym.Assert((err != nil) == (bad != nil), "bad pattern is an error and good one is not")
		if err == nil {
			sym.Assert(len(res) == 1 && res[0] == glua.LBool(ok), "path.match(name, pattern) tells if name matches pattern")
			sym.Reach("match")
		}
	}
	sym.Reach("end")
}

// C33_disk: queries of the file system.
func C33_disk() {
	m := fullVM()
	root := sym.Root() + "/t"
	must(os.Mkdir(root, 0755), "directory is made")
	names := [][]string{{"a", "b.x", "c.x"}, {".h", "a b", "\u540d.x"}}[sym.IntRange("set", 0, 1)][:sym.IntRange("files", 0, 3)]
	for _, name := range names {
		must(os.WriteFile(root+"/"+name, []byte("data")[:4*len(name)%8], 0644), "file is written")
	}
	if len(names) > 0 && sym.Bool("mode") { // whatever permissions
		must(os.Chmod(root+"/"+names[0], 0755), "mode of file is set")
	}
	if sym.Bool("dir") {
		must(os.Mkdir(root+"/d.x", 0755), "directory is made")
		names = append(append([]string{}, names...), "d.x")
	}
	switch sym.IntRange("fn", 0, 2) {
	case 0:
		name := []string{"a", "b.x", "d.x", "", "q", "a/q", ".h", "\u540d.x"}[sym.IntRange("name", 0, 7)]
		res, err := m.global("checkfile", glua.LString(root+"/"+name))
		must(err, "file is checked")
		has := name == ""
		for _, n := range names {
			has = has || n == name
		}
		sym.Assert(len(res) > 0 && res[0] == glua.LBool(has), "checkfile tells if there is a file")
		if has {
			sym.Assert(len(res) == 2 && res[1] == glua.LBool(name != "" && name != "d.x"), "checkfile tells files and directories apart")
		}
	case 1:
		// directory entries in any order
		args := []glua.LValue{glua.LString(root)}
		n := sym.IntRange("n", -1, 3)
		if n >= 0 || sym.Bool("n given") {
			args = append(args, glua.LNumber(n))
		}
		res, err := m.path("enum", args...)
		must(err, "directory is listed")
		sym.Assert(len(res) == 1, "path.enum gives a table")
		t, ok := res[0].(*glua.LTable)
		sym.Assert(ok, "path.enum gives a table")
		want := len(names)
		if n > 0 && n < want {
			want = n
		}
		sym.Assert(t.Len() == want, "path.enum gives at most n names")
		seen := map[string]bool{}
		for i := 1; i <= t.Len(); i++ {
			s, ok := t.RawGetInt(i).(glua.LString)
			sym.Assert(ok && !seen[string(s)], "path.enum gives each name once")
			seen[string(s)] = true
			has := false
			for _, n := range names {
				has = has || n == string(s)
			}
			sym.Assert(has, "path.enum gives the names of directory")
		}
		_, err = m.path("enum", glua.LString(root+"/none"))
		sym.Assert(err != nil, "missing directory is an error")
	case 2:
		pat := []string{"*", "*.x", "a", "q", "[", "?.x", "*.y", ".*", "a*"}[sym.IntRange("pat", 0, 8)]
		res, err := m.path("glob", glua.LString(root+"/"+pat))
		if pat == "[" {
			sym.Assert(err != nil, "bad pattern is an error")
			break
		}
		must(err, "files are found")
		var want []string
		for _, n := range names {
			if ok, _ := path.Match(pat, n); ok {
				want = append(want, root+"/"+n)
			}
		}
		sort.Strings(want)
		list(res, want, "path.glob gives the files that match")
	}
	sym.Reach("end")
}

// C33_dir: a directory with many files.
func C33_dir() {
	m := fullVM()
	root := sym.Root() + "/t"
	must(os.Mkdir(root, 0755), "directory is made")
	count := []int{0, 1, 16, 100, 130}[sym.IntRange("count", 0, 4)]
	for i := 0; i < count; i++ {
		must(os.WriteFile(root+"/"+numbered(i), nil, 0644), "file is written")
	}
	args := []glua.LValue{glua.LString(root)}
	n := 0
	if sym.Bool("n given") {
		n = []int{-1, 0, 15, 100, 129, 200}[sym.IntRange("n", 0, 5)]
		args = append(args, glua.LNumber(n))
	}
	res, err := m.path("enum", args...)
	must(err, "directory is listed")
	want := count
	if n > 0 && n < want {
		want = n
	}
	t, ok := res[0].(*glua.LTable)
	sym.Assert(ok && t.Len() == want, "path.enum gives at most n names")
	seen := map[string]bool{}
	for i := 1; i <= want; i++ {
		s, ok := t.RawGetInt(i).(glua.LString)
		sym.Assert(ok && !seen[string(s)], "path.enum gives each name once")
		seen[string(s)] = true
		ok, err := wpk.FileExists(root + "/" + string(s))
		must(err, "file is checked")
		sym.Assert(ok, "path.enum gives the names of directory")
	}
	if n == 0 { // glob gives them all as well
		res, err = m.path("glob", glua.LString(root+"/*"))
		must(err, "files are found")
		sym.Assert(len(res) == count, "path.glob gives the files that match")
	}
	sym.Reach("end")
}

// numbered is a name of three digits.
func numbered(i int) string {
	return string([]byte{'f', byte('0' + i/100), byte('0' + i/10%10), byte('0' + i%10)})
}

// C33_huge: properties of a package with files of any size.
func C33_huge() {
	sizes := []int{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 3 << 40, 4 << 40}
	m := newVM()
	path := sym.Root() + "/p.wpt"
	f, err := os.Create(path)
	must(err, "file is made")
	d, err := os.Create(sym.Root() + "/p.wpf")
	must(err, "file is made")
	pkg := wpk.NewPackage()
	must(pkg.Begin(f, d), "package is begun")
	total, sum := 0, 0
	recs := map[[2]int]bool{}
	n := sym.IntRange("files", 1, 2+sym.Tier())
	var have []int
	for i := 0; i < n; i++ {
		off, size := total, sizes[sym.IntRange("size", 0, len(sizes)-1)]
		if size > 0 && i > 0 && have[0] >= size && sym.Bool("same") {
			off = 0 // a part of the first one
		} else {
			total += size
		}
		sum += size
		recs[[2]int{off, size}] = true
		have = append(have, size)
		name := string(byte('a' + i))
		pkg.SetTagset(name, pkg.BaseTagset(uint(off), uint(size), name))
	}
	_, err = d.Seek(int64(total), io.SeekStart)
	must(err, "position is set")
	must(pkg.Sync(f, d), "package is finalised")
	must(f.Close(), "file is closed")
	must(d.Close(), "file is closed")
	p := m.pack()
	_, err = m.call(p, "load", glua.LString(path), glua.LString(sym.Root()+"/p.wpf"))
	must(err, "package is loaded")
	sym.Assert(isNum(m.get(p, "recnum"), len(recs)), "recnum counts data records")
	sym.Assert(isNum(m.get(p, "tagnum"), n), "tagnum counts names")
	sym.Assert(isNum(m.get(p, "datasize"), total), "datasize is the size of data")
	res, err := m.call(p, "sumsize")
	must(err, "sizes are summed")
	sym.Assert(len(res) == 1 && isNum(res[0], sum), "sumsize is the sum of all sizes")
	for i, size := range have {
		res, err := m.call(p, "filesize", glua.LString(string(byte('a'+i))))
		must(err, "size of a file")
		sym.Assert(len(res) == 1 && isNum(res[0], size), "filesize is the size of file")
	}
	sym.Reach("end")
}
