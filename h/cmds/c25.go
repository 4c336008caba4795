package cmds

import (
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// C25_files: content of extracted files.
func C25_files() {
	root := sym.Root()
	dst := root + "/dst"
	split := sym.Bool("split")
	n := sym.String("n", 1)
	sym.Assume(n != "/" && n != "\\" && n != "." && n != "a" && n != "d" && n[0] != 0 && n[0] != '?')
	files := []file{{name: "a", data: some("a", 2)}, {name: "d/e/b", data: some("b", 2)}, {name: "d/" + n, data: sym.Bytes("n.data", 1)}}
	sym.Assume(n != "e")
	src := build(root+"/p.wpk", split, files...)
	mode := sym.IntRange("mode", 0, 3)
	args := []string{"-src=" + src, "-dst=" + dst, "-sl=false"}
	if mode < 3 {
		args = append(args, "-pm="+modes[mode])
	}
	if sym.Bool("old") {
		mkdir(dst + "/d")
		write(dst+"/a", []byte("longer"))
		write(dst+"/d/z", []byte("z"))
		files = append(files, file{name: "d/z", data: []byte("z")})
		sym.Assume(n != "z")
	} else {
		args = append(args, "-md")
	}
	sym.Assert(sym.CallMain("extract", args...) == 0, "extraction goes well")
	got := names(os.DirFS(dst))
	sym.Assert(len(got) == len(files), "exactly the files of the package are written")
	for _, f := range files {
		b, err := os.ReadFile(dst + "/" + f.name)
		must(err, "extracted file is there")
		sym.Assert(sym.EqBytes(b, f.data), "extracted file has the content of the packed one")
	}
	sym.Reach("end")
}

// C25_two: several packages at once.
func C25_two() {
	root := sym.Root()
	dst := root + "/dst"
	mkdir(dst)
	a := file{name: "a", data: some("a", 2)}
	b := file{name: "b", data: some("b", 2)}
	c := file{name: "a", data: some("c", 2)}
	p1 := build(root+"/p.wpk", sym.Bool("split1"), a, b)
	p2 := build(root+"/q.wpk", sym.Bool("split2"), c)
	must(os.Setenv("HERE", root), "environment")
	p1 = "${HERE}" + p1[len(root):]
	mode := modes[sym.IntRange("mode", 0, 2)]
	sym.Assert(sym.CallMain("extract", "-src="+p1+";;"+p2, "-dst="+dst, "-pm="+mode) == 0, "extraction goes well")
	for i, f := range []file{c, b} {
		got, err := os.ReadFile(dst + "/" + f.name)
		must(err, "extracted file is there")
		sym.Assert(sym.EqBytes(got, f.data), "extracted file has the content of the packed one")
		if i == 0 {
			sym.Reach("end")
		}
	}
}

// C25_names: names with characters that mean something elsewhere.
func C25_names() {
	root := sym.Root()
	dst := root + "/dst"
	mkdir(dst)
	must(os.Setenv("A", "v"), "environment")
	n := sym.String("n", sym.IntRange("len", 2, 3))
	for i := 0; i < len(n); i++ {
		c := n[i]
		ok := false
		for _, v := range []byte("$A%*;~ ") {
			ok = sym.Or(ok, c == v)
		}
		sym.Assume(ok)
	}
	f := file{name: n, data: sym.Bytes("data", 1)}
	src := build(root+"/p.wpk", false, f)
	sym.Assert(sym.CallMain("extract", "-src="+src, "-dst="+dst, "-pm="+modes[sym.IntRange("mode", 0, 2)]) == 0, "extraction goes well")
	b, err := os.ReadFile(dst + "/" + n)
	must(err, "extracted file is there")
	sym.Assert(sym.EqBytes(b, f.data), "extracted file has the content of the packed one")
	sym.Assert(len(names(os.DirFS(dst))) == 1, "exactly the files of the package are written")
	sym.Reach("end")
}

func someTime(what string) time.Time {
	s, n := sym.Int64(what+".s"), sym.Int64(what+".n")
	sym.Assume(sym.And(s >= 0, s < 1<<31))
	sym.Assume(sym.And(n >= 0, n < 1000000000))
	return time.Unix(s, n)
}

// C25_times: times of extracted files.
func C25_times() {
	root := sym.Root()
	dst := root + "/dst"
	mkdir(dst)
	m, a := someTime("m"), someTime("a")
	hasm, hasa := sym.Bool("has.m"), sym.Bool("has.a")
	src := build(root+"/p.wpk", sym.Bool("split"), file{name: "d/a", data: sym.Bytes("a", sym.IntRange("len", 0, 1)), tags: func(ts wpk.TagsetRaw) wpk.TagsetRaw {
		if hasm {
			ts = ts.Put(wpk.TIDmtime, wpk.TimeTag(m))
		}
		if hasa {
			ts = ts.Put(wpk.TIDatime, wpk.TimeTag(a))
		}
		return ts
	}}, file{name: "z"})
	args := []string{"-src=" + src, "-dst=" + dst, "-pm=" + modes[sym.IntRange("mode", 0, 2)]}
	ft := sym.Bool("ft")
	if ft {
		args = append(args, "-ft")
	}
	sym.Assert(sym.CallMain("extract", args...) == 0, "extraction goes well")
	fi, err := os.Stat(dst + "/d/a")
	must(err, "extracted file is there")
	if ft && hasm && hasa {
		sym.Assert(fi.ModTime().Equal(m), "modification time is the original one")
		st := fi.Sys().(*syscall.Stat_t)
		sym.Assert(time.Unix(st.Atim.Sec, st.Atim.Nsec).Equal(a), "access time is the original one")
		sym.Reach("times")
	}
	_, err = os.Stat(dst + "/z")
	must(err, "extracted file is there")
	sym.Reach("end")
}

// C25_each: every file gets its own times, or none.
func C25_each() {
	root := sym.Root()
	dst := root + "/dst"
	mkdir(dst)
	type tm struct {
		m, a       time.Time
		hasm, hasa bool
	}
	var list []file
	var times []tm
	for i := 0; i < 2+sym.Tier(); i++ {
		k := byte('0' + i)
		t := tm{someTime("m" + string(k)), someTime("a" + string(k)), sym.Bool("has.m"), sym.Bool("has.a")}
		sym.Assume(t.m.Unix() < 1500000000) // long ago
		times = append(times, t)
		for j := 0; j < i; j++ {
			sym.Assume(!times[j].m.Equal(t.m))
		}
		list = append(list, file{name: string([]byte{"ab"[sym.IntRange("dir", 0, 1)], '/', 'f', k}), tags: func(ts wpk.TagsetRaw) wpk.TagsetRaw {
			if t.hasa {
				ts = ts.Put(wpk.TIDatime, wpk.TimeTag(t.a))
			}
			if t.hasm {
				ts = ts.Put(wpk.TIDmtime, wpk.TimeTag(t.m))
			}
			return ts
		}})
	}
	var src string
	if sym.Bool("several") {
		for i, f := range list {
			if i > 0 {
				src += ";"
			}
			src += build(root+"/"+string(byte('0'+i))+".wpk", false, f)
		}
	} else {
		src = build(root+"/p.wpk", false, list...)
	}
	sym.Assert(sym.CallMain("extract", "-src="+src, "-dst="+dst, "-ft", "-pm="+modes[sym.IntRange("mode", 0, 2)]) == 0, "extraction goes well")
	for i, f := range list {
		fi, err := os.Stat(dst + "/" + f.name)
		must(err, "extracted file is there")
		if times[i].hasm && times[i].hasa {
			sym.Assert(fi.ModTime().Equal(times[i].m), "modification time is the original one")
			st := fi.Sys().(*syscall.Stat_t)
			sym.Assert(time.Unix(st.Atim.Sec, st.Atim.Nsec).Equal(times[i].a), "access time is the original one")
			continue
		}
		for j := range list {
			if i != j || !times[i].hasm {
				sym.Assert(!fi.ModTime().Equal(times[j].m), "no times of other files")
			}
		}
	}
	sym.Reach("end")
}

// C25_gaps: lists of packages with empty elements.
func C25_gaps() {
	root := sym.Root()
	dst := root + "/dst"
	mkdir(dst)
	split := sym.Bool("split")
	all := []file{{name: "a", data: sym.Bytes("a", 1)}, {name: "d/b", data: sym.Bytes("b", 1)}}
	p1, p2 := build(root+"/p.wpk", split, all[0]), build(root+"/q.wpk", split, all[1])
	src := listed(sym.IntRange("form", 0, len(lists)-1), p1, p2)
	sym.Assert(sym.CallMain("extract", "-src="+src, "-dst="+dst, "-pm="+modes[sym.IntRange("mode", 0, 2)]) == 0, "extraction goes well")
	for _, f := range all {
		b, err := os.ReadFile(dst + "/" + f.name)
		must(err, "extracted file is there")
		sym.Assert(sym.EqBytes(b, f.data), "extracted file has the content of packed one")
	}
	sym.Reach("end")
}

// C25_fault: files that cannot be extracted.
func C25_fault() {
	root := sym.Root()
	dst := root + "/dst"
	mkdir(dst)
	split := sym.Bool("split")
	src := build(root+"/p.wpk", split, file{name: "a", data: sym.Bytes("a", 2)}, file{name: "d/b", data: sym.Bytes("b", 2)})
	mode := modes[sym.IntRange("mode", 0, 2)]
	var args []string
	switch sym.IntRange("fault", 0, 11) {
	case 0: // a directory in the place of a file
		mkdir(dst + "/a")
	case 1:
		mkdir(dst + "/d/b/c")
	case 2: // a file in the place of a directory
		write(dst+"/d", nil)
	case 3: // data are cut off
		data := src
		if split {
			data = strings.TrimSuffix(src, "wpt") + "wpf"
		}
		b, err := os.ReadFile(data)
		must(err, "package is read")
		must(os.Truncate(data, int64(len(b)-sym.IntRange("cut", 1, 3))), "package is cut off")
	case 4: // no data file
		sym.Assume(split)
		must(os.Remove(strings.TrimSuffix(src, "wpt")+"wpf"), "data file is removed")
	case 5: // no package
		src = root + "/q.wpk"
	case 6: // no destination
		dst += "/no"
	case 7: // unknown mode
		mode = "none"
	case 8: // the second package is missing
		src += ";" + root + "/q.wpk"
	case 9: // not a package
		write(src, []byte("not a package at all, but long enough for the header of one......"))
	case 10: // no space is left for a file
		must(os.Symlink("/dev/full", dst+"/a"), "link is made")
	case 11: // times cannot be changed
		tm := someTime("time")
		src = build(root+"/t.wpk", split, file{name: "a", tags: func(ts wpk.TagsetRaw) wpk.TagsetRaw {
			return ts.Put(wpk.TIDmtime, wpk.TimeTag(tm)).Put(wpk.TIDatime, wpk.TimeTag(tm))
		}}, file{name: "b", data: sym.Bytes("b", 1)})
		must(os.Symlink("/dev/full", dst+"/a"), "link is made")
		args = append(args, "-ft")
	}
	code := sym.CallMain("extract", append(args, "-src="+src, "-dst="+dst, "-pm="+mode)...)
	sym.Assert(code != 0, "failure is reported")
	sym.Reach("end")
}

// blob is n bytes, three of them symbolic.
func blob(what string, n int) []byte {
	d := make([]byte, n)
	for i := 0; i < n; i += 97 {
		d[i] = byte(i)
	}
	if n > 0 {
		d[0], d[n/2], d[n-1] = sym.Uint8(what+"0"), sym.Uint8(what+"1"), sym.Uint8(what+"2")
	}
	return d
}

// big is files of a deeper tree and larger sizes.
func big() []file {
	n := []int{511, 512, 513, 32767, 32768, 33000, 70000, 131073, 1<<20 + 1}[sym.IntRange("size", 0, 8)]
	files := []file{{name: "a.bin", data: blob("a", n)}, {name: "d0/empty"}, {name: "d0/d1/d2/d3/d4/d5/d6/b.unknown", data: blob("b", 70000)}}
	for i := 0; i < 40; i++ {
		s := string([]byte{'a' + byte(i/10), '0' + byte(i%10)})
		f := file{name: "m/" + s, data: blob(s, i%4)}
		if i%3 == 0 {
			f.name = "m/n" + s[:1] + "/" + s + ".TXT"
		}
		files = append(files, f)
	}
	for _, name := range []string{ // names that may be taken for special
		".hidden", ".git/config", "d0/.d/.f", "...", "m/..x", "backup~", "#x#", "x.tmp", "Thumbs.db", "node_modules/x.js", "_d/_f", "-v", "@x", "$x",
		"q.wpk", "q.wpt", "q.wpf", "s.lua", "p.exe", "a.bin.gz", "a b/ c d.e ", "c'd", "q\"q", "x,y;z", "%41%2f", "[a]/{b}?*", "\u0424\u0430\u0439\u043b", "e\u0301", "\xff\xfe", "A.BIN", "nul", "con.txt",
		"n\tn", "n\nn",
	} {
		files = append(files, file{name: name, data: []byte("of " + name)})
	}
	return files
}

// C25_large: many files, and large ones.
func C25_large() {
	root := sym.Root()
	dst := root + "/dst"
	files := big()
	src := build(root+"/p.wpk", sym.Bool("split"), files...)
	args := []string{"-md", "-src=" + src, "-dst=" + dst, "-pm=" + modes[sym.IntRange("mode", 0, 2)]}
	sym.Assert(sym.CallMain("extract", args...) == 0, "extraction goes well")
	got := names(os.DirFS(dst))
	sym.Assert(len(got) == len(files), "exactly the files of the package are written")
	for _, f := range files {
		b, err := os.ReadFile(dst + "/" + f.name)
		must(err, "extracted file is there")
		sym.Assert(sym.EqBytes(b, f.data), "extracted file has the content of the packed one")
	}
	sym.Reach("end")
}

// C26_large: many files, and large ones.
func C26_large() {
	files := big()
	for _, f := range files { // folders of files
		mkdir(sym.Root() + "/s1/" + path.Dir(f.name))
	}
	c26(sym.Bool("split"), false, sym.Bool("link"), true, false, files, []file{{name: "z", data: blob("z", 300)}})
}
