package cmds

import (
	"io"
	"mime"
	"net/http"
	"os"
	"path"
	"strings"
	"time"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
)

// packed gives paths of the parts of a package.
func packed(dst string, split bool) (tags, data string) {
	if split {
		return wpk.MakeTagsPath(dst), wpk.MakeDataPath(dst)
	}
	return dst, dst
}

// open opens a package with its tagger.
func open(dst string, split bool) *wpk.Package {
	tags, data := packed(dst, split)
	pkg := wpk.NewPackage()
	must(pkg.OpenFile(tags), "package is opened")
	var err error
	pkg.Tagger, err = bulk.MakeTagger(data)
	must(err, "package is opened")
	return pkg
}

// c26 packs two folders and compares the package with them.
func c26(split, put, link, slog, old bool, s1, s2 []file) {
	c26in(0, "/s1", "/s2", split, put, link, slog, old, s1, s2)
}

// lists are forms of a list of two paths, some with empty elements that are skipped.
var lists = []string{"1;2", ";1;2", "1;;2", "1;2;", ";;1;;;2;;"}

// listed makes a list of paths of given form.
func listed(form int, p1, p2 string) string {
	return strings.NewReplacer("1", p1, "2", p2).Replace(lists[form])
}

// C26_gaps: lists of folders with empty elements.
func C26_gaps() {
	c26in(sym.IntRange("form", 0, len(lists)-1), "/s1", "/s2", sym.Bool("split"), false, false, true, false,
		[]file{{name: "a", data: some("a", 1)}}, []file{{name: "d/z", data: some("z", 1)}})
}

// c26in packs two folders given by their places.
func c26in(form int, p1, p2 string, split, put, link, slog, old bool, s1, s2 []file) {
	root := sym.Root()
	dst := root + "/p.wpk"
	d1, d2 := root+p1, root+p2
	mkdir(d1 + "/d")
	mkdir(d1 + "/void/void")
	mkdir(d2 + "/d")
	var files []file
	var full []string
	for _, f := range s1 {
		files, full = append(files, f), append(full, d1+"/"+f.name)
	}
	for _, f := range s2 {
		files, full = append(files, f), append(full, d2+"/"+f.name)
	}
	for i, f := range files {
		write(full[i], f.data)
		t := time.Unix(1500000000+1000*int64(i), 123456789-int64(i))
		must(os.Chtimes(full[i], t, t), "times are set")
	}
	args := []string{"-src=" + listed(form, d1, d2+"/"), "-dst=" + dst}
	if old {
		tags, data := packed(dst, split)
		b := make([]byte, 2000)
		write(tags, b)
		write(data, b)
	}
	if split {
		args = append(args, "-split")
	}
	if put {
		args = append(args, "-mime")
	}
	if link {
		args = append(args, "-link")
	}
	if !slog {
		args = append(args, "-log=false")
	}
	sym.Assert(sym.CallMain("pack", args...) == 0, "packing goes well")
	pkg := open(dst, split)
	sym.Assert(len(names(pkg)) == len(files), "exactly the files of folders are packed")
	sym.Assert(pkg.TagsetNum() == len(files), "exactly the files of folders are packed")
	for i, f := range files {
		b, err := pkg.ReadFile(f.name)
		must(err, "file is read from package")
		sym.Assert(sym.EqBytes(b, f.data), "content is the content of the file")
		ts, ok := pkg.GetTagset(f.name)
		sym.Assert(ok, "file is in package")
		fi, err := os.Stat(full[i])
		must(err, "file is there")
		mt, ok := ts.TagTime(wpk.TIDmtime)
		sym.Assert(ok && mt.Equal(fi.ModTime()), "modification time is the one of the file")
		val, ok := ts.TagStr(wpk.TIDmime)
		sym.Assert(ok == put, "content type is put on demand only")
		if ok && put {
			want := mime.TypeByExtension(path.Ext(f.name))
			if want == "" {
				want = http.DetectContentType(f.data)
			}
			sym.Assert(sym.EqStr(val, want), "content type is the one of the file")
		}
		val, ok = ts.TagStr(wpk.TIDlink)
		sym.Assert(ok == link, "link is put on demand only")
		if ok {
			sym.Assert(sym.EqStr(val, full[i]), "link is the path of the file")
		}
	}
	must(pkg.Close(), "package is closed")
	sym.Reach("end")
}

// C26_pack: content of packages.
func C26_pack() {
	n := sym.String("n", 1)
	sym.Assume(n != "/" && n != "\\" && n != "." && n != "a" && n[0] != 0 && n < "\x80")
	c26(sym.Bool("split"), false, false, true, sym.Bool("old"), []file{
		{name: "a", data: some("a", 2+sym.Tier())},
		{name: "d/b", data: some("b", 1)},
		{name: "d/" + n + "z", data: sym.Bytes("n.data", 1)},
	}, []file{{name: "z", data: some("z", 2)}})
}

// C26_tags: tags of packed files.
func C26_tags() {
	put := sym.Bool("mime")
	files := []file{
		{name: "a.unknown", data: some("a", 1)},
		{name: "d/b.HTML", data: sym.Bytes("b", 1)},
	}
	if put && sym.Bool("long") {
		b := make([]byte, 513)
		for i := range b {
			b[i] = ' '
		}
		i := []int{0, 510, 511, 512}[sym.IntRange("at", 0, 3)]
		b[i] = sym.Uint8("x")
		files[0].data = b
	}
	c26(sym.Bool("split"), put, sym.Bool("link"), sym.Bool("log"), false, files, []file{{name: "z", data: some("z", 2+sym.Tier())}})
}

// ready tells whether a file begins with the signature of a ready package.
func ready(path string) bool {
	f, err := os.Open(path)
	if err != nil {
		return false
	}
	defer f.Close()
	var b [len(wpk.SignReady)]byte
	_, err = io.ReadFull(f, b[:])
	return err == nil && string(b[:]) == wpk.SignReady
}

// C26_fail: folders that cannot be packed.
func C26_fail() {
	root := sym.Root()
	src, dst := root+"/s", root+"/p.wpk"
	split := sym.Bool("split")
	mkdir(src + "/d")
	write(src+"/a", sym.Bytes("a", 2))
	write(src+"/d/b", sym.Bytes("b", 1))
	args := []string{}
	if split {
		args = append(args, "-split")
	}
	if sym.Bool("mime") {
		args = append(args, "-mime")
	}
	tags, data := packed(dst, split)
	switch sym.IntRange("fault", 0, 10) {
	case 0: // a link to nowhere
		must(os.Symlink(root+"/no", src+"/c"), "link is made")
	case 1: // a file that cannot be read
		must(os.Chmod(src+"/d/b", 0), "mode is changed")
	case 2: // a folder that cannot be read
		must(os.Chmod(src+"/d", 0), "mode is changed")
	case 3: // the same name twice
		mkdir(root + "/s2/d")
		write(root+"/s2/d/b", nil)
		src += ";" + root + "/s2"
	case 4: // a link to a folder
		must(os.Symlink("d", src+"/e"), "link is made")
	case 5: // a folder in the place of the package
		mkdir(tags)
	case 6:
		mkdir(data)
	case 7: // no destination
		dst = root + "/no/p.wpk"
	case 8: // no source
		src += ";" + root + "/no"
	case 9: // no space
		must(os.Symlink("/dev/full", tags), "link is made")
	case 10:
		must(os.Symlink("/dev/full", data), "link is made")
	}
	code := sym.CallMain("pack", append(args, "-src="+src, "-dst="+dst)...)
	sym.Assert(code != 0, "failure is reported")
	os.Chmod(root+"/s/d", 0755)
	sym.Assert(!ready(tags), "package is not marked as ready")
	sym.Reach("end")
}

// C26_self: the package is inside of the packed folder.
func C26_self() {
	sym.StepLimit(3000000)
	root := sym.Root()
	src := root + "/s"
	mkdir(src + "/d")
	where := []string{"/A", "/p.wpk", "/d/p.wpk", "/z"}[sym.IntRange("where", 0, 3)]
	split := sym.Bool("split")
	dst := src + where
	files := []file{{name: "a", data: sym.Bytes("a", 2)}, {name: "d/b", data: sym.Bytes("b", 1)}, {name: "y", data: sym.Bytes("y", 1)}}
	for _, f := range files {
		write(src+"/"+f.name, f.data)
	}
	args := []string{"-src=" + src, "-dst=" + dst}
	if split {
		args = append(args, "-split")
	}
	if sym.Bool("mime") {
		args = append(args, "-mime")
	}
	for i := sym.IntRange("times", 1, 1+sym.Tier()); i > 0; i-- {
		sym.Assert(sym.CallMain("pack", args...) == 0, "packing goes well")
	}
	pkg := open(dst, split)
	sym.Assert(pkg.TagsetNum() == len(files), "exactly the files of folder are packed")
	for _, f := range files {
		b, err := pkg.ReadFile(f.name)
		must(err, "file is read from package")
		sym.Assert(sym.EqBytes(b, f.data), "content is the content of the file")
	}
	must(pkg.Close(), "package is closed")
	sym.Reach("end")
}

// C26_places: places of source folders.
func C26_places() {
	pair := [][2]string{{"/x/s", "/y/s"}, {"/s", "/s2"}, {"/s2", "/s"}, {"/a/a", "/a/b"}, {"/p", "/p.d"}, {"/a b", "/a"}, {"/.s", "/s"}, {"/S", "/s"}, {"/p.wpf", "/p.wpt"}, {"/~", "/-v"}, {"/a/b/c/d/e/f", "/a/b2"}}[sym.IntRange("pair", 0, 10)]
	c26in(0, pair[0], pair[1], false, false, sym.Bool("link"), true, sym.Bool("old"), []file{
		{name: "a", data: some("a", 1)},
		{name: "d/b", data: some("b", 1)},
	}, []file{{name: "z", data: some("z", 1)}, {name: "d/z", data: []byte("z")}, {name: "d/a", data: []byte("a")}})
}

// C26_types: types of files that have the same extension.
func C26_types() {
	ext := []string{"", ".qqq", ".", ".txt", ".GIF", ".html"}
	e1 := sym.IntRange("ext1", 0, len(ext)-1)
	e2 := e1
	if sym.Bool("other") {
		e2 = sym.IntRange("ext2", 0, len(ext)-1)
	}
	data := func(what string) []byte {
		switch sym.IntRange(what, 0, 4) {
		case 0:
			return nil
		case 1:
			return []byte("text " + sym.String(what+".c", 1))
		case 2:
			return []byte("GIF89a\x01\x00\x01\x00")
		case 3:
			return []byte{0, 1, 2, sym.Uint8(what + ".b")}
		}
		return append([]byte("<html>"), make([]byte, 600)...)
	}
	s1 := []file{{name: "a" + ext[e1], data: data("first")}}
	s2 := []file{{name: "d/b" + ext[e2], data: data("second")}}
	if sym.Bool("one") {
		s1, s2 = append(s1, s2...), nil
	}
	c26(false, true, false, true, false, s1, s2)
}
