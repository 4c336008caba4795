package core

import (
	"bytes"
	"errors"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// spelling is any spelling of a name in a package or its view of a directory.
func spelling(what, name string, view bool) string {
	b := []byte(name)
	for i := range b {
		if b[i] == '/' && sym.Bool(what+".back"+string(rune('0'+i))) {
			b[i] = '\\'
		}
	}
	if view && sym.Bool(what+".lead") {
		if sym.Bool(what + ".leadback") {
			return "\\" + string(b)
		}
		return "/" + string(b)
	}
	return string(b)
}

// key is the full name for a relative one.
func key(view bool, name string) string {
	name = strings.ReplaceAll(name, "\\", "/")
	if view {
		if len(name) > 0 && name[0] == '/' {
			return "v" + name
		}
		return "v/" + name
	}
	return name
}

// C12_exists: operations onto an existing name.
func C12_exists() {
	full := wpk.NewPackage()
	w := newMem()
	must(full.Begin(w, nil), "package is begun")
	view := sym.Bool("view")
	pkg := full
	if view {
		pkg = &wpk.Package{FTT: full.FTT, Workspace: "v"}
	}
	max := 2
	if sym.Tier() > 0 {
		max = 3
	}
	name := anyName("name", 1, max)
	if view {
		sym.Assume(name[0] != '/')
		sym.Assume(name != ".")
	}
	_, err := pkg.PackData(w, bytes.NewReader(sym.Bytes("data", 2)), spelling("first", name, view))
	must(err, "file is packed")
	_, err = pkg.PackData(w, strings.NewReader("xyz"), "other/file")
	must(err, "other file is packed")
	sym.Assume(name != "other/file")
	was := snapshot(full.FTT)
	b, pos := append([]byte{}, w.B...), w.Pos
	data := full.DataSize()

	s := spelling("again", name, view)
	switch sym.IntRange("op", 0, 4) {
	case 0:
		_, err = pkg.PackData(w, strings.NewReader("new"), s)
	case 1:
		_, err = pkg.PackFile(w, &memFile{r: strings.NewReader("new"), fi: &memInfo{size: 3}}, s)
	case 2:
		err = pkg.PutAlias("other/file", s)
	case 3:
		err = pkg.Rename("other\\file", s)
	case 4:
		err = pkg.Rename(name, s)
	}
	sym.Assert(errors.Is(err, fs.ErrExist), "an existing name is refused")
	sym.Assert(sym.EqBytes(w.B, b), "written data stays as it was")
	sym.Assert(w.Pos == pos && full.DataSize() == data, "writer and data size stay as they were")
	unchanged(full.FTT, was)
	sym.Reach("end")
}

// snapshot copies names and tags of a table.
func snapshot(ftt *wpk.FTT) (list []file) {
	for _, f := range files(ftt) {
		list = append(list, file{f.name, wpk.CopyTagset(f.ts)})
	}
	return
}

func unchanged(ftt *wpk.FTT, was []file) {
	now := files(ftt)
	sym.Assert(len(now) == len(was), "no file appears or disappears")
	for i := range was {
		if i < len(now) {
			sym.Assert(sym.EqStr(now[i].name, was[i].name), "names stay as they were")
			sym.Assert(sym.EqBytes(now[i].ts, was[i].ts), "tags stay as they were")
		}
	}
}

// C12_new: a new name appears, and nothing else.
func C12_new() {
	full := wpk.NewPackage()
	w := newMem()
	must(full.Begin(w, nil), "package is begun")
	view := sym.Bool("view")
	pkg := full
	if view {
		pkg = &wpk.Package{FTT: full.FTT, Workspace: "v"}
	}
	old := anyName("old", 1, 2)
	_, err := full.PackData(w, strings.NewReader("abc"), old)
	must(err, "file is packed")
	was := snapshot(full.FTT)
	b := append([]byte{}, w.B...)
	name := string(sym.Bytes("name", sym.IntRange("len", 1, 3)))
	sym.Assume(sym.Or(!view, name != "."))
	full1 := key(view, name)
	_, err = pkg.PackData(w, strings.NewReader("new"), name)
	if full1 == old {
		sym.Assert(errors.Is(err, fs.ErrExist), "an existing name is refused")
		sym.Reach("exists")
		return
	}
	sym.Assert(err == nil, "a new name is packed")
	now := files(full.FTT)
	sym.Assert(len(now) == 2, "exactly one file appears")
	sym.Assert(sym.And(sym.EqStr(now[0].name, old), sym.EqBytes(now[0].ts, was[0].ts)), "other files stay as they were")
	sym.Assert(sym.EqStr(now[1].name, full1), "the file appears under its name")
	p, ok := now[1].ts.TagStr(wpk.TIDpath)
	sym.Assert(ok && p == full1, "recorded name")
	sym.Assert(sym.EqBytes(w.B[:len(b)], b), "earlier data stays as it was")
	sym.Assert(string(w.B[len(b):]) == "new", "new data is written behind it")
	sym.Reach("new")
}
