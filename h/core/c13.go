package core

import (
	"bytes"
	"errors"
	"io/fs"
	"strings"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// want is a file of the reference model.
type want struct {
	name string
	off  byte
	size byte
	ext  []byte
}

func (w want) tags() []byte {
	return encode([]ent{{1, []byte{w.off}}, {2, []byte{w.size}}, {3, []byte(w.name)}, {wpk.TIDlabel, w.ext}})
}

// cleanName is a symbolic relative name without empty elements.
func cleanName(what string, n int) string {
	b := sym.Bytes(what, n)
	for i, c := range b {
		sym.Assume(c != '\\')
		if i == 0 || i == n-1 {
			sym.Assume(c != '/')
		}
		if i > 0 {
			sym.Assume(sym.Not(sym.And(c == '/', b[i-1] == '/')))
		}
	}
	if n == 1 {
		sym.Assume(b[0] != '.')
	}
	return string(b)
}

// model is a reference for a table.
type model struct {
	list []want
	pre  string // prefix of the view
}

func slash(s string) string { return strings.ReplaceAll(s, "\\", "/") }

func (m *model) at(name string) int {
	name = m.pre + slash(name)
	for i := range m.list {
		if m.list[i].name == name {
			return i
		}
	}
	return -1
}

func (m *model) drop(i int) {
	m.list = append(append([]want{}, m.list[:i]...), m.list[i+1:]...)
}

func (m *model) rename(a, b string) error {
	i := m.at(a)
	if i < 0 {
		return fs.ErrNotExist
	}
	if m.at(b) >= 0 {
		return fs.ErrExist
	}
	f := m.list[i]
	f.name = m.pre + slash(b)
	m.drop(i)
	m.list = append(m.list, f)
	return nil
}

func (m *model) alias(a, b string) error {
	i := m.at(a)
	if i < 0 {
		return fs.ErrNotExist
	}
	if m.at(b) >= 0 {
		return fs.ErrExist
	}
	f := m.list[i]
	f.name = m.pre + slash(b)
	m.list = append(m.list, f)
	return nil
}

func dirPrefix(d string) string {
	d = slash(d)
	if d == "." {
		d = ""
	}
	if d != "" && d[len(d)-1] != '/' {
		d += "/"
	}
	return d
}

func (m *model) renameDir(a, b string, skip bool) (n int, err error) {
	a, b = dirPrefix(a), dirPrefix(b)
	for _, f := range append([]want{}, m.list...) {
		if !strings.HasPrefix(f.name, m.pre+a) {
			continue
		}
		rel := f.name[len(m.pre):]
		nk := b + rel[len(a):]
		if m.at(nk) >= 0 {
			if !skip {
				return n, fs.ErrExist
			}
			continue
		}
		m.rename(rel, nk)
		n++
	}
	return n, nil
}

// load makes a package of the model's files, as if it were opened.
func (m *model) load() *wpk.FTT {
	b := []byte{0, 0}
	for _, f := range m.list {
		t := f.tags()
		b = append(b, byte(len(t)), 0)
		b = append(b, t...)
	}
	b = append(b, 0, 0)
	ftt := table(64, 100)
	_, err := ftt.Parse(b)
	must(err, "table is parsed")
	return ftt
}

// check demands that a table has exactly the model's files.
func (m *model) check(ftt *wpk.FTT, what string) {
	sym.Assert(ftt.TagsetNum() == len(m.list), what+": number of files")
	got := files(ftt)
	sym.Assert(len(got) == len(m.list), what+": number of listed files")
	pkg := &wpk.Package{FTT: ftt, Workspace: "."}
	for _, f := range m.list {
		ts, ok := pkg.GetTagset(f.name)
		sym.Assert(ok, what+": file is under its name")
		sym.Assert(sym.EqBytes(ts, f.tags()), what+": recorded name and other tags")
		n := 0
		for _, g := range got {
			if g.name == f.name {
				n++
			}
		}
		sym.Assert(n == 1, what+": file is listed once")
	}
}

// survive demands the same after finalising and reopening.
func (m *model) survive(ftt *wpk.FTT) {
	w := newMem()
	w.B = make([]byte, 164)
	w.Pos = 164
	must(ftt.Sync(w, nil), "package is finalised")
	p := wpk.NewPackage()
	must(p.OpenStream(bytes.NewReader(w.B)), "package is reopened")
	m.check(p.FTT, "reopened")
}

func same(err, want error, what string) {
	if want == nil {
		sym.Assert(err == nil, what+": succeeds")
	} else {
		sym.Assert(errors.Is(err, want), what+": is refused")
	}
}

// some is a model of files with symbolic names of the given lengths.
func some(lens ...int) *model {
	m := new(model)
	for i, n := range lens {
		nm := string(rune('a' + i))
		f := want{cleanName(nm, n), byte(64 + 5*i), byte(i), nil}
		if i == 0 {
			f.ext = sym.Bytes("ext", 1)
		}
		for _, g := range m.list {
			sym.Assume(g.name != f.name)
		}
		m.list = append(m.list, f)
	}
	return m
}

// arg is an argument of symbolic bytes for a file.
func arg(what string, n int) string {
	b := sym.Bytes(what, n)
	for i, c := range b {
		if i == 0 || i == n-1 {
			sym.Assume(sym.And(c != '/', c != '\\'))
		}
	}
	if n == 1 {
		sym.Assume(b[0] != '.')
	}
	return string(b)
}

// C13_names: rename, alias and delete.
func C13_names() {
	m := some(1, 3, sym.IntRange("third", 1, 3))
	ftt := m.load()
	pkg := &wpk.Package{FTT: ftt, Workspace: "."}
	if sym.Bool("view") {
		pkg.Workspace, m.pre = "d", "d/"
	}
	steps := 1
	if sym.Tier() > 0 {
		steps = 2
	}
	for i := 0; i < steps; i++ {
		s := string(rune('0' + i))
		a := arg("from"+s, 1+2*sym.IntRange("from.long"+s, 0, 1))
		switch sym.IntRange("op"+s, 0, 2) {
		case 0:
			b := arg("to"+s, 1+2*sym.IntRange("to.long"+s, 0, 1))
			want := m.rename(a, b)
			same(pkg.Rename(a, b), want, "rename")
		case 1:
			b := arg("to"+s, 1+2*sym.IntRange("to.long"+s, 0, 1))
			want := m.alias(a, b)
			same(pkg.PutAlias(a, b), want, "alias")
		case 2:
			i := m.at(a)
			ts, ok := pkg.DelTagset(a)
			sym.Assert(ok == (i >= 0), "delete reports whether there was a file")
			if i >= 0 {
				sym.Assert(sym.EqBytes(ts, m.list[i].tags()), "delete returns the tags")
				m.drop(i)
				sym.Reach("deleted")
			}
		}
		m.check(ftt, "after")
	}
	m.survive(ftt)
	sym.Reach("end")
}

// C13_dir: rename a directory.
func C13_dir() {
	m := some(3, 3, 5)
	ftt := m.load()
	pkg := &wpk.Package{FTT: ftt, Workspace: "."}
	if sym.Tier() > 0 && sym.Bool("view") {
		pkg.Workspace, m.pre = "d", "d/"
	}
	dir := func(what string) string {
		switch k := sym.IntRange(what+".form", 0, 5); k {
		case 0:
			return ""
		case 1:
			return "."
		case 2, 3:
			s := arg(what, 1)
			if k == 3 {
				s += "/"
			}
			return s
		case 4:
			return arg(what, 1) + "\\"
		}
		return arg(what, 3)
	}
	a, b := dir("old"), dir("new")
	skip := sym.Bool("skip")
	n, werr := m.renameDir(a, b, skip)
	got, err := pkg.RenameDir(a, b, skip)
	same(err, werr, "renamedir")
	sym.Assert(got == n, "number of renamed files")
	sym.Observe("n", got)
	m.check(ftt, "after")
	m.survive(ftt)
	if n > 1 {
		sym.Reach("two")
	}
	if werr != nil {
		sym.Reach("exists")
	}
	sym.Reach("end")
}
