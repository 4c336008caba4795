package lua

import (
	"io"
	"io/fs"
	"os"
	"strings"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	lw "github.com/schwarzlichtbezirk/wpk/luawpk"
)

// disk is the expected state of a package.
type disk struct {
	exists, ready bool
	files         []string // names and contents that are read
	data          []string
}

// life is the expected state of all.
type life struct {
	vm
	p     glua.LValue
	ds    [2]disk // single, split
	at    int     // package of object, or -1
	open  bool
	files []string
	data  []string
	n     byte
}

func (l *life) paths(i int) (pkg, dat string) {
	if i == 0 {
		return sym.Root() + "/s.wpk", ""
	}
	return sym.Root() + "/d.wpt", sym.Root() + "/d.wpf"
}

func (l *life) args(i int) (args []glua.LValue) {
	pkg, dat := l.paths(i)
	if args = append(args, glua.LString(pkg)); dat != "" {
		args = append(args, glua.LString(dat))
	}
	return
}

func isErr(err, target error) bool {
	return err != nil && strings.Contains(err.Error(), target.Error())
}

func copyOf(s []string) []string { return append([]string{}, s...) }

// legal makes a step that has to succeed. It gives false if there is no such.
func (l *life) legal() {
	var err error
	if !l.open {
		op := sym.IntRange("op", 0, 5)
		switch op {
		case 0, 1:
			sym.Assume(l.ds[op].ready)
			_, err = l.call(l.p, "load", l.args(op)...)
			must(err, "package is loaded")
			l.at = op
			l.files, l.data = copyOf(l.ds[op].files), copyOf(l.ds[op].data)
		case 2, 3:
			op -= 2
			_, err = l.call(l.p, "begin", l.args(op)...)
			must(err, "package is begun")
			l.at, l.open = op, true
			l.files, l.data = nil, nil
			l.ds[op] = disk{exists: true, ready: op == 1} // split one is readable at once
		case 4:
			sym.Assume(l.at >= 0)
			_, err = l.call(l.p, "append")
			must(err, "package is appended")
			l.open = true
			l.ds[l.at].ready = l.at == 1
		case 5: // another object appends a file, then it is loaded
			at := sym.IntRange("other", 0, 1)
			sym.Assume(l.ds[at].ready)
			d := &l.ds[at]
			q := l.pack()
			_, err = l.call(q, "load", l.args(at)...)
			must(err, "package is loaded")
			_, err = l.call(q, "append")
			must(err, "package is appended")
			name := string([]byte{'a' + l.n})
			l.n++
			_, err = l.call(q, "putdata", glua.LString(name), glua.LString("other"))
			must(err, "file is put")
			_, err = l.call(q, "finalize")
			must(err, "package is finalized")
			d.files, d.data = append(copyOf(d.files), name), append(copyOf(d.data), "other")
			_, err = l.call(l.p, "load", l.args(at)...)
			must(err, "package is loaded")
			l.at = at
			l.files, l.data = copyOf(d.files), copyOf(d.data)
		}
		return
	}
	switch sym.IntRange("op", 0, 2+l.at) {
	case 0:
		name := string([]byte{'a' + l.n})
		l.n++
		data := sym.String("data", 2)
		_, err = l.call(l.p, "putdata", glua.LString(name), glua.LString(data))
		must(err, "file is put")
		l.files, l.data = append(copyOf(l.files), name), append(copyOf(l.data), data)
	case 1:
		_, err = l.call(l.p, "finalize")
		must(err, "package is finalized")
		l.open = false
		l.ds[l.at] = disk{true, true, l.files, l.data}
	case 2:
		sym.Assume(len(l.files) > 0)
		name := glua.LString(l.files[len(l.files)-1])
		res, err := l.call(l.p, "delalias", name)
		must(err, "file is deleted")
		sym.Assert(len(res) == 1 && res[0] == glua.LTrue, "file is deleted")
		l.files, l.data = l.files[:len(l.files)-1], l.data[:len(l.data)-1]
	case 3:
		_, err = l.call(l.p, "flush")
		must(err, "split package is flushed")
		l.ds[1] = disk{true, true, l.files, l.data}
	}
}

// illegal makes a step that has to fail.
func (l *life) illegal() {
	file := []glua.LValue{glua.LString("new"), glua.LString("data")}
	if !l.open {
		switch sym.IntRange("bad", 0, 10) {
		case 0:
			_, err := l.call(l.p, "putdata", file...)
			sym.Assert(isErr(err, lw.ErrPackClosed), "file cannot be put into package that is not open")
		case 1:
			file[1] = glua.LString(source())
			_, err := l.call(l.p, "putfile", file...)
			sym.Assert(isErr(err, lw.ErrPackClosed), "file cannot be put into package that is not open")
		case 2:
			_, err := l.call(l.p, "flush")
			sym.Assert(isErr(err, lw.ErrPackClosed), "package that is not open cannot be flushed")
		case 3:
			_, err := l.call(l.p, "finalize")
			sym.Assert(isErr(err, lw.ErrPackClosed), "package that is not open cannot be finalized")
		case 4:
			_, err := l.call(l.p, "load", glua.LString(sym.Root()+"/missing"))
			sym.Assert(err != nil, "missing package cannot be loaded")
		case 5:
			name := sym.Root() + "/garbage"
			junk := make([]byte, 80)
			if sym.Bool("header") { // good header over bad table
				junk = append([]byte(wpk.SignReady), 0, 0, 0, 0, 0, 0, 0, 0)
				junk = append(junk[:24], 1, 0, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4)
			}
			must(os.WriteFile(name, junk, 0644), "file is written")
			_, err := l.call(l.p, "load", glua.LString(name))
			sym.Assert(err != nil, "file that is not a package cannot be loaded")
		case 6:
			_, err := l.call(l.p, "begin", glua.LString(sym.Root()+"/nowhere/p.wpk"))
			sym.Assert(err != nil, "package cannot be begun out of directories")
		case 7:
			_, err := l.call(l.p, "begin", glua.LString(sym.Root()+"/other.wpt"), glua.LString(sym.Root()+"/nowhere/p.wpf"))
			sym.Assert(err != nil, "package cannot be begun out of directories")
		case 8:
			_, err := l.call(l.p, "begin", glua.LString("/dev/full"))
			sym.Assert(err != nil, "package cannot be begun on full device")
		case 9:
			sym.Assume(l.at < 0)
			_, err := l.call(l.p, "append")
			sym.Assert(err != nil, "package that is not loaded cannot be appended")
		case 10: // package was deleted
			sym.Assume(l.at == 0 && l.ds[0].exists)
			pkg, _ := l.paths(0)
			must(os.Rename(pkg, pkg+".tmp"), "file is moved")
			_, err := l.call(l.p, "append")
			sym.Assert(err != nil, "missing package cannot be appended")
			must(os.Rename(pkg+".tmp", pkg), "file is moved")
		}
		return
	}
	switch sym.IntRange("bad", 0, 5) {
	case 0:
		_, err := l.call(l.p, "load", l.args(sym.IntRange("what", 0, 1))...)
		sym.Assert(isErr(err, lw.ErrPackOpened), "package cannot be loaded while other one is open")
	case 1:
		_, err := l.call(l.p, "begin", l.args(sym.IntRange("what", 0, 1))...)
		sym.Assert(isErr(err, lw.ErrPackOpened), "package cannot be begun while other one is open")
	case 2:
		_, err := l.call(l.p, "append")
		sym.Assert(isErr(err, lw.ErrPackOpened), "package cannot be appended while it is open")
	case 3:
		sym.Assume(l.at == 0)
		_, err := l.call(l.p, "flush")
		sym.Assert(isErr(err, lw.ErrDataClosed), "single package cannot be flushed")
	case 4:
		sym.Assume(len(l.files) > 0)
		file[0] = glua.LString(l.files[0])
		_, err := l.call(l.p, "putdata", file...)
		sym.Assert(isErr(err, fs.ErrExist), "file cannot be put again")
	case 5:
		file[1] = glua.LString(sym.Root() + "/missing")
		_, err := l.call(l.p, "putfile", file...)
		sym.Assert(err != nil, "missing file cannot be put")
	}
}

// agree checks the object against expected state.
func (l *life) agree() {
	pkg, dat := glua.LValue(glua.LNil), glua.LValue(glua.LNil)
	if l.open {
		s, d := l.paths(l.at)
		if pkg = glua.LString(s); d != "" {
			dat = glua.LString(d)
		}
	}
	sym.Assert(l.ls.GetField(l.p, "pkgpath") == pkg, "path of package is of open one")
	sym.Assert(l.ls.GetField(l.p, "datpath") == dat, "path of data is of open one")
	sym.Assert(l.ls.GetField(l.p, "tagnum") == glua.LNumber(len(l.files)), "object has exactly the files of package")
	for _, name := range l.files {
		res, err := l.call(l.p, "hasfile", glua.LString(name))
		must(err, "file is checked")
		sym.Assert(len(res) == 1 && res[0] == glua.LTrue, "object has exactly the files of package")
	}
}

// read checks a package on disk.
func (l *life) read(i int) {
	path, dat := l.paths(i)
	pkg := wpk.NewPackage()
	err := pkg.OpenFile(path)
	if !l.ds[i].ready {
		sym.Assert(err != nil, "package that is not complete cannot be opened")
		return
	}
	must(err, "complete package is opened")
	sym.Assert(pkg.TagsetNum() == len(l.ds[i].files), "package has exactly the files that were put")
	if dat == "" {
		dat = path
	}
	if pkg.Tagger, err = fsys.MakeTagger(dat); err != nil {
		must(err, "package is opened")
	}
	for k, name := range l.ds[i].files {
		f, err := pkg.Open(name)
		must(err, "file is opened")
		b, err := io.ReadAll(f)
		must(err, "file is read")
		f.Close()
		sym.Assert(sym.EqStr(string(b), l.ds[i].data[k]), "file has the content that was put")
	}
	pkg.Close()
}

func c29(start, steps, bads int) {
	l := &life{vm: newVM(), at: -1}
	if start > 0 { // there is a package of other object
		i := start - 1
		l.p = l.pack()
		_, err := l.call(l.p, "begin", l.args(i)...)
		must(err, "package is begun")
		_, err = l.call(l.p, "putdata", glua.LString("x"), glua.LString("first"))
		must(err, "file is put")
		_, err = l.call(l.p, "finalize")
		must(err, "package is finalized")
		l.ds[i] = disk{true, true, []string{"x"}, []string{"first"}}
	}
	l.p = l.pack()
	for i := 0; i < steps; i++ {
		if bads > 0 && sym.Bool("fail") {
			bads--
			l.illegal()
		} else {
			l.legal()
		}
		l.agree()
	}
	for i := range l.ds {
		if l.ds[i].exists {
			l.read(i)
		}
	}
	sym.Reach("end")
}

// C29_steps: any order of calls.
func C29_steps() {
	c29(sym.IntRange("start", 0, 2), 4+sym.Tier(), 1)
}

// C29_deep: longer legal orders.
func C29_deep() {
	c29(sym.IntRange("start", 0, 2), 6+sym.Tier(), 0)
}

// C29_parts: packages are appended by objects that were loaded with wrong set
// of parts.
func C29_parts() {
	l := &life{vm: newVM(), at: -1}
	l.p = l.pack()
	i := sym.IntRange("kind", 0, 1)
	_, err := l.call(l.p, "begin", l.args(i)...)
	must(err, "package is begun")
	d := disk{true, true, nil, nil}
	for k := sym.IntRange("files", 0, 2); k > 0; k-- {
		name, data := string([]byte{'a' + byte(k)}), sym.String("data", k)
		_, err = l.call(l.p, "putdata", glua.LString(name), glua.LString(data))
		must(err, "file is put")
		d.files, d.data = append(d.files, name), append(d.data, data)
	}
	_, err = l.call(l.p, "finalize")
	must(err, "package is finalized")
	l.ds[i] = d
	if sym.Bool("new") {
		l.p = l.pack()
	}
	pkg, _ := l.paths(i)
	args := []glua.LValue{glua.LString(pkg)}
	if i == 0 { // data part that is of nothing
		dat := sym.Root() + "/some.wpf"
		if sym.Bool("data") {
			must(os.WriteFile(dat, []byte("something"), 0644), "file is written")
		}
		args = append(args, glua.LString(dat))
	}
	if _, err = l.call(l.p, "load", args...); err == nil {
		if _, err = l.call(l.p, "append"); err == nil {
			_, err = l.call(l.p, "putdata", glua.LString("new"), glua.LString("text"))
			if err == nil {
				if _, err = l.call(l.p, "finalize"); err == nil {
					d.files, d.data = append(d.files, "new"), append(d.data, "text")
					sym.Reach("appended")
				}
			}
		}
	}
	if err != nil {
		sym.Reach("refused")
	}
	l.ds[i] = d
	l.read(i)
	sym.Reach("end")
}
