package lua

import (
	"os"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"
)

// C35_script: scripts hold the files of an open package and nothing else.
func C35_script() {
	m := newVM()
	p := m.pack()
	root := sym.Root()
	src := source()
	split := sym.Bool("split")
	args := []glua.LValue{glua.LString(root + "/p.wpk")}
	parts := 1
	if split {
		args = []glua.LValue{glua.LString(root + "/p.wpt"), glua.LString(root + "/p.wpf")}
		parts = 2
	}
	opened, exists := false, false
	n := 4 + sym.Tier()
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		switch op := sym.IntRange("op"+s, 0, 9); op {
		case 0:
			sym.Assume(!opened)
			_, err := m.call(p, "begin", args...)
			must(err, "package is begun")
			opened, exists = true, false
		case 1: // no place for tags or for data
			bad := [][]glua.LValue{{glua.LString(root + "/none/p.wpk")}, {glua.LString(root + "/q.wpt"), glua.LString(root + "/none/q.wpf")}}[sym.IntRange("bad"+s, 0, 1)]
			_, err := m.call(p, "begin", bad...)
			sym.Assert(err != nil, "package cannot be begun")
		case 2: // a source that is missing, a name that is there already, a tag that cannot be
			sym.Assume(opened)
			bad := [][]glua.LValue{
				{glua.LString("x"), glua.LString(root + "/none")},
				{glua.LString("x"), glua.LString(root)},
				{glua.LString("x"), glua.LString(src), m.table(glua.LString("nosuchtag"), glua.LNumber(1))},
				{glua.LString("f"), glua.LString(src)},
			}[sym.IntRange("bad"+s, 0, 3)]
			_, _ = m.call(p, "putfile", bad...)
			if bad[0] == glua.LString("f") {
				exists = true
			}
		case 3:
			sym.Assume(opened)
			_, err := m.call(p, "putfile", glua.LString("g"+s), glua.LString(src))
			must(err, "file is put")
		case 4:
			sym.Assume(opened)
			_, err := m.call(p, "finalize")
			must(err, "package is finalized")
			opened, exists = false, true
		case 5:
			sym.Assume(!opened && exists)
			_, err := m.call(p, "append")
			must(err, "package is appended")
			opened = true
		case 6:
			sym.Assume(!opened && exists)
			q := m.pack()
			_, err := m.call(q, "load", args...)
			must(err, "package is loaded")
			p = q
		case 7:
			q := m.pack()
			_, err := m.call(q, "load", glua.LString([]string{root + "/none", src, root}[sym.IntRange("bad"+s, 0, 2)]))
			sym.Assert(err != nil, "there is no package")
			_, err = m.call(q, "append")
			sym.Assert(err != nil, "there is no package")
		case 8:
			sym.Assume(opened && split)
			_, err := m.call(p, "flush")
			must(err, "package is flushed")
		case 9: // other functions on files
			must(os.MkdirAll(root+"/dir", 0755), "directory is made")
			_, err := m.path("enum", glua.LString(root+[]string{"/dir", "", "/none"}[sym.IntRange("dir"+s, 0, 2)]))
			_ = err
			_, _ = m.path("glob", glua.LString(root+"/*"))
		}
		want := 0
		if opened {
			want = parts
		}
		sym.Assert(sym.Held() == want, "only the files of the package being written are open")
	}
	sym.Reach("end")
}
