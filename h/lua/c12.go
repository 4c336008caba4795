package lua

import (
	"os"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
)

// C12_script: scripts put no file over another one.
func C12_script() {
	m, p := begun()
	if sym.Bool("tags") {
		_, err := m.call(p, "settag", fkey, glua.LNumber(77), glua.LString(sym.String("tag", 1)))
		must(err, "tag is set")
		m.set(p, "md5", glua.LTrue)
		m.set(p, "autofid", glua.LTrue)
		m.set(p, "automime", glua.LTrue)
	}
	look := func() (names []string, tags [][]byte) {
		goPack(p).Enum(func(name string, ts wpk.TagsetRaw) bool {
			names = append(names, name)
			tags = append(tags, append([]byte{}, ts...))
			return true
		})
		return
	}
	file := sym.Root() + "/f.txt"
	must(os.WriteFile(file, []byte("<x>"), 0644), "file is written")
	names, tags := look()
	b, err := os.ReadFile(sym.Root() + "/p.wpk")
	must(err, "file is read")
	c := sym.Uint8("c")
	name := "dir" + string([]byte{c}) + "a"
	sym.Assume(c == '/' || c == '\\')
	var args []glua.LValue
	if sym.Bool("more") {
		args = append(args, m.table(glua.LString("author"), glua.LString("me")))
	}
	op := sym.IntRange("op", 0, 4)
	switch op {
	case 0:
		_, err = m.call(p, "putdata", append([]glua.LValue{glua.LString(name), glua.LString("other")}, args...)...)
	case 1:
		_, err = m.call(p, "putfile", append([]glua.LValue{glua.LString(name), glua.LString(file)}, args...)...)
	case 2:
		_, err = m.call(p, "rename", glua.LString("b"), glua.LString(name))
	case 3:
		_, err = m.call(p, "putalias", glua.LString("b"), glua.LString(name))
	case 4:
		_, err = m.call(p, "putalias", glua.LString(name), glua.LString(name))
	}
	sym.Assert(err != nil, "a name that is there is refused")
	names2, tags2 := look()
	sym.Assert(len(names) == len(names2), "the same names are there")
	for i := range names {
		sym.Assert(i < len(names2) && names[i] == names2[i] && sym.EqBytes(tags[i], tags2[i]), "files and tags stay as they were")
	}
	b2, err := os.ReadFile(sym.Root() + "/p.wpk")
	must(err, "file is read")
	sym.Assert(sym.EqBytes(b, b2), "nothing is written")
	// packing goes on behind
	_, err = m.call(p, "putdata", glua.LString("new"), glua.LString("more"))
	must(err, "file is put")
	ts, ok := goPack(p).GetTagset("new")
	sym.Assert(ok, "file is put")
	off, size := ts.Pos()
	sym.Assert(off == uint(len(b)) && size == 4, "file is put behind the others")
	sym.Reach("end")
}
