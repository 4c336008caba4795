package lua

import (
	"bytes"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
)

// stream is a package file in memory.
type stream struct{ bytes.Buffer }

func (s *stream) Seek(int64, int) (int64, error) { return int64(64 + s.Len()), nil }

// C13_script: edits of names by scripts do what those of the package do.
func C13_script() {
	m, p := begun()
	ref := wpk.NewPackage()
	var w stream
	for i, name := range []string{string(fkey), "b", "d/b", "d/e/c"} {
		data := name
		if i < 2 { // they are put by begun
			data = []string{"data", "other"}[i]
		} else {
			_, err := m.call(p, "putdata", glua.LString(name), glua.LString(data))
			must(err, "file is put")
		}
		_, err := ref.PackData(&w, bytes.NewReader([]byte(data)), name)
		must(err, "file is put")
	}
	name := func(what string) string {
		s := []string{"b", "d/b", "d", "dir", "dir\\a", "new", "", "?"}[sym.IntRange(what, 0, 7)]
		if s == "?" {
			s = sym.String(what+".c", 1)
		}
		return s
	}
	for i := 0; i < 1+sym.Tier(); i++ {
		s := string(rune('0' + i))
		a, b := name("a"+s), name("b"+s)
		la, lb := glua.LString(a), glua.LString(b)
		op := sym.IntRange("op"+s, 0, 5)
		var res []glua.LValue
		var err, want error
		n := 0
		switch op {
		case 0:
			res, err = m.call(p, "rename", la, lb)
			want = ref.Rename(a, b)
		case 1:
			res, err = m.call(p, "putalias", la, lb)
			want = ref.PutAlias(a, b)
		case 2:
			res, err = m.call(p, "renamedir", la, lb)
			n, want = ref.RenameDir(a, b, true)
		case 3, 4:
			res, err = m.call(p, "renamedir", la, lb, glua.LBool(op == 3))
			n, want = ref.RenameDir(a, b, op == 3)
		case 5:
			res, err = m.call(p, "delalias", la)
			_, ok := ref.DelTagset(a)
			must(err, "delalias does not fail")
			sym.Assert(len(res) == 1 && res[0] == glua.LBool(ok), "delalias tells if there was a file")
		}
		sym.Assert((err == nil) == (want == nil), "a script gets an error if there is one")
		if op >= 2 && op <= 4 && err == nil {
			sym.Assert(len(res) == 1 && isNum(res[0], n), "renamedir gives the number of files")
		}
	}
	var list []entryOf
	ref.Enum(func(name string, ts wpk.TagsetRaw) bool {
		list = append(list, entryOf{name, ts})
		return true
	})
	i := 0
	goPack(p).Enum(func(name string, ts wpk.TagsetRaw) bool {
		sym.Assert(i < len(list) && sym.EqStr(name, list[i].name), "names are those that the package functions give")
		path, ok := ts.TagStr(wpk.TIDpath)
		sym.Assert(ok && sym.EqStr(path, name), "path is the name")
		size, _ := ts.TagUint(wpk.TIDsize)
		want, _ := list[i].ts.TagUint(wpk.TIDsize)
		off, _ := ts.TagUint(wpk.TIDoffset)
		woff, _ := list[i].ts.TagUint(wpk.TIDoffset)
		sym.Assert(size == want && off == woff, "data is that of the file")
		i++
		return true
	})
	sym.Assert(i == len(list), "names are those that the package functions give")
	sym.Reach("end")
}

type entryOf struct {
	name string
	ts   wpk.TagsetRaw
}
