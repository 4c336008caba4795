package lua

import (
	"os"
	"strings"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

// has tells if a string has another one in it.
func has(s, part string) (ok bool) {
	for i := 0; i+len(part) <= len(s); i++ {
		if sym.EqStr(s[i:i+len(part)], part) {
			ok = true
		}
	}
	return
}

// C36_script: errors that scripts get tell the name.
func C36_script() {
	m, p := begun()
	must(os.WriteFile(sym.Root()+"/f.txt", []byte("text"), 0644), "file is written")
	var none string
	if k := sym.IntRange("name", 0, 3); k < 3 {
		none = []string{"none", "dir\\none", "dir"}[k]
	} else {
		none = "n" + sym.String("c", 2)
		for i := range none {
			sym.Assume(none[i] < 0x80 && none[i] != '\\')
		}
	}
	name, there := glua.LString(none), glua.LString("dir\\a")
	about := string(name)
	tid, val := glua.LNumber(77), glua.LString("v")
	var err error
	switch sym.IntRange("op", 0, 15) {
	case 0:
		_, err = m.call(p, "filesize", name)
	case 1:
		_, err = m.call(p, "hastag", name, tid)
	case 2:
		_, err = m.call(p, "gettag", name, tid)
	case 3:
		_, err = m.call(p, "settag", name, tid, val)
	case 4:
		_, err = m.call(p, "addtag", name, tid, val)
	case 5:
		_, err = m.call(p, "deltag", name, tid)
	case 6:
		_, err = m.call(p, "gettags", name)
	case 7:
		_, err = m.call(p, "settags", name, m.table(tid, val))
	case 8:
		_, err = m.call(p, "addtags", name, m.table(tid, val))
	case 9:
		_, err = m.call(p, "deltags", name, m.table(tid, val))
	case 10:
		_, err = m.call(p, "rename", name, glua.LString("new"))
	case 11:
		_, err = m.call(p, "putalias", name, glua.LString("new"))
	case 12:
		about = string(there)
		_, err = m.call(p, "rename", glua.LString("b"), there)
	case 13:
		about = string(there)
		_, err = m.call(p, "putalias", glua.LString("b"), there)
	case 14:
		about = string(there)
		_, err = m.call(p, "putdata", there, val)
	case 15:
		about = string(there)
		_, err = m.call(p, "putfile", there, glua.LString(sym.Root()+"/f.txt"))
	}
	sym.Assert(err != nil, "a name that is missing or taken is an error")
	text := strings.ReplaceAll(err.Error(), "\\", "/")
	sym.Assert(has(text, strings.ReplaceAll(about, "\\", "/")), "error tells the name that it is about")
	_, err = m.call(p, "putfile", glua.LString("new"), glua.LString(sym.Root()+"/missing.txt"))
	sym.Assert(err != nil && has(err.Error(), "/missing.txt"), "error tells the file that is missing")
	_, err = m.call(m.pack(), "load", glua.LString(sym.Root()+"/missing.wpk"))
	sym.Assert(err != nil && has(err.Error(), "/missing.wpk"), "error tells the file that is missing")
	sym.Reach("end")
}

// C33_string: a package as a string.
func C33_string() {
	m := fullVM()
	p := m.pack()
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is begun")
	for _, name := range []string{"a", "d/b", "c"}[:sym.IntRange("files", 0, 3)] {
		_, err = m.call(p, "putdata", glua.LString(name), glua.LString("data of "+name))
		must(err, "file is put")
	}
	if sym.Bool("alias") {
		_, _ = m.call(p, "putalias", glua.LString("a"), glua.LString("x"))
		_, _ = m.call(p, "putalias", glua.LString("a"), glua.LString("y"))
	}
	if sym.Bool("del") {
		_, _ = m.call(p, "delalias", glua.LString("a"))
	}
	var texts []string
	for _, tid := range []wpk.TID{wpk.TIDlabel, wpk.TIDlink, wpk.TIDversion, wpk.TIDauthor, wpk.TIDcomment} {
		if len(texts) < 2 && sym.Bool("info") {
			text := "<" + sym.String("text", 2) + ">"
			goPack(p).SetInfo(wpk.CopyTagset(goPack(p).GetInfo()).Set(tid, wpk.StrTag(text)))
			texts = append(texts, text)
		}
	}
	if sym.Bool("final") {
		_, err = m.call(p, "finalize")
		must(err, "package is finalized")
	}
	num := func(name string) int { return int(m.get(p, name).(glua.LNumber)) }
	res, err := m.fn(m.ls.GetField(m.ls.GetMetatable(p), "__tostring"), p)
	must(err, "package is a string")
	sym.Assert(len(res) == 1, "package is a string")
	s := string(res[0].(glua.LString))
	want := []struct {
		name string
		n    int
	}{{"files: ", num("recnum")}, {"aliases: ", num("tagnum") - num("recnum")}, {"datasize: ", num("datasize")}}
	for _, w := range want {
		i := strings.Index(s, w.name)
		sym.Assert(i >= 0, "numbers of the package are told")
		n, t := 0, s[i+len(w.name):]
		for len(t) > 0 && t[0] >= '0' && t[0] <= '9' {
			n, t = 10*n+int(t[0]-'0'), t[1:]
		}
		sym.Assert(n == w.n, "numbers are those of the properties")
	}
	for _, t := range texts {
		sym.Assert(has(s, t), "info of the package is told")
	}
	sym.Reach("end")
}

// C33_env: references to variables are replaced for scripts.
func C33_env() {
	m := fullVM()
	v := sym.String("env.A", 1)
	sym.Assume(v[0] != 0)
	must(os.Setenv("A", v), "environment")
	must(os.Setenv("Bb_1", ""), "environment")
	must(os.Unsetenv("a"), "environment")
	s := sym.String("s", sym.IntRange("len", 0, 3+sym.Tier()))
	if sym.Bool("known") {
		s = []string{"$A", "${A}", "%A%", "x$Bb_1", "${Bb_1}y", "%Bb_1%", "%HOM%"}[sym.IntRange("ref", 0, 6)] + s
	}
	res, err := m.path("envfmt", glua.LString(s))
	must(err, "path function works")
	list(res, []string{util.Envfmt(s, map[string]string{"A": v, "Bb_1": ""})}, "path.envfmt replaces variables")
	sym.Reach("end")
}
