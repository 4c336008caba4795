package cmds

import (
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// made tells if there is a finished package with one file of given content.
func made(path string, data string) bool {
	if _, err := os.Stat(path); err != nil {
		return false
	}
	pkg := wpk.NewPackage()
	err := pkg.OpenFile(path)
	sym.Assert(err == nil, "package of a script can be opened")
	if err != nil {
		return true
	}
	sym.Assert(pkg.TagsetNum() == 1 && pkg.HasTagset("f"), "package of a script has its file")
	b, err := os.ReadFile(path)
	must(err, "file is read")
	ts, _ := pkg.GetTagset("f")
	off, size := ts.Pos()
	sym.Assert(size == uint(len(data)) && sym.EqStr(string(b[off:off+size]), data), "package of a script has its file")
	return true
}

// C34_build: scripts are run one after another up to the first that fails.
func C34_build() {
	mkdir(sym.Root() + "/s")
	n := sym.IntRange("scripts", 0, 1+sym.Tier())
	var args []string
	failed, last := -1, false // first that fails, and if it does after its package is made
	datas := make([]string, n+1)
	for i := 0; i <= n; i++ {
		c := sym.Uint8("c")
		sym.Assume(c != '\'' && c != '\\' && c != '\n' && c != '\r')
		datas[i] = string([]byte{'x', c})
		name := string([]byte{'0' + byte(i)})
		path := sym.Root() + "/s/" + name + ".lua"
		text := "local p = wpk.new()\np:begin(scrdir..'/" + name + ".wpk')\n" +
			"p:putdata('f', '" + datas[i] + "')\np:finalize()\n"
		kind := sym.IntRange("kind", 0, 5)
		switch kind {
		case 1: // no such file
			path = sym.Root() + "/s/none.lua"
		case 2: // bad syntax
			text += "end"
		case 3: // error of script
			text = "error('no')\n" + text
		case 4: // error of package
			text = "wpk.new():append()\n" + text
		case 5: // error at the end
			text += "local t = nil; t.x = 1\n"
			last = last || failed < 0
		}
		if kind != 0 && failed < 0 {
			failed = i
		}
		if kind != 1 {
			write(path, []byte(text))
		}
		args = append(args, path)
	}
	code := sym.CallMain("build", args...)
	sym.Assert((code != 0) == (failed >= 0), "failure of a script is reported, and success too")
	for i := 0; i <= n; i++ {
		ok := made(sym.Root()+"/s/"+string([]byte{'0' + byte(i)})+".wpk", datas[i])
		sym.Assert(ok == (failed < 0 || i < failed || i == failed && last), "scripts are run up to the first that fails")
	}
	if failed < 0 {
		sym.Reach("done")
	} else {
		sym.Reach("failed")
	}
}

// C34_ways: ways of a script to fail or to do without failure.
func C34_ways() {
	mkdir(sym.Root() + "/s")
	ways := []struct {
		text string
		bad  bool
	}{
		{"", false},
		{"return", false},
		{"return nil, 'no'", false},
		{"return false", false},
		{"do return end; error('no')", false},
		{"pcall(error, 'no')", false},
		{"assert(not pcall(error))", false},
		{"assert(xpcall(function() return 1 end, print))", false},
		{"coroutine.wrap(function() coroutine.yield() error('no') end)()", false},
		{"pcall(function() wpk.new():append() end)", false},
		{"#!/usr/bin/lua\nreturn", false},
		{"error()", true},
		{"error(nil)", true},
		{"error('')", true},
		{"error({})", true},
		{"error(0)", true},
		{"error(false)", true},
		{"error('EOF')", true},
		{"error('no', 0)", true},
		{"assert(false)", true},
		{"assert(nil, nil)", true},
		{"local t = nil + 1", true},
		{"nofunction()", true},
		{"coroutine.wrap(function() error('no') end)()", true},
		{"coroutine.wrap(function() coroutine.yield() error('no') end)", false},
		{"wpk.new():putdata('f', 'x')", true},
		{"return error('no')", true},
		{"for i = 1, 3 do if i == 3 then error(i) end end", true},
		{"setmetatable({}, {__index = function() error('no') end}).x = 1", false},
		{"local x = setmetatable({}, {__index = function() error('no') end}).x", true},
		{"x = ", true},
		{"x = 'y", true},
		{"goto no", true},
		{"\xff", true},
	}
	w := ways[sym.IntRange("way", 0, len(ways)-1)]
	path := sym.Root() + "/s/a.lua"
	text := w.text
	pos := sym.IntRange("at", 0, 2)
	if pos > 0 && text != "" && text[0] != '#' { // after something that is done
		text = "checkfile = true\n" + text
	}
	write(path, []byte(text))
	write(sym.Root()+"/s/b.lua", nil)
	args := []string{path}
	switch pos {
	case 1:
		args = append(args, sym.Root()+"/s/b.lua")
	case 2:
		args = []string{sym.Root() + "/s/b.lua", path}
	}
	code := sym.CallMain("build", args...)
	sym.Assert((code != 0) == w.bad, "failure of a script is reported, and success too")
	sym.Reach("end")
}

// C34_twice: scripts that are given in any order and more than once.
func C34_twice() {
	dir := sym.Root() + "/s"
	mkdir(dir)
	mkdir(dir + "/in")
	w, err := os.Create(dir + "/p.wpk")
	must(err, "file is made")
	pkg := wpk.NewPackage()
	must(pkg.Begin(w, nil), "package is begun")
	must(pkg.Sync(w, nil), "package is finalised")
	w.Close()
	c := sym.Uint8("c")
	sym.Assume(c >= 'a' && c <= 'z')
	mark := func(path, up, name string) {
		write(path, []byte("local p = wpk.new()\np:load(scrdir..'"+up+"/p.wpk')\np:append()\n"+
			"p:putdata('"+name+"'..p.tagnum, '"+string([]byte{c})+"')\np:finalize()\n"))
	}
	mark(dir+"/a.lua", "", "a")
	mark(dir+"/b.lua", "", "b")
	mark(dir+"/in/a.lua", "/..", "c")
	paths := []string{dir + "/a.lua", dir + "/b.lua", dir + "/in/a.lua", dir + "/./a.lua", dir + "/in/../b.lua"}
	names := []string{"a", "b", "c", "a", "b"}
	var args, want []string
	for i := 0; i < 3+sym.Tier(); i++ {
		k := sym.IntRange("script", 0, len(paths)-1)
		args = append(args, paths[k])
		want = append(want, names[k]+string([]byte{'0' + byte(i)}))
	}
	sym.Assert(sym.CallMain("build", args...) == 0, "scripts end well")
	got := wpk.NewPackage()
	must(got.OpenFile(dir+"/p.wpk"), "package is opened")
	i := 0
	got.Enum(func(name string, ts wpk.TagsetRaw) bool {
		sym.Assert(i < len(want) && name == want[i], "scripts are run one after another, as often as they are given")
		i++
		return true
	})
	sym.Assert(i == len(want), "all scripts are run")
	sym.Reach("end")
}
