package cmds

import (
	"os"
	"strings"

	"verif/sym"
)

// outside tells whether a name leads out of the directory it is joined to.
func outside(name string) bool {
	depth := 0
	for _, el := range strings.Split(name, "/") {
		switch el {
		case "", ".":
		case "..":
			if depth--; depth < 0 {
				return true
			}
		default:
			depth++
		}
	}
	return false
}

// c24 extracts a package with given names and demands that all stays inside.
func c24(names ...string) {
	root := sym.Root()
	base := root + "/u/v"
	mkdir(base)
	write(root+"/f", []byte("1"))
	write(root+"/u/f", []byte("2"))
	write(base+"/f", []byte("3"))
	mkdir(base + "/e")
	var files []file
	bad := false
	for i, n := range names {
		files = append(files, file{name: n, data: []byte{byte('a' + i)}})
		bad = sym.Or(bad, outside(n))
	}
	src := build(root+"/p.wpk", false, files...)
	dst := base + "/dst"
	given := dst
	switch sym.IntRange("dst", 0, 2) {
	case 1:
		given += "/"
	case 2:
		given = strings.ReplaceAll(base, "/", "\\") + "/e/../dst"
	}
	args := []string{"-src=" + src, "-dst=" + given}
	if sym.Bool("made") {
		mkdir(dst)
	} else {
		args = append(args, "-md")
	}
	was := list(root, dst)
	code := sym.CallMain("extract", args...)
	same(was, list(root, dst), "nothing is changed outside of the destination")
	if bad {
		sym.Assert(code != 0, "a name that leads outside is refused")
		sym.Reach("bad")
	}
	if code == 0 {
		sym.Reach("done")
	}
	if _, err := os.Stat(dst); err == nil {
		sym.Reach("end")
	}
}

// C24_any: names of any characters.
func C24_any() {
	n := sym.IntRange("len", 1, 4+sym.Tier())
	c24(sym.String("name", n))
}

// C24_up: names with steps up.
func C24_up() {
	name := []string{"../", "../../", "a/../../", "./../", "a/b/../../../", "/../", "..\\", "../e/"}[sym.IntRange("pre", 0, 7)]
	name += sym.String("name", sym.IntRange("len", 0, 2))
	if sym.Bool("second") {
		c24("ok", name)
	} else {
		c24(name, "ok")
	}
}

// C24_forms: names with something that may be expanded.
func C24_forms() {
	for _, v := range []string{"UP", "HOME"} {
		old, had := os.LookupEnv(v)
		must(os.Setenv(v, ".."), "variable is set")
		defer func(v string) {
			if had {
				os.Setenv(v, old)
			} else {
				os.Unsetenv(v)
			}
		}(v)
	}
	name := []string{
		"$UP/f", "${UP}/f", "%UP%/f", "a/$UP/$UP/f", "$UP$UP/f", "~/f", "~root/f", "a/~/f", "*/f", "?/f", "[e]/f", "{..,e}/f", "file:../f", "file:///f",
		"%2e%2e/f", "..%2ff", "%2e%2e%2ff", "\xc0\xae\xc0\xae/f", "\uff0e\uff0e/f", "..\u2215f", "..\x00/f", ".. /f", " ../f", "../f ", ".../f", "....//f", "..../f",
		"c:/f", "c:..\\f", "\\\\?\\f", "//f", "///..//f", "./f/.", "f/", "f/.", "f/..", "a/f/../../..", ".", "..", "../", "../dst2/f", "../dsty", "../dst", "../dst/f", "../dst/../f",
		"a/./../../f", "a//../../f", "\n/../../f", "`../f`", "$(../f)", "-md", "nul/../../f", "&../f", "a;../f", "../../../../../../../../../../u/f",
	}[sym.IntRange("name", 0, 54)]
	switch sym.IntRange("with", 0, 2) {
	case 1:
		name = "d/" + name
	case 2:
		c24("ok", name)
		return
	}
	c24(name)
}
