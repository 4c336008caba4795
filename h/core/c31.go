package core

import (
	"io/fs"
	"path"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// globbed demands that a list is exactly the names that match.
func globbed(got []string, err error, pattern string, names []string) {
	p := slash(pattern)
	_, bad := path.Match(p, "")
	if bad != nil {
		sym.Assert(err != nil && len(got) == 0, "a malformed pattern is reported")
		sym.Reach("bad")
		return
	}
	sym.Assert(err == nil, "a right pattern is taken")
	n := 0
	for _, name := range names {
		if ok, _ := path.Match(p, name); ok {
			n++
			hits := 0
			for _, g := range got {
				if g == name {
					hits++
				}
			}
			sym.Assert(hits == 1, "a matching name is given once")
			sym.Reach("match")
		}
	}
	sym.Assert(len(got) == n, "no name that does not match is given")
	sym.Reach("end")
}

// somePattern is any string, or one with the given form of symbolic characters.
func somePattern(max int) string {
	if f := sym.IntRange("form", 0, 4); f > 0 {
		c, d := sym.String("char", 1), sym.String("char2", 1)
		sym.Assume(sym.And(c[0] < 0x80, d[0] < 0x80))
		return []string{"*" + c + "*", "[" + c + "-" + d + "]*", "[^" + c + "]/" + d, "?" + c + d + "?"}[f-1]
	}
	return sym.String("pattern", sym.IntRange("len", 0, max))
}

// C31_pkg: packages and views of them.
func C31_pkg() {
	names := someTree(1, 3)
	if sym.Tier() == 0 {
		for _, c := range []byte(names[1]) {
			sym.Assume(c < 0x80)
		}
	}
	pkg := tree(names)
	pattern := somePattern(2 + sym.Tier())
	got, err := pkg.Glob(pattern)
	globbed(got, err, pattern, names)
}

// C31_view: a view of a directory of a package.
func C31_view() {
	a, b := cleanName("a", 1), cleanName("b", 1)
	other := cleanName("c", 3)
	sym.Assume(other != "d/"+a && other != "d/"+b && a != b && other[0] != 'd')
	pkg := tree([]string{"d/" + a, other, "d/" + b, "dd/x", "d"})
	sub, err := pkg.Sub("d")
	must(err, "view opens")
	pattern := somePattern(2 + sym.Tier())
	var got []string
	if sym.Bool("std") {
		got, err = fs.Glob(sub, pattern)
	} else {
		got, err = sub.(*wpk.Package).Glob(pattern)
	}
	globbed(got, err, pattern, []string{a, b})
}

// C31_union: unions.
func C31_union() {
	a, b := cleanName("a", 1), cleanName("b", 1)
	c := cleanName("c", 1) + "/e"
	sym.Assume(sym.And(a[0] < 0x80, sym.And(b[0] < 0x80, c[0] < 0x80)))
	list := []layer{{names: []string{a, c}}, {names: []string{b, "z"}}}
	sym.Assume(b != "z")
	closed := 0
	u := union(list, &closed)
	pattern := somePattern(2 + sym.Tier())
	got, err := u.Glob(pattern)
	globbed(got, err, pattern, merged(list))
}
