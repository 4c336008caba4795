package core

import (
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk/util"
)

// vars is the map and the environment of variables.
type vars struct {
	m map[string]string
}

func someVars(values int) (v vars) {
	val := func(what string) string { return sym.String(what, sym.IntRange("len."+what, 0, values)) }
	os.Setenv("A", "wrong")
	os.Setenv("B", sym.String("env.B", 2))
	os.Setenv("b_0", "")
	os.Unsetenv("C")
	os.Unsetenv("_")
	if sym.Bool("map") {
		v.m = map[string]string{
			"A":   val("map.A"),
			"AB":  sym.String("map.AB", 1),
			"C_1": "c",
		}
	} else {
		os.Setenv("A", val("env.A"))
	}
	return
}

func (v vars) get(name string) (string, bool) {
	if s, ok := v.m[name]; ok {
		return s, true
	}
	return os.LookupEnv(name)
}

func first(c byte) bool {
	return sym.Or(sym.And(c >= 'A', c <= 'Z'), sym.Or(sym.And(c >= 'a', c <= 'z'), c == '_'))
}

// name gives the end of the name that starts at i.
func nameEnd(s string, i int) int {
	if i >= len(s) || !first(s[i]) {
		return i
	}
	for i < len(s) && sym.Or(first(s[i]), sym.And(s[i] >= '0', s[i] <= '9')) {
		i++
	}
	return i
}

// expand is how references are to be replaced, from left to right.
func (v vars) expand(s string) (res string) {
	for i := 0; i < len(s); {
		from, to, end := i, i, i
		if s[i] == '$' {
			if i+1 < len(s) && s[i+1] == '{' {
				from = i + 2
				to = nameEnd(s, from)
				end = to + 1
				if to == from || to == len(s) || s[to] != '}' {
					to = from
				}
			} else {
				from = i + 1
				to = nameEnd(s, from)
				end = to
			}
		} else if s[i] == '%' {
			from = i + 1
			to = nameEnd(s, from)
			end = to + 1
			if to == from || to == len(s) || s[to] != '%' {
				to = from
			}
		}
		if to > from {
			if val, ok := v.get(s[from:to]); ok {
				res += val
				sym.Reach("known")
			} else {
				res += s[i:end]
				sym.Reach("unknown")
			}
			i = end
			continue
		}
		res += s[i : i+1]
		i++
	}
	return
}

func (v vars) check(s string) {
	was := []byte(s)
	got := util.Envfmt(s, v.m)
	sym.Assert(sym.EqStr(got, v.expand(s)), "known references are replaced, and all else is kept")
	sym.Assert(sym.EqStr(s, string(was)), "the argument is not modified")
	sym.Reach("end")
}

// C23_any: any string.
func C23_any() {
	v := someVars(2)
	n := sym.IntRange("len", 0, 4+sym.Tier())
	v.check(sym.String("s", n))
}

// C23_parts: strings made of references, right and wrong.
func C23_parts() {
	v := someVars(1)
	s := ""
	n := sym.IntRange("parts", 2, 2+sym.Tier())
	for i := 0; i < n; i++ {
		k := string(rune('0' + i))
		what := sym.IntRange("part"+k, 0, 6)
		name := ""
		if what > 0 {
			name = []string{"A", "AB", "zz"}[sym.IntRange("name"+k, 0, 2)]
		}
		switch what {
		case 0:
			s += sym.String("char"+k, 1)
		case 1:
			s += "$" + name
		case 2:
			s += "${" + name + "}"
		case 3:
			s += "%" + name + "%"
		case 4:
			s += "${" + name
		case 5:
			s += "%" + name
		case 6:
			s += "/" + name
		}
	}
	v.check(s)
}

// C23_name: names of any characters.
func C23_name() {
	v := someVars(1)
	name := sym.String("name", sym.IntRange("len", 1, 3+sym.Tier()))
	pre, post := "", ""
	if sym.Bool("pre") {
		pre = "x/"
	}
	if sym.Bool("post") {
		post = "/x"
	}
	s := ""
	switch sym.IntRange("form", 0, 2) {
	case 0:
		s = "$" + name
	case 1:
		s = "${" + name + "}"
	case 2:
		s = "%" + name + "%"
	}
	v.check(pre + s + post)
}
