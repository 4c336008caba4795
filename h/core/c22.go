package core

import (
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

// C22_case: conversions change exactly their characters.
func C22_case() {
	n := sym.IntRange("len", 0, 5+sym.Tier())
	s := sym.String("s", n)
	was := []byte(s)
	slash := func(c byte) byte { return byte(sym.IteU64(c == '\\', '/', uint64(c))) }
	lower := func(c byte) byte { return byte(sym.IteU64(sym.And(c >= 'A', c <= 'Z'), uint64(c)+32, uint64(c))) }
	upper := func(c byte) byte { return byte(sym.IteU64(sym.And(c >= 'a', c <= 'z'), uint64(c)-32, uint64(c))) }
	key := func(c byte) byte { return lower(slash(c)) }
	var f func(string) string
	var g func(byte) byte
	switch sym.IntRange("func", 0, 3) {
	case 0:
		f, g = util.ToSlash, slash
	case 1:
		f, g = util.ToLower, lower
	case 2:
		f, g = util.ToUpper, upper
	case 3:
		f, g = util.ToKey, key
	}
	got := f(s)
	sym.Assert(len(got) == n, "length is kept")
	if len(got) == n {
		for i := 0; i < n; i++ {
			sym.Assert(got[i] == g(was[i]), "each character is converted on its own")
		}
	}
	sym.Assert(sym.EqStr(s, string(was)), "the argument is not modified")
	sym.Assert(sym.EqStr(f(got), got), "conversion is idempotent")
	sym.Assert(sym.EqStr(got, f(string(was))), "conversion depends on its argument only")
	sym.Reach("end")
}

// C22_key: key conversion is slash conversion and lower casing.
func C22_key() {
	s := sym.String("s", sym.IntRange("len", 0, 4+sym.Tier()))
	k := util.ToKey(s)
	sym.Assert(sym.EqStr(k, util.ToLower(util.ToSlash(s))), "key is the lower case of the path with slashes")
	sym.Reach("end")
}

// C22_join: paths are joined by one separator.
func C22_join() {
	max := 3 + sym.Tier()
	dir := sym.String("dir", sym.IntRange("len.dir", 0, max))
	base := sym.String("base", sym.IntRange("len.base", 0, max))
	var got string
	if sym.Bool("file") {
		got = util.JoinFilePath(dir, base)
	} else {
		got = util.JoinPath(dir, base)
	}
	want := ""
	switch {
	case dir == "" || dir == ".":
		want = base
	case base == "" || base == ".":
		want = dir
	default:
		d, b := dir, base
		if d[len(d)-1] == os.PathSeparator {
			d = d[:len(d)-1]
		}
		if b[0] == os.PathSeparator {
			b = b[1:]
		}
		want = d + "/" + b
	}
	sym.Assert(sym.EqStr(got, want), "parts are joined by one separator")
	sym.Reach("end")
}

// C22_name: the bare name has no directories and nothing from the first dot on.
func C22_name() {
	s := sym.String("s", sym.IntRange("len", 0, 5+sym.Tier()))
	from := 0
	for i := 0; i < len(s); i++ {
		if sym.Or(s[i] == '/', s[i] == '\\') {
			from = i + 1
		}
	}
	to := len(s)
	for i := len(s) - 1; i >= from; i-- {
		if s[i] == '.' {
			to = i
		}
	}
	sym.Assert(sym.EqStr(util.PathName(s), s[from:to]), "bare name")
	sym.Reach("end")
}

// C22_ext: package file names differ from the given one in the extension.
func C22_ext() {
	s := sym.String("s", sym.IntRange("len", 0, 5+sym.Tier()))
	to := len(s)
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			break
		}
		if s[i] == '.' {
			to = i
			break
		}
	}
	sym.Assert(sym.EqStr(wpk.MakeTagsPath(s), s[:to]+".wpt"), "path of the tags file")
	sym.Assert(sym.EqStr(wpk.MakeDataPath(s), s[:to]+".wpf"), "path of the data file")
	sym.Reach("end")
}
