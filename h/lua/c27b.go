package lua

import (
	"encoding/hex"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
)

// anyKey makes any key of a tag, in a table if so demanded.
func anyKey(m vm, inTable bool) (key glua.LValue, tid wpk.TID, ok bool) {
	switch sym.IntRange("key", 0, 3) {
	case 0:
		f := sym.Float64("f")
		if inTable {
			sym.Assume(f == f)
		}
		ok = f > -1 && f < 65536
		if ok {
			tid = wpk.TID(f)
		}
		return glua.LNumber(f), tid, ok
	case 1:
		n := sym.IntRange("len", 0, 4+sym.Tier()*2)
		s := sym.String("name", n)
		if s == "offset" {
			return glua.LString(s), 1, true
		}
		for _, t := range append([]named{{"size", 2, kUint}, {"path", 3, kStr}}, tags...) {
			if s == t.name {
				return glua.LString(s), t.tid, true
			}
		}
		return glua.LString(s), 0, false
	case 2:
		i := sym.IntRange("protected", 1, 3)
		return glua.LString([]string{"offset", "size", "path"}[i-1]), wpk.TID(i), true
	default:
		i := sym.IntRange("kind", 0, 3)
		if inTable {
			sym.Assume(i != 0)
		}
		return []glua.LValue{glua.LNil, glua.LTrue, m.ls.NewTable(), &glua.LUserData{}}[i], 0, false
	}
}

// C27_keys: keys of any kind and protected tags at all calls.
func C27_keys() {
	m, p := begun()
	calls := []string{"settag", "addtag", "deltag", "hastag", "gettag", "settags", "addtags", "deltags", "putdata", "setupinfo"}
	i := sym.IntRange("call", 0, len(calls)-1)
	call, inTable := calls[i], i >= 5
	key, tid, ok := anyKey(m, inTable)
	protected := ok && sym.And(tid > 0, tid < 4)
	if protected && call != "hastag" && call != "gettag" {
		ok = false
	}
	args := []glua.LValue{fkey, key, glua.LString("00")}
	sym.Assume(sym.Or(!ok, sym.Or(tid < 4, tid > 8))) // strings for numbers and times are of other harness
	if inTable {
		t := m.ls.NewTable()
		t.RawSetH(key, glua.LString("00"))
		args = []glua.LValue{fkey, t}
		switch call {
		case "putdata":
			args = []glua.LValue{glua.LString("new"), glua.LString("content"), t}
		case "setupinfo":
			args = []glua.LValue{t}
		}
	}
	if call == "hastag" || call == "gettag" || call == "deltag" {
		args = args[:2]
	}
	was, other := tagsOf(p, string(fkey)), tagsOf(p, "b")
	info := entries(goPack(p).GetInfo())
	_, err := m.call(p, call, args...)
	sym.Assert((err == nil) == ok, "exactly the keys of tags that can be used are accepted")
	sameEntries(tagsOf(p, "b"), other, "other file is not changed")
	now := tagsOf(p, string(fkey))
	if err != nil {
		sameEntries(now, was, "call that failed changes nothing")
		sameEntries(entries(goPack(p).GetInfo()), info, "call that failed changes nothing")
		sym.Reach("refused")
	} else {
		sym.Reach("accepted")
	}
	for _, t := range []wpk.TID{1, 2, 3} {
		a, b := find(was, t), find(now, t)
		sym.Assert(a >= 0 && b >= 0 && sym.EqBytes(was[a].raw, now[b].raw), "position, size and path are not changed")
	}
	sym.Assert(goPack(p).HasTagset("new") == (ok && call == "putdata"), "file is put by call that succeeded only")
	sym.Reach("end")
}

// C27_file: calls for files that are not in package.
func C27_file() {
	m, p := begun()
	calls := []string{"hastag", "gettag", "settag", "addtag", "deltag", "gettags", "settags", "addtags", "deltags", "filesize"}
	i := sym.IntRange("call", 0, len(calls)-1)
	names := []string{"", "a", "dir", "dir/a", "DIR/A", "dir/a/", "b", "c"}
	name := names[sym.IntRange("name", 0, len(names)-1)]
	there := goPack(p).HasTagset(name)
	sym.Assert(there || name != "dir/a" && name != "b", "files are found by names")
	sym.Assert(!there || name != "" && name != "a" && name != "dir" && name != "c", "files are found by names")
	args := []glua.LValue{glua.LString(name), glua.LString("comment"), glua.LString("text")}
	switch calls[i] {
	case "settags", "addtags", "deltags":
		args = []glua.LValue{glua.LString(name), m.table(glua.LString("comment"), glua.LString("text"))}
	}
	was := [][]entry{tagsOf(p, string(fkey)), tagsOf(p, "b")}
	_, err := m.call(p, calls[i], args...)
	sym.Assert((err == nil) == there, "call for missing file raises an error, and no other")
	if !there {
		sameEntries(tagsOf(p, string(fkey)), was[0], "nothing is changed")
		sameEntries(tagsOf(p, "b"), was[1], "nothing is changed")
	}
	n := 0
	goPack(p).Enum(func(string, wpk.TagsetRaw) bool { n++; return true })
	sym.Assert(n == 2, "no files appear")
	sym.Reach("end")
}

// pair is an entry of a table for calls of several tags.
type pair struct {
	key glua.LValue
	tid wpk.TID
	v   glua.LValue
	ok  bool
	raw []byte
}

// somePairs makes up to n entries of different keys.
func somePairs(n int) (ps []pair) {
	all := []pair{
		{glua.LString("comment"), 116, glua.LString("text"), true, []byte("text")},
		{glua.LString("attr"), 9, glua.LNumber(300), true, []byte{0x2c, 1}},
		{glua.LString("crc32"), 12, glua.LString("00ff"), true, []byte{0, 255}},
		{glua.LNumber(12), 12, glua.LString("aa"), true, []byte{0xaa}},
		{glua.LNumber(117), 117, glua.LTrue, true, []byte{1}},
		{glua.LString("link"), 111, glua.LFalse, true, []byte("false")},
		{glua.LString("md5"), 20, glua.LString("0"), false, nil},
		{glua.LString("size"), 2, glua.LNumber(1), false, nil},
		{glua.LString("nothing"), 0, glua.LString("text"), false, nil},
		{glua.LTrue, 0, glua.LString("text"), false, nil},
	}
	from := 0
	for i := 0; i < n && from < len(all) && sym.Bool("more"); i++ {
		k := sym.IntRange("entry", from, len(all)-1)
		ps = append(ps, all[k])
		from = k + 1
	}
	return
}

func (m vm) tableOf(ps []pair) *glua.LTable {
	t := m.ls.NewTable()
	for _, p := range ps {
		t.RawSetH(p.key, p.v)
	}
	return t
}

// given tells whether tag can be made of entries, and of any of them.
func given(ps []pair, tid wpk.TID, raw []byte) (there, same bool) {
	for _, p := range ps {
		if p.tid == tid && p.ok {
			there = true
			same = same || string(p.raw) == string(raw)
		}
	}
	return
}

// C27_tables: calls with tables of several tags.
func C27_tables() {
	m, p := begun()
	ts, _ := goPack(p).GetTagset(string(fkey))
	ts = wpk.CopyTagset(ts)
	olds := []wpk.TID{116, 12, 9}
	had := 0
	for i, tid := range olds {
		if sym.Bool("had") {
			had++
			ts = ts.Put(tid, wpk.StrTag([]string{"old", "longer old", ""}[i]))
		}
	}
	goPack(p).SetupTagset(ts)
	ps := somePairs(2 + sym.Tier())
	ok, bad := map[wpk.TID]bool{}, false
	for _, x := range ps {
		if x.ok {
			ok[x.tid] = true
		} else {
			bad = true
		}
	}
	was, other := tagsOf(p, string(fkey)), tagsOf(p, "b")
	call := []string{"settags", "addtags", "deltags", "putdata", "putfile"}[sym.IntRange("call", 0, 4)]
	if call == "deltags" { // values are not used
		bad = false
		for i := range ps {
			if ps[i].tid == 20 {
				ps[i].ok = true
			}
			bad = bad || !ps[i].ok
		}
	}
	args := []glua.LValue{fkey, m.tableOf(ps)}
	name := string(fkey)
	switch call {
	case "putdata", "putfile":
		name = "new"
		args = []glua.LValue{glua.LString("new"), glua.LString("content"), args[1]}
		if call == "putfile" {
			args[1] = glua.LString(source())
		}
		was = nil
		// tags of the file without those of the table
		_, err := m.call(p, call, glua.LString("c"), args[1])
		must(err, "file is put")
		was = tagsOf(p, "c")
	}
	res, err := m.call(p, call, args...)
	sym.Assert((err == nil) == !bad, "entries that cannot be converted raise an error, and no other")
	sameEntries(tagsOf(p, "b"), other, "other file is not changed")
	if bad {
		if name == "new" {
			sym.Assert(!goPack(p).HasTagset("new"), "file with tags that cannot be converted is not put")
		} else {
			sameEntries(tagsOf(p, name), was, "call that failed changes nothing")
		}
		sym.Reach("bad")
		sym.Reach("end")
		return
	}
	now := tagsOf(p, name)
	seen := map[wpk.TID]bool{}
	for _, e := range now {
		sym.Assert(!seen[e.tid], "tag is single")
		seen[e.tid] = true
		at := find(was, e.tid)
		there, same := given(ps, e.tid, e.raw)
		switch {
		case call == "deltags":
			sym.Assert(at >= 0 && !there && sym.EqBytes(was[at].raw, e.raw), "exactly the given tags are deleted")
		case call == "addtags" && at >= 0:
			sym.Assert(sym.EqBytes(was[at].raw, e.raw), "tags that were before are not changed")
		case there:
			sym.Assert(same, "tags have given values")
		case name == "new" && e.tid <= 8: // position, name and time
			sym.Assert(at >= 0, "no other tags")
		default:
			sym.Assert(at >= 0 && sym.EqBytes(was[at].raw, e.raw), "other tags are not changed")
		}
	}
	gone := 0
	for _, e := range was {
		if !seen[e.tid] {
			gone++
			there, _ := given(ps, e.tid, nil)
			sym.Assert(call == "deltags" && there, "no other tags are deleted")
		}
	}
	for _, x := range ps {
		if call != "deltags" {
			sym.Assert(seen[x.tid], "all tags are set")
		}
	}
	switch call {
	case "addtags":
		sym.Assert(len(res) == 1 && res[0] == glua.LNumber(len(now)-len(was)), "call gives the number of added tags")
	case "deltags":
		sym.Assert(len(res) == 1 && res[0] == glua.LNumber(gone), "call gives the number of deleted tags")
	}
	sym.Reach("end")
}

// C27_del: deletion of single tags.
func C27_del() {
	m, p := begun()
	key, tid, kind := someKey()
	had := sym.Bool("had")
	ts, _ := goPack(p).GetTagset(string(fkey))
	ts = wpk.CopyTagset(ts)
	if sym.Bool("before") {
		sym.Assume(tid != 117)
		ts = ts.Put(117, wpk.StrTag("more"))
	}
	if had {
		ts = ts.Put(tid, wpk.TagRaw(sym.Bytes("tag", sym.IntRange("len", 0, 2))))
	}
	if sym.Bool("after") {
		sym.Assume(tid != 118)
		ts = ts.Put(118, wpk.StrTag("less"))
	}
	goPack(p).SetupTagset(ts)
	was, other := tagsOf(p, string(fkey)), tagsOf(p, "b")
	var want []entry
	for _, e := range was {
		if e.tid != tid {
			want = append(want, e)
		}
	}
	var res []glua.LValue
	var err error
	var count glua.LValue = glua.LBool(had)
	if kind != kAny && sym.Bool("table") {
		v := []glua.LValue{glua.LFalse, glua.LString("text"), glua.LNumber(1), m.ls.NewTable()}[sym.IntRange("value", 0, 3)]
		res, err = m.call(p, "deltags", fkey, m.table(key, v))
		count = glua.LNumber(0)
		if had {
			count = glua.LNumber(1)
		}
	} else {
		res, err = m.call(p, "deltag", fkey, key)
	}
	must(err, "tag is deleted")
	sym.Assert(len(res) == 1 && res[0] == count, "call tells whether tag is deleted")
	sameEntries(tagsOf(p, string(fkey)), want, "exactly the tag is deleted")
	sameEntries(tagsOf(p, "b"), other, "other file is not changed")
	res, err = m.call(p, "hastag", fkey, key)
	must(err, "tag is checked")
	sym.Assert(len(res) == 1 && res[0] == glua.LFalse, "tag is not there any more")
	res, err = m.call(p, "gettag", fkey, key)
	must(err, "tag is read")
	sym.Assert(len(res) == 0, "tag is not there any more")
	sym.Reach("end")
}

// C27_all: table of all tags of a file.
func C27_all() {
	m, p := begun()
	key, tid, kind := someKey()
	if kind == kAny {
		sym.Assume(sym.Or(tid == 200, tid == 1000))
	}
	x := someValue(kind, false)
	sym.Assume(x.ok)
	_, err := m.call(p, "settag", fkey, key, x.v)
	must(err, "tag is set")
	if sym.Bool("alias") { // of the same tags
		_, err = m.call(p, "putalias", fkey, glua.LString("new/name"))
		must(err, "alias is put")
	}
	for _, name := range []string{"dir/a", "b", "new/name"} {
		ts, ok := goPack(p).GetTagset(name)
		if !ok {
			continue
		}
		res, err := m.call(p, "gettags", glua.LString(name))
		must(err, "tags are read")
		sym.Assert(len(res) == 1 && res[0].Type() == glua.LTTable, "tags are in table")
		t := res[0].(*glua.LTable)
		es, n := entries(ts), 0
		t.ForEach(func(k, v glua.LValue) {
			n++
			one, err := m.call(p, "gettag", glua.LString(name), k)
			must(err, "each key of table is key of tag")
			sym.Assert(len(one) == 1 && sameValue(one[0], v), "values of table are values of tags")
		})
		sym.Assert(n == len(es), "all tags are in table")
		if name == "dir/a" {
			var v glua.LValue
			if kind == kAny {
				v = t.RawGet(glua.LNumber(tid))
			} else {
				for _, x := range tags {
					if x.tid == tid && v != nil && v == glua.LNil || x.tid == tid && v == nil {
						v = t.RawGetString(x.name)
					}
				}
			}
			sym.Assert(v != nil && v != glua.LNil && sameValue(v, x.get), "tag is in table by its name")
			sym.Assert(sameValue(t.RawGetString("path"), fkey), "path of file is in table")
			sym.Assert(sameValue(t.RawGetString("size"), glua.LNumber(4)), "size of file is in table")
		}
	}
	sym.Reach("end")
}

// C27_info: info of package.
func C27_info() {
	m, p := begun()
	was, other := tagsOf(p, string(fkey)), tagsOf(p, "b")
	label := func() glua.LValue { return m.ls.GetField(p, "label") }
	info := func() *glua.LTable {
		res, err := m.call(p, "getinfo")
		must(err, "info is read")
		sym.Assert(len(res) == 1 && res[0].Type() == glua.LTTable, "info is in table")
		return res[0].(*glua.LTable)
	}
	size := func(t *glua.LTable) (n int) {
		t.ForEach(func(k, v glua.LValue) { n++ })
		return
	}
	sym.Assert(label() == glua.LNil && size(info()) == 0, "new package has no info")
	want := map[string]glua.LValue{}
	for i := 0; i < 2+sym.Tier() && sym.Bool("more"); i++ {
		switch sym.IntRange("op", 0, 1) {
		case 0:
			s := glua.LString(sym.String("label", sym.IntRange("len", 0, 1)))
			m.ls.SetField(p, "label", s)
			want["label"] = s
		case 1:
			vals := map[string]glua.LValue{}
			t := m.ls.NewTable()
			mask := sym.IntRange("given", 0, 5)
			if mask&1 != 0 {
				s := glua.LString(sym.String("author", 1))
				vals["author"] = s
				t.RawSetString("author", s)
			}
			if mask&2 != 0 {
				vals["label"] = glua.LString("L")
				t.RawSetString("label", glua.LString("L"))
			}
			if mask == 4 {
				b := sym.Bytes("sum", 2)
				s := glua.LString(hex.EncodeToString(b))
				vals["md5"] = s
				t.RawSetString("md5", s)
			}
			if mask == 5 { // a tag without a name
				s := glua.LString(sym.String("more", 1))
				vals["200"] = s
				t.RawSetInt(200, s)
			}
			bad := mask < 2 && sym.Bool("bad")
			if bad {
				t.RawSetString([]string{"offset", "link", "unknown"}[sym.IntRange("which", 0, 2)], m.ls.NewTable())
			}
			_, err := m.call(p, "setupinfo", t)
			sym.Assert((err == nil) == !bad, "tags that cannot be converted raise an error, and no other")
			if !bad {
				want = vals
			}
		}
		l := label()
		if v, ok := want["label"]; ok {
			sym.Assert(sameValue(l, v), "label is the one that was set")
		} else {
			sym.Assert(l == glua.LNil, "no label")
		}
		got := info()
		sym.Assert(size(got) == len(want), "info has exactly the tags that were set")
		for k, v := range want {
			if k == "200" {
				sym.Assert(sameValue(got.RawGetInt(200), v), "info has the values that were set")
				continue
			}
			sym.Assert(sameValue(got.RawGetString(k), v), "info has the values that were set")
		}
	}
	sameEntries(tagsOf(p, string(fkey)), was, "files are not changed")
	sameEntries(tagsOf(p, "b"), other, "files are not changed")
	sym.Reach("end")
}

// C27_infos: info of package with any tag, of open and of loaded package.
func C27_infos() {
	m := newVM()
	p := m.pack()
	args := []glua.LValue{glua.LString(sym.Root() + "/p.wpk")}
	if sym.Bool("split") {
		args = append(args, glua.LString(sym.Root()+"/p.wpf"))
	}
	_, err := m.call(p, "begin", args...)
	must(err, "package is begun")
	key, tid, kind := someKey()
	if kind == kAny {
		sym.Assume(sym.Or(tid == 200, tid == 1000))
	}
	sym.Assume(tid != wpk.TIDfid) // is of files only
	x := someValue(kind, false)
	sym.Assume(x.ok)
	t := m.ls.NewTable()
	t.RawSet(key, x.v)
	second := tid != wpk.TIDcomment && sym.Bool("second")
	if second {
		t.RawSetString("comment", glua.LString("text"))
	}
	_, err = m.call(p, "setupinfo", t)
	must(err, "info is set")
	look := func(p glua.LValue) {
		res, err := m.call(p, "getinfo")
		must(err, "info is read")
		sym.Assert(len(res) == 1 && res[0].Type() == glua.LTTable, "info is in table")
		t, n := res[0].(*glua.LTable), 0
		t.ForEach(func(k, v glua.LValue) {
			n++
			if second && k == glua.LString("comment") {
				sym.Assert(sameValue(v, glua.LString("text")), "info has the values that were set")
				return
			}
			for _, y := range tags {
				if glua.LString(y.name) == k {
					sym.Assert(y.tid == tid, "info has the tags that were set")
					k = nil
					break
				}
			}
			sym.Assert(k == nil || k == glua.LNumber(tid), "info has the tags that were set")
			sym.Assert(sameValue(v, x.get), "info has the values that were set")
		})
		want := 1
		if second {
			want = 2
		}
		sym.Assert(n == want, "info has the tags that were set")
	}
	look(p)
	_, err = m.call(p, "finalize")
	must(err, "package is finalized")
	look(p)
	q := m.pack()
	_, err = m.call(q, "load", args...)
	must(err, "package is loaded")
	look(q)
	sym.Reach("end")
}

// C27_loaded: tags of files of a loaded package, whose tables are parts of one.
func C27_loaded() {
	m, p := begun()
	names := []string{"dir/a", "b", "new/name"}[:2]
	put := func(name string, tid wpk.TID, s string) {
		_, err := m.call(p, "settag", glua.LString(name), glua.LNumber(tid), glua.LString(s))
		must(err, "tag is set")
	}
	put("dir/a", 110, "one")
	put("b", 110, "two")
	how := sym.IntRange("how", 0, 2)
	tids := []wpk.TID{110, 115}
	if how == 1 {
		put("dir/a", 116, "text")
		tids = append(tids, 116)
	}
	if how == 2 {
		_, err := m.call(p, "putalias", fkey, glua.LString("new/name"))
		must(err, "alias is put")
		names = names[:3]
	}
	m.ls.SetField(p, "label", glua.LString("all"))
	_, err := m.call(p, "finalize")
	must(err, "package is finalized")
	if how > 0 {
		p = m.pack()
	}
	_, err = m.call(p, "load", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is loaded")

	info := entries(goPack(p).GetInfo())
	want := map[string][]entry{}
	for _, name := range names {
		want[name] = tagsOf(p, name)
	}
	for i := 0; i < 2+sym.Tier(); i++ {
		name := names[sym.IntRange("file", 0, min(i+1, len(names)-1))]
		tid := tids[sym.IntRange("tag", 0, len(tids)-1)]
		key := glua.LNumber(tid)
		val := sym.String("value", []int{0, 3, 5}[sym.IntRange("len", 0, 2)])
		es := want[name]
		at := find(es, tid)
		set := entry{tid, []byte(val)}
		next := append([]entry{}, es...)
		switch sym.IntRange("op", 0, 4) {
		case 0:
			_, err = m.call(p, "settag", glua.LString(name), key, glua.LString(val))
			if at < 0 {
				next = append(next, set)
			} else {
				next[at] = set
			}
		case 4:
			_, err = m.call(p, "settags", glua.LString(name), m.table(key, glua.LString(val)))
			if at < 0 {
				next = append(next, set)
			} else {
				next[at] = set
			}
		case 1:
			_, err = m.call(p, "addtag", glua.LString(name), key, glua.LString(val))
			if at < 0 {
				next = append(next, set)
			}
		case 2:
			_, err = m.call(p, "addtags", glua.LString(name), m.table(key, glua.LString(val)))
			if at < 0 {
				next = append(next, set)
			}
		case 3:
			sym.Assume(len(val) == 0)
			_, err = m.call(p, "deltag", glua.LString(name), key)
			if at >= 0 {
				next = append(next[:at], next[at+1:]...)
			}
		}
		must(err, "tags are changed")
		want[name] = next
		for _, name := range names {
			sameEntries(tagsOf(p, name), want[name], "the tag of the file is changed, and nothing else")
		}
		sameEntries(entries(goPack(p).GetInfo()), info, "info is not changed")
	}
	sym.Reach("end")
}

// C27_many: calls with tables of more tags, any of which are there before.
func C27_many() {
	m, p := begun()
	keys := []string{"comment", "link", "version", "author", "category", "label"}
	tids := []wpk.TID{116, 111, 114, 115, 113, 110}
	ts, _ := goPack(p).GetTagset(string(fkey))
	ts = wpk.CopyTagset(ts)
	had := make([]bool, len(keys))
	before := 0
	for i, tid := range tids {
		if had[i] = sym.Bool("had"); had[i] {
			ts = ts.Put(tid, wpk.StrTag("old"[:i%4]))
			before++
		}
	}
	goPack(p).SetupTagset(ts)
	was, other := tagsOf(p, string(fkey)), tagsOf(p, "b")
	t := m.ls.NewTable()
	first, val := sym.IntRange("first", 0, len(keys)-1), sym.String("val", 2)
	for i := range keys {
		t.RawSetString(keys[(first+i)%len(keys)], glua.LString(val))
	}
	call := []string{"settags", "addtags", "deltags"}[sym.IntRange("call", 0, 2)]
	res, err := m.call(p, call, fkey, t)
	must(err, "tags are changed")
	sameEntries(tagsOf(p, "b"), other, "other file is not changed")
	now := tagsOf(p, string(fkey))
	count := 0
	for i, tid := range tids {
		at, old := find(now, tid), find(was, tid)
		sym.Assert((at >= 0) == (call != "deltags"), "all tags of the table are there, or none of them")
		switch {
		case call == "deltags":
			count += map[bool]int{true: 1}[had[i]]
		case call == "addtags" && had[i]:
			sym.Assert(sym.EqBytes(now[at].raw, was[old].raw), "tags that were before are not changed")
		default:
			sym.Assert(sym.EqStr(string(now[at].raw), val), "tags have given values")
			count++
		}
	}
	left := 0
	for _, e := range was {
		if e.tid < 110 {
			at := find(now, e.tid)
			sym.Assert(at >= 0 && sym.EqBytes(now[at].raw, e.raw), "other tags are not changed")
			left++
		}
	}
	if call == "deltags" {
		sym.Assert(len(now) == left, "no other tags")
	} else {
		sym.Assert(len(now) == left+len(keys), "no other tags")
	}
	if call != "settags" {
		sym.Assert(len(res) == 1 && res[0] == glua.LNumber(count), "call gives the number of changed tags")
	}
	sym.Reach("end")
}
