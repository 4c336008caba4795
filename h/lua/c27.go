package lua

import (
	"encoding/hex"
	"time"

	"verif/sym"

	glua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	lw "github.com/schwarzlichtbezirk/wpk/luawpk"
)

// kind of the value of a tag in scripts
const (
	kAny = iota
	kBin
	kStr
	kUint
	kTime
)

type named struct {
	name string
	tid  wpk.TID
	kind int
}

// table of the documentation
var tags = []named{
	{"fid", 4, kUint}, {"attr", 9, kUint},
	{"mtime", 5, kTime}, {"atime", 6, kTime}, {"ctime", 7, kTime}, {"btime", 8, kTime},
	{"mime", 10, kStr}, {"label", 110, kStr}, {"link", 111, kStr}, {"keywords", 112, kStr},
	{"category", 113, kStr}, {"version", 114, kStr}, {"author", 115, kStr}, {"comment", 116, kStr},
	{"crc32ieee", 11, kBin}, {"crc32", 12, kBin}, {"crc32c", 12, kBin}, {"crc32k", 13, kBin},
	{"crc64", 14, kBin}, {"crc64iso", 14, kBin}, {"md5", 20, kBin}, {"sha1", 21, kBin},
	{"sha224", 22, kBin}, {"sha256", 23, kBin}, {"sha384", 24, kBin}, {"sha512", 25, kBin},
	{"tmbjpeg", 100, kBin}, {"tmbwebp", 101, kBin},
}

// someKey makes the key of a tag: by name, by number or unknown one.
func someKey() (key glua.LValue, tid wpk.TID, kind int) {
	i := sym.IntRange("tag", 0, len(tags))
	if i == len(tags) {
		tid = sym.Uint16("tid")
		free := tid > 3
		for _, t := range tags {
			free = sym.And(free, tid != t.tid)
		}
		sym.Assume(free)
		return glua.LNumber(tid), tid, kAny
	}
	if sym.Bool("byname") {
		return glua.LString(tags[i].name), tags[i].tid, tags[i].kind
	}
	return glua.LNumber(tags[i].tid), tags[i].tid, tags[i].kind
}

func le(v uint64) []byte {
	n := 1
	switch {
	case v >= 1<<32:
		n = 8
	case v >= 1<<16:
		n = 4
	case v >= 1<<8:
		n = 2
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

const layout = "2006-01-02T15:04:05.999Z07:00"

// value is a value for a tag with what is expected of it.
type value struct {
	v   glua.LValue
	ok  bool
	raw []byte      // content of tag
	get glua.LValue // value that is read back
}

// someFloat makes a number of any value or of one of a few values.
func someFloat(any bool) float64 {
	if any {
		return sym.Float64("f")
	}
	return []float64{7, 300.5, -1}[sym.IntRange("f", 0, 2)]
}

// someValue makes a value for a tag of given kind. It is of narrower choice if
// not deep.
func someValue(kind int, deep bool) (x value) {
	x.ok = true
	form := 1
	if deep || sym.Tier() > 0 {
		form = sym.IntRange("form", 0, 3)
	}
	if form == 3 {
		x.v, x.ok = []glua.LValue{glua.LNil, &glua.LTable{}, &glua.LUserData{}}[sym.IntRange("bad", 0, 2)], false
		return
	}
	switch kind {
	case kUint:
		var n uint64
		switch form {
		case 0:
			f := someFloat(deep)
			x.v = glua.LNumber(f)
			x.ok = f > -1 && f < 1<<64
			if !x.ok {
				return
			}
			n = uint64(f)
		case 1:
			s := someString(deep, 2+sym.Tier(), "", "42", "-1", "7x")
			x.v = glua.LString(s)
			t := s
			neg := false
			if len(t) > 0 && (t[0] == '+' || t[0] == '-') {
				neg = t[0] == '-'
				t = t[1:]
			}
			x.ok = len(t) > 0
			for i := 0; i < len(t); i++ {
				if t[i] < '0' || t[i] > '9' {
					x.ok = false
					return
				}
				n = n*10 + uint64(t[i]-'0')
			}
			if neg && n != 0 {
				x.ok = false
			}
		case 2:
			b := sym.Bool("b")
			x.v = glua.LBool(b)
			if b {
				n = 1
			}
		}
		x.raw = le(n)
		n = 0
		for i, b := range x.raw {
			n |= uint64(b) << (8 * i)
		}
		x.get = glua.LNumber(n)
	case kBin:
		switch form {
		case 0:
			f := someFloat(deep)
			x.v = glua.LNumber(f)
			x.ok = f > -1 && f < 1<<64
			if !x.ok {
				return
			}
			x.raw = le(uint64(f))
		case 1:
			s := someString(deep, 2+2*sym.Tier(), "", "6fF0", "6fF", "6g")
			x.v = glua.LString(s)
			x.ok = len(s)%2 == 0
			for i := 0; i < len(s); i++ {
				c := s[i]
				d := sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F')))
				if !d {
					x.ok = false
				}
			}
			if !x.ok {
				return
			}
			x.raw, _ = hex.DecodeString(s)
		case 2:
			x.v, x.ok = glua.LBool(sym.Bool("b")), false
			return
		}
		x.get = glua.LString(hex.EncodeToString(x.raw))
	case kStr:
		switch form {
		case 0:
			i := sym.IntRange("n", 0, 3)
			x.v = []glua.LNumber{0, -12, 1.5, 123456789012}[i]
			x.raw = []byte([]string{"0", "-12", "1.5", "123456789012"}[i])
		case 1:
			if deep && sym.Bool("long") {
				b := make([]byte, 65535+sym.IntRange("over", 0, 1))
				x.ok = len(b) < 65536
				x.raw = b
				x.v = glua.LString(b)
			} else {
				s := someString(deep, 3, "", "\x00\xff", "text")
				x.v, x.raw = glua.LString(s), []byte(s)
			}
		case 2:
			b := sym.Bool("b")
			x.v = glua.LBool(b)
			x.raw = []byte("false")
			if b {
				x.raw = []byte("true")
			}
		}
		x.get = glua.LString(x.raw)
	case kTime:
		var t time.Time
		switch form {
		case 0:
			switch sym.IntRange("range", 0, 1) {
			case 0:
				ms := []int64{0, -1500, 253402300799001, 1709251199000}[sym.IntRange("base", 0, 3)]
				if deep && ms == 1709251199000 {
					ms += int64(sym.Uint8("ms")) * 10
				}
				x.v = glua.LNumber(ms)
				t = time.UnixMilli(ms)
				x.raw = make([]byte, 8)
				for i := range x.raw {
					x.raw[i] = byte(uint64(ms) >> (8 * i))
				}
			case 1:
				f := someFloat(true)
				sym.Assume(!(f >= -1<<63 && f < 1<<63))
				x.v, x.ok = glua.LNumber(f), false
				return
			}
		case 1:
			d := []byte("059")
			if deep {
				d = sym.Bytes("d", 3)
			} else {
				d[1] = sym.Uint8("d")
			}
			for i, c := range d {
				if c < '0' || c > '9' || i == 0 && c > '5' {
					x.ok = false
				}
			}
			s := string(d)
			x.v = glua.LString("2024-02-29T23:59:" + s[:2] + "." + s[2:] + "Z")
			if !x.ok {
				// other digits of fraction may follow
				sym.Assume(d[2] != 'Z' && d[2] != '+' && d[2] != '-')
				return
			}
			sec := int64(d[0]-'0')*10 + int64(d[1]-'0')
			t = time.Unix(1709251140+sec, int64(d[2]-'0')*100000000)
			x.raw = make([]byte, 12)
			for i := 0; i < 8; i++ {
				x.raw[i] = byte(uint64(t.Unix()) >> (8 * i))
			}
			for i := 0; i < 4; i++ {
				x.raw[8+i] = byte(t.Nanosecond() >> (8 * i))
			}
		case 2:
			x.v, x.ok = glua.LBool(sym.Bool("b")), false
			return
		}
		x.get = glua.LString(t.UTC().Format(layout))
	default:
		switch form {
		case 0:
			f := someFloat(deep)
			x.v = glua.LNumber(f)
			if f >= 0 && f < 1<<63 && f == float64(int64(f)) {
				x.raw = le(uint64(f))
			} else {
				sym.Assume(f == f)
				x.raw = wpk.NumberTag(f)
			}
		case 1:
			s := someString(deep, 3, "", "\x00\xff", "text")
			x.v, x.raw = glua.LString(s), []byte(s)
		case 2:
			b := sym.Bool("b")
			x.v = glua.LBool(b)
			x.raw = []byte{0}
			if b {
				x.raw[0] = 1
			}
		}
		x.get = glua.LString(x.raw)
	}
	return
}

// someString gives a string of up to n any characters, or one of given.
func someString(deep bool, n int, of ...string) string {
	if deep {
		return sym.String("s", sym.IntRange("len", 0, n))
	}
	return of[sym.IntRange("s", 0, len(of)-1)]
}

// goPack gives the package of an object.
func goPack(p glua.LValue) *lw.LuaPackage { return p.(*glua.LUserData).Value.(*lw.LuaPackage) }

// entry is a tag of a file.
type entry struct {
	tid wpk.TID
	raw []byte
}

// entries gives tags of a file or of the package in their order.
func entries(ts wpk.TagsetRaw) (res []entry) {
	for it := ts.Iterator(); it.Next(); {
		res = append(res, entry{it.TID(), append([]byte{}, it.Tag()...)})
	}
	return
}

func sameEntries(a, b []entry, what string) {
	sym.Assert(len(a) == len(b), what)
	for i := range a {
		if i < len(b) {
			sym.Assert(sym.And(a[i].tid == b[i].tid, sym.EqBytes(a[i].raw, b[i].raw)), what)
		}
	}
}

func find(es []entry, tid wpk.TID) int {
	for i, e := range es {
		if e.tid == tid {
			return i
		}
	}
	return -1
}

// sameValue compares values of scripts.
func sameValue(a, b glua.LValue) bool {
	switch a := a.(type) {
	case glua.LString:
		b, ok := b.(glua.LString)
		return ok && sym.EqStr(string(a), string(b))
	case glua.LNumber:
		b, ok := b.(glua.LNumber)
		return ok && a == b
	}
	return false
}

const fkey = glua.LString("dir/a")

// begun gives a package with two files.
func begun() (m vm, p glua.LValue) {
	m = newVM()
	p = m.pack()
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is begun")
	_, err = m.call(p, "putdata", fkey, glua.LString("data"))
	must(err, "file is put")
	_, err = m.call(p, "putdata", glua.LString("b"), glua.LString("other"))
	must(err, "file is put")
	return
}

func (m vm) table(k, v glua.LValue) *glua.LTable {
	t := m.ls.NewTable()
	t.RawSet(k, v)
	return t
}

func tagsOf(p glua.LValue, name string) []entry {
	ts, ok := goPack(p).GetTagset(name)
	sym.Assert(ok, "file is in package")
	return entries(ts)
}

// tagged sets a tag of a file by one of calls, and checks what comes of it.
func tagged(m vm, p glua.LValue, form int, had bool, key glua.LValue, tid wpk.TID, x value) {
	if had {
		ts, _ := goPack(p).GetTagset(string(fkey))
		goPack(p).SetupTagset(wpk.CopyTagset(ts).Put(tid, wpk.StrTag("old")).Put(117, wpk.StrTag("more")))
		sym.Assume(tid != 117)
	}
	was := tagsOf(p, string(fkey))
	other := tagsOf(p, "b")
	want := was
	at := find(was, tid)
	var err error
	var res []glua.LValue
	switch form {
	case 0:
		res, err = m.call(p, "settag", fkey, key, x.v)
	case 1:
		res, err = m.call(p, "addtag", fkey, key, x.v)
	case 2:
		sym.Assume(x.v != glua.LNil)
		res, err = m.call(p, "settags", fkey, m.table(key, x.v))
	case 3:
		sym.Assume(x.v != glua.LNil)
		res, err = m.call(p, "addtags", fkey, m.table(key, x.v))
	}
	sym.Assert((err == nil) == x.ok, "value that cannot be converted raises an error, and no other")
	if x.ok {
		set := form == 0 || form == 2
		want = append([]entry{}, was...)
		if at < 0 {
			want = append(want, entry{tid, x.raw})
		} else if set {
			want[at].raw = x.raw
		}
		switch form {
		case 1:
			sym.Assert(len(res) == 1 && res[0] == glua.LBool(at < 0), "call tells whether tag is added")
		case 3:
			n := glua.LNumber(0)
			if at < 0 {
				n = 1
			}
			sym.Assert(len(res) == 1 && res[0] == n, "call gives the number of added tags")
		}
		sym.Reach("set")
	} else {
		sym.Reach("bad")
	}
	sameEntries(tagsOf(p, string(fkey)), want, "exactly the tag is changed")
	sameEntries(tagsOf(p, "b"), other, "other file is not changed")
	if x.ok && (at < 0 || form == 0 || form == 2) {
		res, err = m.call(p, "gettag", fkey, key)
		must(err, "tag is read")
		sym.Assert(len(res) == 1 && sameValue(res[0], x.get), "value is the one that was set")
		res, err = m.call(p, "hastag", fkey, key)
		must(err, "tag is checked")
		sym.Assert(len(res) == 1 && res[0] == glua.LTrue, "tag is there")
	}
	sym.Reach("end")
}

// C27_set: every tag by every call.
func C27_set() {
	m, p := begun()
	key, tid, kind := someKey()
	first := kind == kAny || tid == 4 || tid == 5 || tid == 10 || tid == 12
	had, form := false, 2*sym.IntRange("call", 0, 1)
	if first || sym.Tier() > 0 {
		had = sym.Bool("had")
		form += sym.IntRange("add", 0, 1)
	}
	if form > 1 && kind == kAny { // tables grow up to numeric keys
		sym.Assume(sym.Or(tid == 200, tid == 1000))
	}
	tagged(m, p, form, had, key, tid, someValue(kind, false))
}

// C27_value: values of one tag of each kind.
func C27_value() {
	m, p := begun()
	i := sym.IntRange("kind", 0, 4)
	tid, kind := []wpk.TID{4, 5, 10, 11, 200}[i], []int{kUint, kTime, kStr, kBin, kAny}[i]
	tagged(m, p, 0, false, glua.LNumber(tid), tid, someValue(kind, true))
}
