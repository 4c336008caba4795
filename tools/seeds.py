# Planted bugs: written from the texts of the properties and the code of the repository.
BUGS = []

def bug(id, prop, dir, edits, needs, breaks, demo, flags=''):
    BUGS.append(dict(id=id, prop=prop, dir=dir, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))

MEM = '''
// mem is a stream in memory, with faults
type mem struct {
	b    []byte
	pos  int64
	base int64 // position that is reported for the start of data
	fail func(op string, n int) error
}

func (m *mem) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	m.pos = off
	return off + m.base, nil
}

func (m *mem) Write(p []byte) (int, error) {
	if m.fail != nil {
		if err := m.fail("write", len(p)); err != nil {
			return 0, err
		}
	}
	for int64(len(m.b)) < m.pos+int64(len(p)) {
		m.b = append(m.b, 0)
	}
	copy(m.b[m.pos:], p)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *mem) Read(p []byte) (int, error) {
	if m.pos >= int64(len(m.b)) {
		return 0, io.EOF
	}
	n := copy(p, m.b[m.pos:])
	m.pos += int64(n)
	return n, nil
}

func (m *mem) at(ts wpk.TagsetRaw) string {
	o, s := ts.Pos()
	return string(m.b[o : o+s])
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}
'''

def core(imports, body, mem=True, pkg='wpk_test'):
    imps = set(imports) | {'testing', 'github.com/schwarzlichtbezirk/wpk'} | ({'io'} if mem else set())
    return 'package %s\n\nimport (\n%s)\n%s\nfunc TestDemo(t *testing.T) {%s}\n' % (
        pkg, ''.join('\t"%s"\n' % i for i in sorted(imps)), MEM if mem else '', body)

bug('s01', 'C03', '.', [('tagset.go', 'case val > 0xffff:', 'case val >= 0xffff:')],
    'the value 65535 exactly', 'the variable-length integer is not in its shortest form',
    core([], '''
	for _, v := range []uint{0, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0xffffffff, 0x100000000} {
		n := 1
		for n < 8 && v>>(8*n) != 0 {
			n *= 2
		}
		if tag := wpk.UintTag(v); len(tag) != n {
			t.Errorf("%x: %d bytes", v, len(tag))
		}
	}
''', mem=False))

bug('s02', 'C04', '.', [('tagset.go', '''		var milli = int64(util.GetU64(t))
		return time.Unix(milli/1000, (milli%1000)*1000000), true''', '''		var milli = util.GetU64(t)
		return time.Unix(int64(milli/1000), int64(milli%1000)*1000000), true''')],
    'an 8-byte time tag with a time before 1970', 'the time that reads back is not the one that was stored',
    core(['time'], '''
	for _, ms := range []int64{0, 1, 1234567, -1, -999, -1000, -123456789} {
		tm := time.UnixMilli(ms)
		if r, ok := wpk.UnixmsTag(tm).TagTime(); !ok || !r.Equal(tm) {
			t.Error(ms, r)
		}
	}
''', mem=False))

bug('s03', 'C05', '.', [('tagset.go', '''	if tsi.pos >= tsl {
		return
	}''', '''	if tsi.pos+PTStidsz > tsl {
		return // no room for the next tag
	}''')],
    'a tag set with exactly one byte after its last tag', 'iteration ends neither passed nor failed, the broken tail is not noticed',
    core([], '''
	for n := 0; n <= 5; n++ {
		ts := append(wpk.TagsetRaw{}.Put(10, wpk.StrTag("ab")), make([]byte, n)...)
		tsi := ts.Iterator()
		for tsi.Next() {
		}
		if good := n == 0 || n == 4; tsi.Passed() != good || tsi.Failed() == good {
			t.Error(n, tsi.Passed(), tsi.Failed())
		}
	}
''', mem=False))

bug('s04', 'C06', '.', [('tagset.go', """	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
	return ts, true""", """	if tsi.TagLen() == 0 {
		return ts, false // there is no content
	}
	return append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...), true""")],
    'deleting a tag with empty content', 'the tag remains and the result says that there is no such tag',
    core([], '''
	for _, s := range []string{"", "a", "abc"} {
		ts := wpk.TagsetRaw{}.Put(10, wpk.StrTag(s)).Put(11, wpk.StrTag("def"))
		ts, ok := ts.DelOk(10)
		if !ok || ts.Has(10) || ts.Num() != 1 {
			t.Errorf("%q is not deleted", s)
		}
	}
''', mem=False))

bug('s05', 'C07', '.', [('wpk.go', '''	for {
		var tsl uint16
		if tsl, err = util.ReadU16(r); err != nil {''', '''	var ts TagsetRaw
	for {
		var tsl uint16
		if tsl, err = util.ReadU16(r); err != nil {'''),
        ('wpk.go', '''		var ts = make(TagsetRaw, tsl)
		if _, err = io.ReadFull(r, ts); err != nil {
			return
		}
		n += int64(tsl)

		var fkey string''', '''		if ts = ts[:0]; cap(ts) < int(tsl) {
			ts = make(TagsetRaw, tsl)
		}
		ts = ts[:tsl]
		if _, err = io.ReadFull(r, ts); err != nil {
			return
		}
		n += int64(tsl)

		var fkey string''')],
    'reading a table from a stream where a later tag set is not longer than an earlier one',
    'tag sets of the table share their storage, the earlier ones get the content of the later ones',
    core(['bytes', 'strings'], '''
	var a, b wpk.FTT
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	for _, s := range []string{"longname", "name", "n2"} {
		_, err := pkg.PackData(m, strings.NewReader(s), s)
		ok(t, err)
	}
	ok(t, pkg.Sync(m, nil))
	ok(t, a.OpenStream(m))
	var buf bytes.Buffer
	_, err := pkg.FTT.WriteTo(&buf)
	ok(t, err)
	hdr, _, err := wpk.GetPackageInfo(m)
	ok(t, err)
	b.Init(&hdr)
	_, err = b.ReadFrom(&buf)
	ok(t, err)
	pa, pb := &wpk.Package{FTT: &a, Workspace: "."}, &wpk.Package{FTT: &b, Workspace: "."}
	pa.Enum(func(k string, ts wpk.TagsetRaw) bool {
		if r, _ := pb.GetTagset(k); string(r) != string(ts) {
			t.Errorf("%s: %x and %x", k, ts, r)
		}
		return true
	})
'''))

bug('s06', 'C08', '.', [('wpk.go', '''	if !isoffset {
		err''', '''	if !isoffset && size > 0 { // empty file has no data to point
		err''')],
    'a package file with an entry of size 0 that has no offset tag', 'the package opens with a file without an offset',
    core(['strings'], '''
	m, d := &mem{}, &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, d))
	pkg.SetTagset("x", wpk.TagsetRaw{}.Put(wpk.TIDsize, wpk.UintTag(0)).Put(wpk.TIDpath, wpk.StrTag("x")))
	_, err := pkg.PackData(d, strings.NewReader("abc"), "y")
	ok(t, err)
	ok(t, pkg.Sync(m, d))
	var f = wpk.NewPackage()
	if err := f.OpenStream(m); err == nil {
		f.Enum(func(k string, ts wpk.TagsetRaw) bool {
			if !ts.Has(wpk.TIDoffset) {
				t.Error("no offset of", k)
			}
			return true
		})
	}
'''))

bug('s07', 'C10', '.', [('writer.go', '''	// update data offset/pos
	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
	return
}

// PackData puts''', '''	// update data offset, its size is counted on each packed file
	ftt.datoffset = hdr.datoffset
	return
}

// PackData puts''')],
    'a file whose reading fails half way, then another file, sync, and append with the same package object',
    'append starts inside of the data of the last file and overwrites it',
    core(['strings', 'errors', 'testing/iotest'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	bad := io.MultiReader(strings.NewReader("12345"), iotest.ErrReader(errors.New("broken")))
	if _, err := pkg.PackData(m, bad, "bad"); err == nil {
		t.Fatal("no error")
	}
	_, err := pkg.PackData(m, strings.NewReader("abcdefgh"), "a")
	ok(t, err)
	ok(t, pkg.Sync(m, nil))
	ok(t, pkg.Append(m, nil))
	_, err = pkg.PackData(m, strings.NewReader("XYZ"), "b")
	ok(t, err)
	ok(t, pkg.Sync(m, nil))
	p2 := wpk.NewPackage()
	ok(t, p2.OpenStream(m))
	for k, v := range map[string]string{"a": "abcdefgh", "b": "XYZ"} {
		ts, _ := p2.GetTagset(k)
		if s := m.at(ts); s != v {
			t.Errorf("%s: %q", k, s)
		}
	}
'''))

bug('s08', 'C11', '.', [('tagset.go', 'case val > 0xffffffff:', 'case val > 0x100000000:')],
    'a file that starts at exactly 4 GiB, or is of exactly this size', 'the recorded position is 0 instead of 4 GiB, and runs into other files',
    core(['strings'], '''
	for _, base := range []int64{1<<32 - 1, 1 << 32, 1<<32 + 1} {
		m := &mem{base: base}
		pkg := wpk.NewPackage()
		ts, err := pkg.PackData(m, strings.NewReader("abc"), "a")
		ok(t, err)
		if o, s := ts.Pos(); o != uint(base) || s != 3 {
			t.Error(base, o, s)
		}
	}
'''))

bug('s09', 'C12', '.', [('wpk.go', 'return pkg.tsm.Has(pkg.FullPath(util.ToSlash(fkey)))', 'return pkg.tsm.Has(pkg.FullPath(fkey))')],
    'renaming onto an existing name that is written with backslashes', 'the existing file is replaced and lost',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	for _, s := range []string{"a", "d/b"} {
		_, err := pkg.PackData(m, strings.NewReader(s), s)
		ok(t, err)
	}
	if err := pkg.Rename("a", `d\\b`); err == nil {
		t.Error("renamed over existing file")
	}
	if ts, _ := pkg.GetTagset("d/b"); m.at(ts) != "d/b" {
		t.Error("existing file is lost")
	}
'''))

bug('s10', 'C13', '.', [('writer.go', """	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
	pkg.DelTagset(fkey1)
	pkg.SetTagset(fkey2, ts)
	return nil""", """	ts = ts.Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
	pkg.DelTagset(fkey1)
	pkg.SetTagset(fkey2, ts)
	return nil""")],
    'renaming to a longer name in a package that was opened from file, where another entry follows', 'the tags of the next entry are overwritten',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	for _, s := range []string{"a", "b"} {
		_, err := pkg.PackData(m, strings.NewReader(s), s)
		ok(t, err)
	}
	ok(t, pkg.Sync(m, nil))
	p2 := wpk.NewPackage()
	ok(t, p2.OpenStream(m))
	ok(t, p2.Rename("a", "longer"))
	p2.Enum(func(k string, ts wpk.TagsetRaw) bool {
		if ts.Path() != k || ts.Size() != 1 {
			t.Error(k, ts.Path(), ts.Size())
		}
		return true
	})
'''))

bug('s11', 'C14', 'util', [('util/seqmap.go', """		key, val, ok = m.seq[n].key, m.seq[n].val, true
		delete(m.idx, key)
		m.seq""", """		key, val, ok = m.seq[n].key, m.seq[n].val, true
		m.seq""")],
    'pop of an entry, and then push or poke of the same key after other entries', 'the key is taken for existing one, its value goes to other key',
    """package util_test

import (
	"testing"

	"github.com/schwarzlichtbezirk/wpk/util"
)

func TestDemo(t *testing.T) {
	var m util.SeqMap[string, int]
	m.Init(0)
	m.Poke("a", 1)
	m.Poke("b", 2)
	m.Pop()
	if m.Has("b") {
		t.Error("b is not deleted")
	}
	m.Poke("c", 3)
	m.Poke("b", 4)
	if v, _ := m.Peek("c"); v != 3 || m.Len() != 3 {
		t.Error(v, m.Len())
	}
}
""")

bug('s12', 'C15', '.', [('dir.go', '''	var prefix string
	if fulldir != "." && fulldir != "" {
		prefix = fulldir + "/" // set terminated slash
	}
	var f *PackDirFile''', '''	var prefix string
	if fulldir != "." {
		prefix = fulldir
	}
	var f *PackDirFile''')],
    'opening a name that is the beginning of a file name without being a directory', 'a directory that does not exist is opened',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	_, err := pkg.PackData(m, strings.NewReader("x"), "img/abc")
	ok(t, err)
	for _, s := range []string{"im", "img/a", "x"} {
		if _, err := pkg.Open(s); err == nil {
			t.Error("opened", s)
		}
		if _, err := pkg.Stat(s); err == nil {
			t.Error("info of", s)
		}
	}
	_, err = pkg.Open("img")
	ok(t, err)
'''))

bug('s13', 'C16', '.', [('wpk.go', '''				Workspace: pkg.FullPath(util.ToSlash(dir)),''', '''				Workspace: pkg.FullPath(dir),''')],
    'a view of a nested directory whose name is given with backslashes', 'files of the directory are not found by the view',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	_, err := pkg.PackData(m, strings.NewReader("x"), "a/b/c")
	ok(t, err)
	for _, d := range []string{"a/b", `a\\b`} {
		s, err := pkg.Sub(d)
		ok(t, err)
		if !s.(*wpk.Package).HasTagset("c") {
			t.Error(d)
		}
	}
'''))

bug('s14', 'C16', '.', [('wpk.go', '''		Put(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey))))''', '''		Put(TIDpath, StrTag(util.ToSlash(fkey)))''')],
    'packing a file through a subdirectory view and reading the package again', 'the file gets another name, outside of the subdirectory',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	_, err := pkg.PackData(m, strings.NewReader("x"), "a/x")
	ok(t, err)
	s, err := pkg.Sub("a")
	ok(t, err)
	_, err = s.(*wpk.Package).PackData(m, strings.NewReader("y"), "y")
	ok(t, err)
	ok(t, pkg.Sync(m, nil))
	p2 := wpk.NewPackage()
	ok(t, p2.OpenStream(m))
	if !p2.HasTagset("a/y") || p2.TagsetNum() != 2 {
		t.Error("a/y is lost")
	}
'''))

bug('s15', 'C17', '.', [('union.go', 'if idx >= uint64(len(u.List)) {', 'if idx > uint64(len(u.List)) {')],
    'opening the reserved name with the number equal to count of packages', 'crash instead of a not-exist error',
    core(['errors', 'io/fs'], '''
	u := &wpk.Union{List: []*wpk.Package{wpk.NewPackage(), wpk.NewPackage()}}
	for _, s := range []string{"@pack/2", "@pack/3"} {
		if _, err := u.Open(s); !errors.Is(err, fs.ErrNotExist) {
			t.Error(s, err)
		}
	}
''', mem=False))

bug('s16', 'C18', 'fsys', [('fsys/fsys.go', 'io.NewSectionReader(wpkf, int64(offset), int64(size))', 'io.NewSectionReader(wpkf, int64(offset), int64(offset+size))')],
    'a read or a seek to the end of file that is not at start of the data', 'bytes after the file are visible',
    '''package fsys_test

import (
	"io"
	"os"
	"path/filepath"
	"testing"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	if err := os.WriteFile(p, []byte("0123456789"), 0600); err != nil {
		t.Fatal(err)
	}
	tgr, _ := fsys.MakeTagger(p)
	f, err := tgr.OpenTagset(wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(3)).Put(wpk.TIDsize, wpk.UintTag(2)).Put(wpk.TIDpath, wpk.StrTag("x")))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if b, err := io.ReadAll(f); err != nil || string(b) != "34" {
		t.Errorf("%q %v", b, err)
	}
	if n, err := f.Seek(0, io.SeekEnd); n != 2 || err != nil {
		t.Error(n, err)
	}
}
''')

bug('s17', 'C20', '.', [('writer.go', '''	// rewrite prebuild signature
	if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
		return
	}''', '''	// rewrite prebuild signature, there is nothing to protect in empty package
	if ftt.tsm.Len() > 0 {
		if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
			return
		}
	}''')],
    'appending to a finished package without files, and a crash before it is finalised', 'the file that is left looks ready, with data of packed files in place of the tags table',
    core(['bytes', 'errors'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	ok(t, pkg.Sync(m, nil))
	ok(t, pkg.Append(m, nil))
	_, err := pkg.PackData(m, bytes.NewReader([]byte{0, 0, 0, 0, 0, 0}), "a")
	ok(t, err)
	// crash is here
	if err := wpk.NewPackage().OpenStream(m); !errors.Is(err, wpk.ErrSignPre) {
		t.Error(err)
	}
'''))

bug('s18', 'C21', '.', [('wpk.go', '''		if _, err = w.Write(ts); err != nil {
			return false
		}''', '''		if _, err := w.Write(ts); err != nil {
			return false
		}''')],
    'a single failed write of the content of some tag set during sync', 'sync reports success, but the tags table is not complete',
    core(['errors', 'strings'], '''
	for k := 0; ; k++ {
		m := &mem{}
		pkg := wpk.NewPackage()
		ok(t, pkg.Begin(m, nil))
		_, err := pkg.PackData(m, strings.NewReader("x"), "abc")
		ok(t, err)
		n, failed := 0, false
		m.fail = func(string, int) error {
			if n++; n == k+1 {
				failed = true
				return errors.New("broken")
			}
			return nil
		}
		err = pkg.Sync(m, nil)
		if !failed {
			ok(t, err)
			break
		}
		if err == nil {
			t.Error("no error on failed write", k)
		}
	}
'''))

bug('s19', 'C22', 'util', [('util/strutil.go', '''		if v >= 'A' && v <= 'Z' {
			if !c {
				bc, c = []byte(s), true
			}
			bc[i] |= 0x20
		} else if''', '''		if v-'A' < 'Z'-'A' {
			if !c {
				bc, c = []byte(s), true
			}
			bc[i] |= 0x20
		} else if''')],
    "the character 'Z'", 'key conversion leaves this character in upper case',
    '''package util_test

import (
	"strings"
	"testing"

	"github.com/schwarzlichtbezirk/wpk/util"
)

func TestDemo(t *testing.T) {
	for c := 0; c < 128; c++ {
		s := "x" + string(rune(c))
		if r := util.ToKey(s); r != strings.ReplaceAll(strings.ToLower(s), "\\\\", "/") {
			t.Errorf("%q %q", s, r)
		}
	}
}
''')

bug('s20', 'C23', 'util', [('util/strutil.go', '''				if envmap != nil {
					env, ok = envmap[v]
				}
				if !ok {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					copy''', '''				if envmap != nil {
					env, ok = envmap[v]
				}
				if env == "" {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					copy''')],
    'a variable with empty value in the given map', 'two passes disagree, the result loses characters of the path',
    '''package util_test

import (
	"testing"

	"github.com/schwarzlichtbezirk/wpk/util"
)

func TestDemo(t *testing.T) {
	m := map[string]string{"A_": "", "B_": "bb"}
	for s, r := range map[string]string{"x/${A_}/y": "x//y", "${B_}z": "bbz", "%A_%": "", "q%B_%": "qbb"} {
		if v := util.Envfmt(s, m); v != r {
			t.Errorf("%q: %q, expected %q", s, v, r)
		}
	}
}
''')

bug('s21', 'C01', '.', [('wpk.go', """	hdr.fttsize = util.GetU64(buf[n:])
	n += 8""", """	hdr.fttsize = uint64(util.GetU32(buf[n:]))
	n += 8""")],
    'a header with size of tags table over 4 GiB', 'decoding of the header from a buffer loses high bits',
    core(['bytes'], '''
	b := make([]byte, wpk.HeaderSize)
	for i := range b {
		b[i] = byte(i + 1)
	}
	var h1, h2 wpk.Header
	if _, err := h1.Parse(b); err != nil {
		t.Fatal(err)
	}
	if _, err := h2.ReadFrom(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	if h1 != h2 {
		t.Error(h1, h2)
	}
''', mem=False))

bug('s22', 'C02', '.', [('wpk.go', """	if util.B2S(hdr.signature[:]) != SignReady {""", """	if !strings.EqualFold(util.B2S(hdr.signature[:]), SignReady) {""")],
    'a file with the ready signature in other letter case', 'the file is accepted as a package',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	ok(t, pkg.Sync(m, nil))
	ok(t, wpk.NewPackage().OpenStream(m))
	copy(m.b, strings.ToLower(wpk.SignReady))
	if err := wpk.NewPackage().OpenStream(m); err != wpk.ErrSignBad {
		t.Error(err)
	}
'''))

TOOL = """package main

import (
%s)

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
%s}
"""

def tool(imports, body):
    return TOOL % (''.join('\t"%s"\n' % i for i in sorted(set(imports) | {'testing', 'os', 'path/filepath'})), body)

bug('s23', 'C25', 'cmd/extract', [('cmd/extract/extract.go', 'var fullpath = util.JoinPath(DstPath, fkey)', 'var fullpath = util.Envfmt(util.JoinPath(DstPath, fkey), nil)')],
    'a packed file whose name contains the reference to an environment variable', 'the file is extracted under another name',
    tool(['strings', 'github.com/schwarzlichtbezirk/wpk'], """
	os.Setenv("VAR_A", "value")
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	_, err = p.PackData(f, strings.NewReader("x"), "price$VAR_A")
	ok(t, err)
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk"
	ok(t, os.Mkdir(DstPath, 0700))
	ok(t, readpackage())
	b, err := os.ReadFile(filepath.Join(DstPath, "price$VAR_A"))
	ok(t, err)
	if string(b) != "x" {
		t.Errorf("%q", b)
	}
"""))

bug('s24', 'C25', 'cmd/extract', [('cmd/extract/extract.go', 'os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755', 'os.O_WRONLY|os.O_CREATE, 0755')],
    'a longer file with this name is in the destination already', 'the extracted file has the tail of the old one',
    tool(['strings', 'github.com/schwarzlichtbezirk/wpk'], """
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	_, err = p.PackData(f, strings.NewReader("x"), "n")
	ok(t, err)
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk"
	ok(t, os.Mkdir(DstPath, 0700))
	ok(t, os.WriteFile(filepath.Join(DstPath, "n"), []byte("long"), 0600))
	ok(t, readpackage())
	b, err := os.ReadFile(filepath.Join(DstPath, "n"))
	ok(t, err)
	if string(b) != "x" {
		t.Errorf("%q", b)
	}
"""))

bug('s25', 'C26', 'cmd/pack', [('cmd/pack/pack.go', """			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
				return err
			}""", """			if ts, err = pkg.PackFile(w, file, fkey); os.IsExist(err) {
				return nil // the first folder has it
			} else if err != nil {
				return err
			}""")],
    'two source folders with a file of the same name', 'the second file is not packed, and it is not reported',
    tool([], """
	SrcList = nil
	for _, d := range []string{"a", "b"} {
		ok(t, os.Mkdir(filepath.Join(dir, d), 0700))
		ok(t, os.WriteFile(filepath.Join(dir, d, "n"), []byte(d), 0600))
		SrcList = append(SrcList, filepath.Join(dir, d)+"/")
	}
	DstFile = filepath.Join(dir, "x.wpk")
	if err := writepackage(); err == nil {
		t.Error("not reported")
	}
"""))

LUA = """package luawpk

import (
%s
	lua "github.com/yuin/gopher-lua"
)

func run(t *testing.T, dir, s string) error {
	ls := lua.NewState()
	defer ls.Close()
	RegPack(ls)
	ls.SetGlobal("dir", lua.LString(filepath.ToSlash(dir)))
	return ls.DoString(s)
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
%s}
"""

def luat(imports, body):
    return LUA % (''.join('\t"%s"\n' % i for i in sorted(set(imports) | {'testing', 'path/filepath'})), body)

bug('s26', 'C28', 'luawpk', [('luawpk/adjusttags.go', 'if skip || ts.Has(wpk.TIDsha384) {', 'if skip || ts.Has(wpk.TIDsha256) {')],
    'the options sha256 and sha384 enabled together', 'the file has no sha384 tag',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p.sha256, p.sha384, p.sha512 = true, true, true
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		assert(p:hastag("f", "sha256") and p:hastag("f", "sha384") and p:hastag("f", "sha512"))
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s27', 'C29', 'luawpk', [('luawpk/luawpk.go', """	var datpath = ls.OptString(3, "")

	if pkg.wpt != nil {
		err = ErrPackOpened
		return 0
	}

	// open package file, on""", """	var datpath = ls.OptString(3, "")

	if pkg.wpf != nil {
		err = ErrPackOpened
		return 0
	}

	// open package file, on""")],
    'load while a single-file package is open for writing', 'no error, and the files that were put are lost',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:finalize()
		p:begin(dir.."/b.wpk")
		p:putdata("f", "content")
		assert(not pcall(p.load, p, dir.."/a.wpk"))
		p:finalize()
		p:load(dir.."/b.wpk")
		assert(p:hasfile("f"))`); err != nil {
		t.Error(err)
	}
"""))

bug('s28', 'C27', 'luawpk', [('luawpk/luawpk.go', """	if ts, ok = ts.DelOk(tid); ok {
		pkg.SetupTagset(ts)
	}

	ls.Push(lua.LBool(ok))
	return 1
}

func wpkgettags""", """	if ts.Num() > 4 { // required tags should stay
		if ts, ok = ts.DelOk(tid); ok {
			pkg.SetupTagset(ts)
		}
	} else {
		ok = false
	}

	ls.Push(lua.LBool(ok))
	return 1
}

func wpkgettags""")],
    'deleting the only additional tag of a file', 'the tag is not deleted',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content", {comment="x"})
		assert(p:deltag("f", "comment"))
		assert(not p:hastag("f", "comment"))
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s29', 'C31', '.', [('wpk.go', """func (pkg *Package) Glob(pattern string) (res []string, err error) {
	pattern = util.ToSlash(pattern)""", """func (pkg *Package) Glob(pattern string) (res []string, err error) {
	pattern = util.ToKey(pattern)""")],
    'a pattern with upper case letters', 'files with such letters are not found',
    core(['strings'], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	for _, s := range []string{"a/X", "a/x"} {
		_, err := pkg.PackData(m, strings.NewReader(s), s)
		ok(t, err)
	}
	for s, r := range map[string]string{"a/X": "a/X", "a/x": "a/x", "*/[A-Z]": "a/X"} {
		if l, err := pkg.Glob(s); len(l) != 1 || err != nil || l[0] != r {
			t.Error(s, l, err)
		}
	}
'''))

bug('s30', 'C32', '.', [('wpk.go', """	if _, err = hdr.ReadFrom(r); err != nil {
		return
	}
	if err = hdr.IsReady(); err != nil {
		return
	}""", """	if _, err = hdr.ReadFrom(r); err != nil {
		return
	}
	if hdr.IsReady() == ErrSignBad {
		err = ErrSignBad
		return
	}""")],
    'info of a package that is being appended to', 'info is given for a package that does not open as not ready',
    core([], '''
	m := &mem{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	ok(t, pkg.Sync(m, nil))
	ok(t, pkg.Append(m, nil))
	e1 := wpk.NewPackage().OpenStream(m)
	_, _, e2 := wpk.GetPackageInfo(m)
	if (e1 == nil) != (e2 == nil) {
		t.Error(e1, e2)
	}
'''))

bug('s31', 'C30', '.', [('util/seqmap.go', '''Push(key K, val T) (ok bool) {
	m.mux.Lock()
	defer m.mux.Unlock()

	if _, ok = m.idx[key]; !ok {
''', '''Push(key K, val T) (ok bool) {
	if ok = m.Has(key); !ok {
		m.mux.Lock()
		defer m.mux.Unlock()
''')],
    'the same key is pushed by two goroutines, the second between the check and the insertion of the first', 'the key is there twice',
    core(['sync', 'github.com/schwarzlichtbezirk/wpk/util'], '''
	_ = wpk.SignReady
	for i := 0; i < 300000 && !t.Failed(); i++ {
		var m util.SeqMap[int, int]
		m.Init(4)
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				m.Push(1, k)
			}(k)
		}
		close(start)
		wg.Wait()
		if m.Len() != 1 {
			t.Error(m.Len())
		}
	}
''', mem=False))

bug('s32', 'C30', '.', [('util/seqmap.go', '''	m.mux.Lock()
	defer m.mux.Unlock()

	if n, ok = m.idx[key]; ok {
		ret = m.seq[n].val
''', '''	m.mux.RLock()
	if n, ok = m.idx[key]; ok {
		ret = m.seq[n].val
	}
	m.mux.RUnlock()
	if ok {
		m.mux.Lock()
		defer m.mux.Unlock()
''')],
    'two deletions at the same time, the second between the lookup and the removal of the first', 'a pair that was not deleted is removed',
    core(['sync', 'github.com/schwarzlichtbezirk/wpk/util'], '''
	_ = wpk.SignReady
	defer func() {
		if p := recover(); p != nil {
			t.Error(p)
		}
	}()
	for i := 0; i < 2000000 && !t.Failed(); i++ {
		var m util.SeqMap[int, int]
		m.Init(4)
		for k := 0; k < 4; k++ {
			m.Poke(k, k)
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						t.Error(p)
					}
				}()
				<-start
				m.Delete(k)
			}(k)
		}
		close(start)
		wg.Wait()
		if m.Len() != 2 || !m.Has(2) || !m.Has(3) {
			t.Error("lost")
		}
		for k := 2; k < 4; k++ {
			if v, ok := m.Peek(k); !ok || v != k {
				t.Error(k, v, ok)
			}
		}
		if i > 200000 && i%1000 == 0 && t.Failed() {
			break
		}
		if i >= 400000 {
			break
		}
	}
''', mem=False))

bug('s33', 'C30', '.', [('util/seqmap.go', '''	m.mux.RLock()
	defer m.mux.RUnlock()

	var n int
	if n, ok = m.idx[key]; ok {
		ret = m.seq[n].val
	}
''', '''	var n int
	m.mux.RLock()
	n, ok = m.idx[key]
	m.mux.RUnlock()
	if ok {
		ret = m.seq[n].val
	}
''')],
    'a lookup and a change at the same time', 'the value is read without lock: a data race, a value of another key, or a panic',
    core(['sync', 'github.com/schwarzlichtbezirk/wpk/util'], '''
	_ = wpk.SignReady
	var m util.SeqMap[int, int]
	m.Init(4)
	m.Poke(1, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Poke(1, i)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			m.Peek(1)
		}
	}()
	wg.Wait()
''', mem=False), flags='-race ')

bug('s34', 'C30', '.', [('writer.go', '''func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
	ftt.mux.Lock()
	defer ftt.mux.Unlock()

	var fftpos, fftend, datpos, datend int64
''', '''func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
	var fftpos, fftend, datpos, datend int64
'''), ('writer.go', '''		fftpos = datend
	}
''', '''		fftpos = datend
	}

	ftt.mux.Lock()
	defer ftt.mux.Unlock()
''')],
    'a file is packed by another goroutine right after Sync has got the end of data', 'the tags table is written over the content of the file',
    core(['strings', 'time'], '''
	m := &slow{}
	pkg := wpk.NewPackage()
	ok(t, pkg.Begin(m, nil))
	_, err := pkg.PackData(m, strings.NewReader("first"), "a")
	ok(t, err)
	done := make(chan error, 1)
	m.hook = func() {
		go func() {
			_, err := pkg.PackData(m, strings.NewReader("second"), "b")
			done <- err
		}()
		time.Sleep(300 * time.Millisecond)
	}
	ok(t, pkg.Sync(m, nil))
	ok(t, <-done)
	ts, _ := pkg.GetTagset("b")
	ok(t, pkg.Sync(m, nil))
	if s := m.at(ts); s != "second" {
		t.Errorf("%q", s)
	}
}

// slow lets another goroutine run when the position is asked for.
type slow struct {
	mem
	hook func()
}

func (m *slow) Seek(off int64, whence int) (int64, error) {
	n, err := m.mem.Seek(off, whence)
	if f := m.hook; f != nil && whence == io.SeekCurrent {
		m.hook = nil
		f()
	}
	return n, err
'''))

bug('s35', 'C35', '.', [('wpk.go', '''	defer r.Close()

	err = ftt.OpenStream(r)
	return
''', '''	if err = ftt.OpenStream(r); err != nil {
		return
	}
	err = r.Close()
	return
''')],
    'the package file can not be opened (broken, or not finished)', 'its descriptor stays open',
    core(['os', 'path/filepath'], '''
	count := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		ok(t, err)
		return len(l)
	}
	name := filepath.Join(t.TempDir(), "a.wpk")
	for _, s := range []string{"", "broken", string(make([]byte, 100))} {
		ok(t, os.WriteFile(name, []byte(s), 0600))
		n := count()
		for i := 0; i < 20; i++ {
			if wpk.NewPackage().OpenFile(name) == nil {
				t.Error("opened")
			}
		}
		if m := count(); m > n+5 {
			t.Errorf("%d descriptors, then %d", n, m)
		}
	}
'''))

bug('s36', 'C36', '.', [('union.go', '''	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
''', '''	return u.List[len(u.List)-1].Stat(fpath)
''')],
    'a union without packages', 'panic for a name that is not there',
    core(['errors', 'io/fs'], '''
	var u wpk.Union
	if _, err := u.Stat("a"); !errors.Is(err, fs.ErrNotExist) {
		t.Error(err)
	}
''', mem=False))

bug('s37', 'C37', 'cmd/pack', [('cmd/pack/pack.go', '''			log.Printf("source path #%d '%s' does not exist", i+1, fpath)
			ec++
''', '''			log.Printf("source path #%d '%s' does not exist", i+1, fpath)
''')],
    'one of several source folders does not exist', 'the package is overwritten without the files of this folder',
    tool(['os/exec'], """
	bin := filepath.Join(dir, "pack")
	ok(t, exec.Command("go", "build", "-o", bin, ".").Run())
	src, dst := filepath.Join(dir, "src"), filepath.Join(dir, "x.wpk")
	ok(t, os.Mkdir(src, 0700))
	ok(t, os.WriteFile(filepath.Join(src, "f"), []byte("f"), 0600))
	ok(t, os.WriteFile(dst, []byte("old"), 0600))
	if exec.Command(bin, "-src="+src+";"+dir+"/none", "-dst="+dst).Run() == nil {
		t.Error("success is reported")
	}
	if b, err := os.ReadFile(dst); err != nil || string(b) != "old" {
		t.Errorf("%q %v", b, err)
	}
"""))

bug('s38', 'C33', 'luawpk', [('luawpk/luapath.go', """	for i, name := range names {
		tb.RawSetInt(i+1, lua.LString(name))
	}""", """	for i, name := range names {
		if name[0] == '.' {
			continue // hidden
		}
		tb.RawSetInt(i+1, lua.LString(name))
	}""")],
    'a directory with a file whose name begins with a dot', 'path.enum does not give this name, and the table has a hole',
    luat(['os'], """
	if err := os.WriteFile(filepath.Join(dir, ".a"), nil, 0600); err != nil {
		t.Fatal(err)
	}
	ls := lua.NewState()
	defer ls.Close()
	RegPath(ls)
	ls.SetGlobal("dir", lua.LString(dir))
	if err := ls.DoString(`assert(path.enum(dir)[1] == ".a")`); err != nil {
		t.Error(err)
	}
"""))

bug('s39', 'C33', 'luawpk', [('luawpk/runlvm.go', 'ls.Push(lua.LNumber(t.UnixMilli()))', 'ls.Push(lua.LNumber(t.UnixNano() / 1000000))')],
    'a date before 1678 or after 2262', 'the number of milliseconds is of another date',
    luat([], """
	ls := lua.NewState()
	defer ls.Close()
	InitLuaVM(ls)
	ls.SetGlobal("dir", lua.LString(dir))
	if err := ls.DoString(`
		assert(time2milli("2300-01-01T00:00:00.000Z") == 10413792000000)
		assert(time2milli("2022-05-05T11:22:33.444Z") == 1651749753444)`); err != nil {
		t.Error(err)
	}
"""))

bug('s40', 'C34', 'cmd/build', [('cmd/build/build.go', '''	"os"
''', '''	"os"

	"github.com/schwarzlichtbezirk/wpk"
'''), ('cmd/build/build.go', '''	for _, fpath := range os.Args[1:] {
''', '''	for _, fpath := range os.Args[1:] {
		if is, _ := wpk.FileExists(fpath); !is {
			log.Printf("no file: %s", fpath)
			continue
		}
''')],
    'a script is given by a path with an environment variable', 'it is not run, and success is reported',
    tool(['os/exec'], """
	bin := filepath.Join(dir, "build")
	ok(t, exec.Command("go", "build", "-o", bin, ".").Run())
	ok(t, os.WriteFile(filepath.Join(dir, "a.lua"), []byte("io.open('"+dir+"/mark', 'w'):close()"), 0600))
	os.Setenv("WHERE", dir)
	ok(t, exec.Command(bin, "$WHERE/a.lua").Run())
	if _, err := os.Stat(dir + "/mark"); err != nil {
		t.Error("the script was not run")
	}
"""))

bug('s41', 'C13', '.', [('writer.go', '''			if _, ok := pkg.GetTagset(newkey); ok {
				err = &fs.PathError{Op: "renamedir", Path: newkey, Err: fs.ErrExist}
				return skipexist
			}
''', '''			count++
			if _, ok := pkg.GetTagset(newkey); ok {
				err = &fs.PathError{Op: "renamedir", Path: newkey, Err: fs.ErrExist}
				return skipexist
			}
'''), ('writer.go', '''			pkg.SetTagset(newkey, ts)
			count++
''', '''			pkg.SetTagset(newkey, ts)
''')],
    'a file of the directory can not be renamed, its new name is taken', 'the number of renamed files is too large',
    core([], '''
	pkg := wpk.NewPackage()
	for _, s := range []string{"a/x", "a/y", "b/x"} {
		pkg.SetTagset(s, pkg.BaseTagset(64, 1, s))
	}
	if n, err := pkg.RenameDir("a", "b", true); n != 1 || err != nil {
		t.Error(n, err)
	}
''', mem=False))

bug('s42', 'C35', 'fsys', [('fsys/fsys.go', '''	return f.wpkf.Close()
''', '''	if f.tags.Size() == 0 {
		return nil // there is nothing to read
	}
	return f.wpkf.Close()
''')],
    'an empty file of the package is opened by fsys', 'the descriptor stays open after Close',
    core(['os', 'path/filepath', 'github.com/schwarzlichtbezirk/wpk/fsys'], '''
	name := filepath.Join(t.TempDir(), "a.wpf")
	ok(t, os.WriteFile(name, []byte("data"), 0600))
	tgr, err := fsys.MakeTagger(name)
	ok(t, err)
	count := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		ok(t, err)
		return len(l)
	}
	n := count()
	for i := 0; i < 20; i++ {
		f, err := tgr.OpenTagset(wpk.NewPackage().BaseTagset(4, uint(i%2)*0, "e"))
		ok(t, err)
		ok(t, f.Close())
	}
	if m := count(); m > n+5 {
		t.Errorf("%d descriptors, then %d", n, m)
	}
''', pkg='fsys_test'))

bug('s43', 'C12', '.', [('writer.go', '''	if _, ok = pkg.GetTagset(fkey2); ok {
		return &fs.PathError{Op: "putalias"''', '''	if ts2, ok := pkg.GetTagset(fkey2); ok && !ts.IsDir() && ts2.Size() != ts.Size() {
		return &fs.PathError{Op: "putalias"''')],
    'an alias to the name of another file of the same size', 'the name is taken from that file without an error',
    core([], '''
	pkg := wpk.NewPackage()
	pkg.SetTagset("a", pkg.BaseTagset(64, 5, "a"))
	pkg.SetTagset("b", pkg.BaseTagset(69, 5, "b"))
	if pkg.PutAlias("a", "b") == nil {
		t.Error("no error")
	}
	ts, _ := pkg.GetTagset("b")
	if o, _ := ts.Pos(); o != 69 {
		t.Error(o)
	}
''', mem=False))

bug('s44', 'C25', 'cmd/extract', [('cmd/extract/extract.go', '''					var atime, aok = ts.TagTime(wpk.TIDatime)
					var mtime, mok = ts.TagTime(wpk.TIDmtime)
''', '''					var mtime, mok = ts.TagTime(wpk.TIDmtime)
					var atime, aok = mtime, mok
''')],
    'extraction with -ft of a file whose access time differs', 'the file has modification time as access time',
    tool(['strings', 'syscall', 'time', 'github.com/schwarzlichtbezirk/wpk'], """
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	ts, err := p.PackData(f, strings.NewReader("content"), "n")
	ok(t, err)
	tm := time.Unix(1000000000, 0)
	p.SetTagset("n", ts.Put(wpk.TIDatime, wpk.TimeTag(tm.Add(time.Hour))).Put(wpk.TIDmtime, wpk.TimeTag(tm)))
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode, OrgTime = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk", true
	ok(t, os.Mkdir(DstPath, 0700))
	ok(t, readpackage())
	fi, err := os.Stat(filepath.Join(DstPath, "n"))
	ok(t, err)
	if !fi.ModTime().Equal(tm) {
		t.Error(fi.ModTime())
	}
	if at := fi.Sys().(*syscall.Stat_t).Atim.Sec; at != tm.Add(time.Hour).Unix() {
		t.Error(at)
	}
"""))

bug('s45', 'C28', 'luawpk', [('luawpk/adjusttags.go', '''	var h = crc64.New(crc64.MakeTable(crc64.ISO))
	if _, err = io.Copy(h, r); err != nil {
		return ts, err
	}
''', '''	var h = crc64.New(crc64.MakeTable(crc64.ISO))
	if _, err = io.CopyN(h, r, 1<<20); err != nil && err != io.EOF {
		return ts, err
	}
''')],
    'a file larger than 1 Mb', 'the CRC is of the first megabyte',
    luat(['os', 'hash/crc64', 'encoding/hex'], """
	var b = make([]byte, 1<<20+1)
	b[1<<20] = 1
	if err := os.WriteFile(filepath.Join(dir, "f"), b, 0600); err != nil {
		t.Fatal(err)
	}
	h := crc64.New(crc64.MakeTable(crc64.ISO))
	h.Write(b)
	if err := run(t, dir, `
		local p = wpk.new()
		p.crc64 = true
		p:begin(dir.."/a.wpk")
		p:putfile("f", dir.."/f")
		assert(p:gettag("f", "crc64") == "`+hex.EncodeToString(h.Sum(nil))+`")
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s46', 'C14', 'util', [('util/seqmap.go', '''		copy(m.seq[n:], m.seq[n+1:])
		m.seq = m.seq[:len(m.seq)-1]
''', '''		if last := len(m.seq) - 1; last-n < 64 {
			copy(m.seq[n:], m.seq[n+1:])
			m.seq = m.seq[:last]
		} else { // no moving of large blocks
			m.seq[n] = m.seq[last]
			m.seq = m.seq[:last]
		}
''')],
    'deletion of an element that has 64 or more after it', 'the last element stands before others that were added earlier',
    core(['github.com/schwarzlichtbezirk/wpk/util'], '''
	_ = wpk.SignReady
	var m util.SeqMap[int, int]
	m.Init(0)
	for i := 0; i < 100; i++ {
		m.Poke(i, i)
	}
	m.Delete(10)
	last := -1
	m.Range(func(k, v int) bool {
		if k < last {
			t.Error(k, "after", last)
		}
		last = k
		return true
	})
''', mem=False, pkg='util_test'))

bug('s47', 'C31', '.', [('wpk.go', '''	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if matched, _ := path.Match(pattern, fkey); matched {
			res = append(res, fkey)
		}
		return true
	})
	return
''', '''	if !strings.ContainsAny(pattern, "*?[") { // there is nothing to search
		if pkg.HasTagset(pattern) {
			res = append(res, pattern)
		}
		return
	}
	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if matched, _ := path.Match(pattern, fkey); matched {
			res = append(res, fkey)
		}
		return true
	})
	return
''')],
    'a pattern without special symbols that begins with a slash, in a subdirectory', 'a name is given that matches nothing in the package',
    core(['io/fs'], '''
	pkg := wpk.NewPackage()
	pkg.SetTagset("d/a", pkg.BaseTagset(64, 5, "d/a"))
	sub, err := pkg.Sub("d")
	if err != nil {
		t.Fatal(err)
	}
	if l, err := fs.Glob(sub, "/a"); len(l) != 0 || err != nil {
		t.Error(l, err)
	}
''', mem=False))

bug('s48', 'C10', '.', [('writer.go', '''		if _, err = wpt.Seek(int64(ftt.datoffset+ftt.datsize), io.SeekStart); err != nil {
			return
		}
	}
	return
''', '''		if _, err = wpt.Seek(int64(HeaderSize+ftt.datsize), io.SeekStart); err != nil {
			return
		}
	}
	return
''')],
    'appending to a package whose data does not begin right after the header', 'the tail of the old data is overwritten',
    core(['bytes', 'strings'], '''
	src := &mem{b: make([]byte, wpk.HeaderSize+16)}
	src.pos = wpk.HeaderSize + 16
	pkg := wpk.NewPackage()
	ts, err := pkg.PackData(src, strings.NewReader("content"), "a")
	ok(t, err)
	ok(t, pkg.Sync(src, nil))
	// say in the header that data begins where it really begins
	off := bytes.Index(src.b, []byte("content"))
	src.b[48], src.b[56] = byte(off), 7
	p := wpk.NewPackage()
	ok(t, p.OpenStream(&mem{b: append([]byte{}, src.b...)}))
	ok(t, p.Append(src, nil))
	_, err = p.PackData(src, strings.NewReader("other"), "b")
	ok(t, err)
	ok(t, p.Sync(src, nil))
	q := wpk.NewPackage()
	ok(t, q.OpenStream(&mem{b: append([]byte{}, src.b...)}))
	ts, _ = q.GetTagset("a")
	if s := src.at(ts); s != "content" {
		t.Errorf("%q", s)
	}
'''))

bug('s49', 'C18', 'mmap', [('mmap/mmap.go', 'mm.MapRegion(fwpk, int(sizex), mm.RDONLY, 0, int64(offsetx))', 'mm.MapRegion(fwpk, int(sizex), mm.RDONLY, 0, int64(uint32(offsetx)))')],
    'a file that is placed after the first 4 Gb of the package', 'content of another place of the package is read',
    core(['os', 'path/filepath', 'github.com/schwarzlichtbezirk/wpk/mmap'], '''
	name := filepath.Join(t.TempDir(), "a.wpf")
	f, err := os.Create(name)
	ok(t, err)
	const off = 5 << 30
	ok(t, f.Truncate(off+8))
	_, err = f.WriteAt([]byte("content"), off)
	ok(t, err)
	f.Close()
	tgr, err := mmap.MakeTagger(name)
	ok(t, err)
	defer tgr.Close()
	r, err := tgr.OpenTagset(wpk.NewPackage().BaseTagset(off, 7, "a"))
	ok(t, err)
	defer r.Close()
	b, err := io.ReadAll(r)
	ok(t, err)
	if string(b) != "content" {
		t.Errorf("%q", b)
	}
''', pkg='mmap_test'))

bug('s50', 'C29', 'luawpk', [('luawpk/luawpk.go', """	if pkg.wpt == nil {
		err = ErrPackClosed
		return 0
	}
	if pkg.wpf == nil { // can work only for splitted package
		err = ErrDataClosed
		return 0
	}

	// sync""", """	if pkg.wpt == nil {
		err = ErrPackClosed
		return 0
	}

	// sync""")],
    'flush of a single-file package', 'no error is raised',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		assert(not pcall(p.flush, p))
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s51', 'C27', 'luawpk', [('luawpk/nametid.go', 'tag = wpk.UnixmsTag(t)', 'tag = wpk.TimeTag(t.Truncate(time.Second))')],
    'a time tag that is set as a number of milliseconds', 'the fraction of the second is lost',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		p:settag("f", "mtime", 1651749753444)
		assert(p:gettag("f", "mtime") == "2022-05-05T11:22:33.444Z")
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s52', 'C19', '.', [('wpk.go', '''		var size = ts.Size()
		var buf = make([]byte, size)
''', '''		var size = int32(ts.Size())
		var buf = make([]byte, size)
''')],
    'a file of 4 Gb or more is read as a whole', 'the content is cut without an error',
    core([], '''
	pkg := wpk.NewPackage()
	pkg.SetTagset("a", pkg.BaseTagset(0, 1<<32+5, "a"))
	pkg.Tagger = lots{}
	b, err := pkg.ReadFile("a")
	if err == nil && len(b) != 1<<32+5 {
		t.Error(len(b))
	}
}

// lots is a tagger whose files have any number of zeros
type lots struct{}

func (lots) Close() error { return nil }
func (lots) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return &zeros{PkgReader: bytes.NewReader(nil), ts: ts}, nil
}

type zeros struct {
	wpk.PkgReader
	ts wpk.TagsetRaw
}

func (z *zeros) Read(b []byte) (int, error) {
	return len(b), nil
}

func (z *zeros) Stat() (fs.FileInfo, error) { return z.ts, nil }
func (z *zeros) Close() error { return nil
''', mem=False).replace('"testing"', '"bytes"\n\t"io/fs"\n\t"testing"'))

bug('s53', 'C05', '.', [('tagset.go', 'if tsi.pos += int(len); tsi.pos > tsl {', 'if tsi.pos += int(int16(len)); tsi.pos > tsl {')],
    'a tag with 32768 or more bytes', 'the walk goes backward after this tag',
    core([], '''
	defer func() {
		if e := recover(); e != nil {
			t.Error(e)
		}
	}()
	ts := wpk.TagsetRaw{}.Put(wpk.TIDmime, wpk.StrTag("a/b")).Put(wpk.TIDtmbjpeg, make(wpk.TagRaw, 40000)).Put(wpk.TIDlabel, wpk.StrTag("label"))
	if s, ok := ts.TagStr(wpk.TIDlabel); !ok || s != "label" {
		t.Error(s, ok)
	}
''', mem=False))

bug('s54', 'C09', '.', [('wpk.go', '''	datsize   uint64 // files data total size

	mux''', '''	datsize   uint64 // files data total size
	saved     int    // number of files in the written tags table

	mux'''), ('writer.go', '''		fftpos = HeaderSize
	} else {''', '''		fftpos = HeaderSize
		if n := ftt.tsm.Len(); n > 0 && n == ftt.saved && uint64(datend-datpos) == ftt.datsize {
			return // there are no new files
		}
		ftt.saved = ftt.tsm.Len()
	} else {''')],
    'tags or a name are changed between two syncs of a split package', 'the change is not written',
    core(['strings'], '''
	m, d := &mem{}, &mem{}
	pkg := wpk.NewPackage()
	if err := pkg.Begin(m, d); err != nil {
		t.Fatal(err)
	}
	if _, err := pkg.PackData(d, strings.NewReader("data"), "a"); err != nil {
		t.Fatal(err)
	}
	if err := pkg.Sync(m, d); err != nil {
		t.Fatal(err)
	}
	if err := pkg.Rename("a", "b"); err != nil {
		t.Fatal(err)
	}
	if err := pkg.Sync(m, d); err != nil {
		t.Fatal(err)
	}
	p := wpk.NewPackage()
	if err := p.OpenStream(m); err != nil {
		t.Fatal(err)
	}
	if !p.HasTagset("b") || p.HasTagset("a") {
		t.Error("not renamed")
	}
'''))

bug('s55', 'C14', 'util', [('util/seqmap.go', '''		delete(m.idx, key)
		m.seq = m.seq[:n]
''', '''		delete(m.idx, key)
		m.seq = m.seq[:n]
		if c := cap(m.seq); c >= 64 && n <= c/4 { // release the memory
			var seq = make([]kvpair[K, T], 0, c/2)
			copy(seq, m.seq)
			m.seq = seq
		}
''')],
    'a map of 50 or more entries most of which are popped', 'all other entries are lost',
    core(['github.com/schwarzlichtbezirk/wpk/util'], '''
	var m util.SeqMap[int, int]
	m.Init(0)
	for i := 0; i < 100; i++ {
		m.Poke(i, i)
	}
	for n := 100; n > 0; n-- {
		if m.Len() != n {
			t.Fatal(n, m.Len())
		}
		if k, v, ok := m.Pop(); !ok || k != n-1 || v != n-1 {
			t.Fatal(k, v, ok)
		}
	}
''', mem=False, pkg='util_test').replace('\t"github.com/schwarzlichtbezirk/wpk"\n', ''))

bug('s56', 'C13', '.', [('writer.go', 'var newkey = newdir + fkey[len(olddir):]', 'var newkey = strings.ReplaceAll(fkey, olddir, newdir)')],
    'a directory is renamed whose name occurs in the paths below it again', 'the inner directories are renamed too',
    core(['strings'], '''
	pkg := wpk.NewPackage()
	pkg.SetTagset("doc/api/doc/a", pkg.BaseTagset(0, 0, "doc/api/doc/a"))
	if n, err := pkg.RenameDir("doc", "text", false); n != 1 || err != nil {
		t.Error(n, err)
	}
	if !pkg.HasTagset("text/api/doc/a") {
		pkg.Enum(func(s string, _ wpk.TagsetRaw) bool { t.Error(s); return true })
	}
	_ = strings.ToLower
''', mem=False))

bug('s57', 'C22', 'util', [('util/strutil.go', '''	for i, v := range b {
		if v == '\\\\' {
			if !c {
				bc, c = []byte(s), true
			}
			bc[i] = '/'
		}
	}
	return B2S(bc)
}

// ToLower''', '''	// long names by 8 bytes at once
	var i int
	for ; i+8 <= len(b); i += 8 {
		var x = GetU64(b[i:]) ^ 0x5c5c5c5c5c5c5c5c
		var m = (x - 0x0101010101010101) & ^x & 0x8080808080808080
		if m != 0 {
			if !c {
				bc, c = []byte(s), true
			}
			m = m >> 7 * ('\\\\' ^ '/')
			SetU64(bc[i:], GetU64(bc[i:])^m)
		}
	}
	for ; i < len(b); i++ {
		if b[i] == '\\\\' {
			if !c {
				bc, c = []byte(s), true
			}
			bc[i] = '/'
		}
	}
	return B2S(bc)
}

// ToLower''')],
    'a name of 8 or more bytes with a closing bracket after a backslash', 'the bracket is changed',
    core(['github.com/schwarzlichtbezirk/wpk/util'], '''
	for _, s := range []string{"a", "dir/name.ext", "dir\\\\name.ext", "\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\", "dir\\\\]name]\\\\."} {
		b := []byte(s)
		for i := range b {
			if b[i] == '\\\\' {
				b[i] = '/'
			}
		}
		if r := util.ToSlash(s); r != string(b) {
			t.Errorf("%s: %s", s, r)
		}
	}
''', mem=False, pkg='util_test').replace('\t"github.com/schwarzlichtbezirk/wpk"\n', ''))

bug('s58', 'C23', 'util', [('util/strutil.go', '''				if !ok {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					el +=''', '''				if !ok {
					env = os.Getenv(v)
					ok = env != ""
				}
				if ok {
					el +='''), ('util/strutil.go', '''				if !ok {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					copy(''', '''				if !ok {
					env = os.Getenv(v)
					ok = env != ""
				}
				if ok {
					copy(''')],
    'a variable of the environment that is empty', 'the reference is left in the path',
    core(['os', 'github.com/schwarzlichtbezirk/wpk/util'], '''
	t.Setenv("VERIF_NONE", "")
	if s := util.Envfmt("a/${VERIF_NONE}b", nil); s != "a/b" {
		t.Error(s)
	}
	_ = os.Args
''', mem=False, pkg='util_test').replace('\t"github.com/schwarzlichtbezirk/wpk"\n', ''))

bug('s59', 'C33', 'luawpk', [('luawpk/runlvm.go', '''	var arg = ls.CheckString(1)
	ls.Push(lua.LString(hex.EncodeToString(util.S2B(arg))))''', '''	var arg = ls.CheckString(1)
	var buf [1024]byte
	var s string
	for len(arg) > len(buf)/2 {
		s += string(buf[:hex.Encode(buf[:], util.S2B(arg[:len(buf)/2]))])
		arg = arg[len(buf):]
	}
	s += string(buf[:hex.Encode(buf[:], util.S2B(arg))])
	ls.Push(lua.LString(s))''')],
    'a string of more than 512 bytes', 'a part of it is skipped',
    luat(['strings'], """
	ls := lua.NewState()
	defer ls.Close()
	InitLuaVM(ls)
	ls.SetGlobal("dir", lua.LString(dir))
	ls.SetGlobal("long", lua.LString(strings.Repeat("abc", 1000)))
	if err := ls.DoString(`assert(hex2bin(bin2hex("abc")) == "abc" and hex2bin(bin2hex(long)) == long)`); err != nil {
		t.Error(err)
	}
"""))

bug('s61', 'C17', '.', [('union.go', '''	var found = map[string]Void{}
	for _, pkg := range u.List {
		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
			if _, ok := found[fkey]; !ok {
				res = append(res, fkey)
				found[fkey] = Void{}
			}
			return true
		})
	}
	return
}

// Sub''', '''	for i, pkg := range u.List {
		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
			if i == 0 || !u.List[i-1].HasTagset(fkey) {
				res = append(res, fkey)
			}
			return true
		})
	}
	return
}

// Sub''')],
    'three packages, the first and the third with a file of one name, the second without it', 'the name is listed twice',
    core([], '''
	var u wpk.Union
	for _, s := range []string{"a", "b", "a"} {
		pkg := wpk.NewPackage()
		pkg.SetTagset(s, pkg.BaseTagset(0, 0, s))
		u.List = append(u.List, pkg)
	}
	if l := u.AllKeys(); len(l) != 2 {
		t.Error(l)
	}
''', mem=False))

bug('s62', 'C28', 'luawpk', [('luawpk/luawpk.go', '	pkg.secret = []byte(val)', '''	if len(val) > 64 { // block size of the hash
		val = val[:64]
	}
	pkg.secret = []byte(val)''')],
    'a secret of more than 64 bytes', 'digests are made with a part of the secret',
    luat(['strings'], """
	one := strings.Repeat("s", 64)
	if err := run(t, dir, `
		local function tag(secret)
			local p = wpk.new()
			p.sha256, p.secret = true, secret
			p:begin(dir.."/a.wpk")
			p:putdata("f", "content")
			local v = p:gettag("f", "sha256")
			p:finalize()
			return v
		end
		assert(tag("`+one+`") ~= tag("`+one+`1"))`); err != nil {
		t.Error(err)
	}
"""))

bug('s63', 'C26', 'cmd/pack', [('cmd/pack/pack.go', '''			if d.IsDir() {
				return nil // file is directory
			}
''', '''			if d.IsDir() {
				if name := d.Name(); len(name) > 1 && name[0] == '.' {
					return fs.SkipDir // service directories
				}
				return nil // file is directory
			}
''')],
    'a directory whose name begins with a dot', 'its files are not packed',
    tool(['github.com/schwarzlichtbezirk/wpk'], """
	ok(t, os.MkdirAll(filepath.Join(dir, "src/.conf"), 0o755))
	ok(t, os.WriteFile(filepath.Join(dir, "src/.conf/a"), []byte("data"), 0o644))
	SrcList, DstFile = []string{dir + "/src/"}, dir+"/a.wpk"
	ok(t, writepackage())
	p := wpk.NewPackage()
	ok(t, p.OpenFile(DstFile))
	if !p.HasTagset(".conf/a") {
		t.Error("not packed")
	}
"""))

bug('s64', 'C16', '.', [('wpk.go', 'return !strings.HasPrefix(fkey, prefix) || f(fkey[len(prefix):], ts)', '''return !strings.HasPrefix(fkey, prefix) || f(strings.TrimLeft(strings.TrimPrefix(fkey, prefix), "/"), ts)''')],
    'a file whose name has two slashes after the name of the directory', 'its name in the view is not the one it opens by',
    core([], '''
	pkg := wpk.NewPackage()
	pkg.SetTagset("/a", pkg.BaseTagset(0, 0, "/a"))
	pkg.SetTagset("b", pkg.BaseTagset(0, 0, "b"))
	var l []string
	pkg.Enum(func(s string, _ wpk.TagsetRaw) bool { l = append(l, s); return true })
	if len(l) != 2 || l[0] != "/a" || l[1] != "b" {
		t.Error(l)
	}
''', mem=False))

bug('s65', 'C27', 'luawpk', [('luawpk/nametid.go', '''			var i int
			if i, err = strconv.Atoi(string(val)); err != nil {''', '''			var i int64
			if i, err = strconv.ParseInt(string(val), 0, 64); err != nil {''')],
    'a number with a leading zero in a string', 'it is read as an octal one',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		p:settag("f", "fid", "010")
		assert(p:gettag("f", "fid") == 10)
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s66', 'C34', 'luawpk', [('luawpk/runlvm.go', '''	if err = ls.DoFile(fpath); err != nil {
		return
	}
	return''', '''	if err = ls.DoFile(fpath); err != nil {
		if e, ok := err.(*lua.ApiError); ok && e.Object == lua.LNil {
			err = nil // script is finished by error() without any message
		}
		return
	}
	return''')],
    'a script raises an error without a value', 'the failure is not reported',
    luat(['os'], """
	name := filepath.Join(dir, "a.lua")
	if err := os.WriteFile(name, []byte("error(nil)"), 0o644); err != nil {
		t.Fatal(err)
	}
	if RunLuaVM(name) == nil {
		t.Error("no error")
	}
	_ = lua.LNil
"""))

bug('s67', 'C25', 'cmd/extract', [('cmd/extract/extract.go', '''				var src wpk.RFile
				if src, err =''', '''				if fi, err1 := os.Stat(fullpath); err1 == nil && fi.Size() == ts.Size() {
					return // it was extracted before
				}

				var src wpk.RFile
				if src, err =''')],
    'another file with this name and size is in the destination already', 'the old content is left',
    tool(['strings', 'github.com/schwarzlichtbezirk/wpk'], """
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	_, err = p.PackData(f, strings.NewReader("new"), "a")
	ok(t, err)
	ok(t, p.Sync(f, nil))
	f.Close()
	ok(t, os.Mkdir(filepath.Join(dir, "out"), 0o755))
	ok(t, os.WriteFile(filepath.Join(dir, "out/a"), []byte("old"), 0o644))
	SrcList, DstPath, PkgMode = []string{dir + "/a.wpk"}, dir+"/out", "fsys"
	ok(t, readpackage())
	b, err := os.ReadFile(filepath.Join(dir, "out/a"))
	ok(t, err)
	if string(b) != "new" {
		t.Error(string(b))
	}
"""))

bug('s68', 'C21', '.', [('wpk.go', '''import (
	"errors"''', '''import (
	"bufio"
	"errors"'''), ('wpk.go', '''func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
''', '''func (ftt *FTT) WriteTo(dst io.Writer) (n int64, err error) {
	var w = bufio.NewWriter(dst)
	defer w.Flush()
''')],
    'the write of a tags table fails', 'the failure is not reported',
    core(['errors', 'strings'], '''
	fail := false
	m := &mem{fail: func(op string, n int) error {
		if op == "write" && fail {
			return errors.New("disk is full")
		}
		return nil
	}}
	pkg := wpk.NewPackage()
	if err := pkg.Begin(m, nil); err != nil {
		t.Fatal(err)
	}
	if _, err := pkg.PackData(m, strings.NewReader("data"), "a"); err != nil {
		t.Fatal(err)
	}
	fail = true
	if _, err := pkg.FTT.WriteTo(m); err == nil {
		t.Error("no error")
	}
'''))

bug('s70', 'C15', '.', [('dir.go', '''func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
''', '''func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
	ftt.mux.Lock()
	defer ftt.mux.Unlock()
	if ftt.dirs == nil || ftt.dirsnum != ftt.tsm.Len() { // something was added or deleted
		ftt.dirs, ftt.dirsnum = map[string][]fs.DirEntry{}, ftt.tsm.Len()
	}
	if n <= 0 {
		if cached, ok := ftt.dirs[fulldir]; ok {
			return append([]fs.DirEntry{}, cached...), nil
		}
		defer func() {
			if err == nil {
				ftt.dirs[fulldir] = append([]fs.DirEntry{}, list...)
			}
		}()
	}
'''), ('wpk.go', '''	mux sync.Mutex // writer mutex
''', '''	mux sync.Mutex // writer mutex

	dirs    map[string][]fs.DirEntry // directories that were read
	dirsnum int                      // number of files at that time
''')],
    'a file is renamed between two listings of its directory', 'the old listing is given',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	_, err := p.PackData(m, strings.NewReader("x"), "d/a")
	ok(t, err)
	list, err := p.ReadDir("d")
	ok(t, err)
	if len(list) != 1 || list[0].Name() != "a" {
		t.Error(list)
	}
	ok(t, p.Rename("d/a", "d/b"))
	list, err = p.ReadDir("d")
	ok(t, err)
	if len(list) != 1 || list[0].Name() != "b" {
		t.Error(list)
	}
'''))

bug('s71', 'C17', '.', [('union.go', '''	List []*Package
}
''', '''	List []*Package

	mux sync.Mutex
	idx map[string]*Package // packages in which files were found
}

// where returns package with given file.
func (u *Union) where(fpath string) (*Package, TagsetRaw) {
	u.mux.Lock()
	defer u.mux.Unlock()
	if pkg, ok := u.idx[fpath]; ok {
		if ts, is := pkg.GetTagset(fpath); is {
			return pkg, ts
		}
	}
	for _, pkg := range u.List {
		if ts, is := pkg.GetTagset(fpath); is {
			if u.idx == nil {
				u.idx = map[string]*Package{}
			}
			u.idx[fpath] = pkg
			return pkg, ts
		}
	}
	return nil, nil
}
'''), ('union.go', '''	var ts TagsetRaw
	var is bool
	for _, pkg := range u.List {
		if ts, is = pkg.GetTagset(fpath); is {
			return ts, nil
		}
	}
''', '''	if pkg, ts := u.where(fpath); pkg != nil {
		return ts, nil
	}
'''), ('union.go', '''	"strings"

''', '''	"strings"
	"sync"

''')],
    'a file is put to the first package after it was found in the second one', 'the file of the second package is shown',
    core(['strings'], '''
	m := &mem{}
	var u wpk.Union
	for i := 0; i < 2; i++ {
		p := wpk.NewPackage()
		ok(t, p.Begin(m, nil))
		u.List = append(u.List, p)
	}
	_, err := u.List[1].PackData(m, strings.NewReader("x"), "a")
	ok(t, err)
	fi, err := u.Stat("a")
	ok(t, err)
	_, err = u.List[0].PackData(m, strings.NewReader("long"), "a")
	ok(t, err)
	fi, err = u.Stat("a")
	ok(t, err)
	if fi.Size() != 4 {
		t.Error(fi.Size())
	}
'''))

bug('s72', 'C31', '.', [('wpk.go', '''	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if matched, _ := path.Match(pattern, fkey); matched {
			res = append(res, fkey)
		}
		return true
	})''', '''	if strings.IndexAny(pattern, "*?[") < 0 { // it is the name itself
		if pkg.HasTagset(pattern) {
			res = []string{pattern}
		}
		return
	}
	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if matched, _ := path.Match(pattern, fkey); matched {
			res = append(res, fkey)
		}
		return true
	})''')],
    'the pattern "." or one with a leading "./" or an empty one in a view or a package that has a file of this name', 'a name that does not match is given',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	for _, name := range []string{"d/a", "d"} {
		_, err := p.PackData(m, strings.NewReader("x"), name)
		ok(t, err)
	}
	v, err := p.Sub("d")
	ok(t, err)
	for _, pattern := range []string{".", "", "a"} {
		list, err := v.(*wpk.Package).Glob(pattern)
		ok(t, err)
		if pattern == "a" != (len(list) == 1) {
			t.Error(pattern, list)
		}
	}
'''))

bug('s74', 'C33', 'luawpk', [('luawpk/luawpk.go', '''	var sum int64
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var size = ts.Size()
		sum += size
		return true
	})

	ls.Push''', '''	var sum int64
	if pkg.sumnum == pkg.TagsetNum() {
		sum = pkg.sum // it was calculated before
	} else {
		pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
			var size = ts.Size()
			sum += size
			return true
		})
		pkg.sum, pkg.sumnum = sum, pkg.TagsetNum()
	}

	ls.Push'''), ('luawpk/luawpk.go', '''type LuaPackage struct {
''', '''type LuaPackage struct {
	sum    int64 // sum of sizes
	sumnum int   // for this number of files

''')],
    'sumsize is asked, a file is deleted, another of other size is put, and it is asked again', 'the old sum is given',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		assert(p:sumsize() == 7)
		p:delalias("f")
		p:putdata("f", "abc")
		assert(p:sumsize() == 3)
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s75', 'C21', '.', [('writer.go', '''	var offset, size int64
	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
		return
	}
	if size, err = io.Copy(''', '''	var offset, size int64
	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
		return
	}
	r = pipe{r}
	if size, err = io.Copy('''), ('writer.go', '''// PackData puts data''', '''// pipe is a source that can be closed by other side.
type pipe struct{ io.Reader }

func (p pipe) Read(b []byte) (n int, err error) {
	if n, err = p.Reader.Read(b); err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return
}

// PackData puts data''')],
    'the source ends with io.ErrUnexpectedEOF', 'a part of the file is packed as the file',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	for _, e := range []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress} {
		if _, err := p.PackData(m, io.MultiReader(strings.NewReader("x"), bad{e}), "a"); err == nil || p.HasTagset("a") {
			t.Error(e, err)
		}
	}
}

type bad struct{ error }

func (b bad) Read([]byte) (int, error) {
	return 0, b.error
'''))

bug('s76', 'C20', '.', [('writer.go', '''	// rewrite prebuild signature
	if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
		return
	}
''', '''	// rewrite prebuild signature
	if ftt.tsm.Len() > 0 {
		if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
			return
		}
	}
''')],
    'a crash while files are appended to an empty package', 'the file is taken for ready, and its table is overwritten',
    core(['strings', 'bytes'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	ok(t, p.Sync(m, nil))
	ok(t, p.Append(m, nil))
	_, err := p.PackData(m, strings.NewReader("\\x00\\x00\\x00\\x00"), "a")
	ok(t, err)
	var q wpk.FTT
	if q.OpenStream(bytes.NewReader(m.b)) == nil {
		t.Error("it opens")
	}
'''))

bug('s77', 'C24', 'cmd/extract', [('cmd/extract/extract.go', '''				var fullpath = util.JoinPath(DstPath, fkey)
''', '''				var fullpath = util.JoinPath(DstPath, util.Envfmt(fkey, nil))
''')],
    'a name of a file with a reference to an environment variable whose value has "..", that is accepted before expanding', 'the file is written outside',
    tool(['strings', 'github.com/schwarzlichtbezirk/wpk'], """
	ok(t, os.Setenv("UP_DIR", ".."))
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	_, err = p.PackData(f, strings.NewReader("x"), "$UP_DIR/out")
	ok(t, err)
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk"
	ok(t, os.Mkdir(DstPath, 0700))
	readpackage()
	if _, err := os.Stat(filepath.Join(dir, "out")); err == nil {
		t.Error("written outside")
	}
"""))

bug('s78', 'C35', 'luawpk', [('luawpk/luawpk.go', '''	var file wpk.RFile
	if file, err = os.Open(fpath); err != nil {
		return 0
	}
	defer file.Close()

	var opts wpk.TagsetRaw
	if opts, err = TableToTagset(tags, opts); err != nil {
		return 0
	}
''', '''	var file wpk.RFile
	if file, err = os.Open(fpath); err != nil {
		return 0
	}

	var opts wpk.TagsetRaw
	if opts, err = TableToTagset(tags, opts); err != nil {
		return 0
	}
	defer file.Close()
''')],
    'putfile with a tag that cannot be converted', 'the source file stays open',
    luat(['os'], """
	open := func() int {
		list, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(list)
	}
	name := filepath.Join(dir, "src")
	if err := os.WriteFile(name, []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	n := open()
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		for i = 1, 8 do
			assert(not pcall(p.putfile, p, "f", dir.."/src", {nosuchtag = 1}))
		end
		p:finalize()`); err != nil {
		t.Error(err)
	}
	if m := open(); m >= n+8 {
		t.Error(n, m)
	}
"""))

bug('s79', 'C36', '.', [('union.go', '''	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
''', '''	if len(u.List) == 0 {
		return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrClosed}
	}
	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
''')],
    'a union of no packages', 'the error is not fs.ErrNotExist',
    core(['errors', 'io/fs'], '''
	_, err := new(wpk.Union).Stat("a")
	if !errors.Is(err, fs.ErrNotExist) {
		t.Error(err)
	}
''', mem=False))

bug('s81', 'C29', 'luawpk', [('luawpk/luawpk.go', '''	// open package file, on failure package remains as is
	var ftt = &wpk.FTT{}
''', '''	if pkgpath == pkg.pkgpath && pkg.TagsetNum() > 0 {
		return 0 // it is loaded already
	}

	// open package file, on failure package remains as is
	var ftt = &wpk.FTT{}
''')],
    'a package is loaded again by the same object after another one has changed it', 'the old table is used, and the files of the other object are lost by appending',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		p:finalize()
		local q = wpk.new()
		q:load(dir.."/a.wpk")
		q:append()
		q:putdata("g", "other")
		q:finalize()
		p:load(dir.."/a.wpk")
		assert(p:hasfile("g"))
		`); err != nil {
		t.Error(err)
	}
"""))

bug('s82', 'C27', 'luawpk', [('luawpk/luawpk.go', '''	ts = wpk.CopyTagset(ts)
	ts, ok = ts.SetOk(tid, tag)
	pkg.SetupTagset(ts)

	ls.Push''', '''	if ts, ok = ts.SetOk(tid, tag); !ok || len(ts) != cap(ts) {
		ts = wpk.CopyTagset(ts)
	}
	pkg.SetupTagset(ts)

	ls.Push''')],
    'an alias or a loaded package whose tagsets lie in one buffer', 'setting a tag of one file overwrites tags of another one',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("a", "content", {label="12"})
		p:putdata("b", "other", {label="34"})
		p:finalize()
		p:load(dir.."/a.wpk")
		p:settag("a", "comment", "12345678901234567890")
		p:settag("a", "label", "12345678901234567890")
		assert(p:hasfile("b") and p:gettag("b", "label") == "34" and p:filesize("b") == 5)
		p:settag("b", "label", "5")
		assert(p:gettag("a", "label") == "12345678901234567890" and p:gettag("b", "label") == "5")
		`); err != nil {
		t.Error(err)
	}
"""))

bug('s83', 'C26', 'cmd/pack', [('cmd/pack/pack.go', '''	for i, srcpath := range SrcList {
''', '''	var done = map[string]bool{}
	for i, srcpath := range SrcList {
		if base := path.Base(srcpath); done[base] {
			continue // this folder is packed
		} else {
			done[base] = true
		}
''')],
    'two source folders in different places with the same last element of the path', 'files of the second folder are not packed',
    tool(['github.com/schwarzlichtbezirk/wpk'], """
	for _, d := range []string{"a/x", "b/x"} {
		ok(t, os.MkdirAll(filepath.Join(dir, d), 0700))
	}
	ok(t, os.WriteFile(filepath.Join(dir, "a/x/1"), []byte("x"), 0600))
	ok(t, os.WriteFile(filepath.Join(dir, "b/x/2"), []byte("x"), 0600))
	f, err := os.Create(filepath.Join(dir, "p.wpk"))
	ok(t, err)
	SrcList, DstFile = []string{dir + "/a/x/", dir + "/b/x/"}, f.Name()
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	ok(t, writepackage())
	p = wpk.NewPackage()
	ok(t, p.OpenFile(f.Name()))
	if p.TagsetNum() != 2 {
		t.Error(p.TagsetNum())
	}
"""))

bug('s84', 'C34', 'cmd/build', [('luawpk/runlvm.go', '''	if err = ls.DoFile(fpath); err != nil {
		return
	}
	return''', '''	if fi, err1 := os.Stat(fpath); err1 == nil && fi.Size() == 0 {
		return os.ErrInvalid // there is nothing to run
	}
	if err = ls.DoFile(fpath); err != nil {
		return
	}
	return''')],
    'an empty script', 'the tool reports a failure and does not run the rest',
    tool(['github.com/schwarzlichtbezirk/wpk/luawpk'], """
	name := filepath.Join(dir, "a.lua")
	ok(t, os.WriteFile(name, nil, 0600))
	ok(t, luawpk.RunLuaVM(name))
"""))

bug('s85', 'C09', '.', [('writer.go', '''	var offset, size int64
	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
		return
	}
	if size, err = io.Copy(''', '''	var offset, size int64
	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
		return
	}
	r = source{r}
	if size, err = io.Copy('''), ('writer.go', '''// PackData puts data''', '''// source is a reader of the data to pack, without other methods.
type source struct{ io.Reader }

func (s source) Read(b []byte) (n int, err error) {
	if n, err = s.Reader.Read(b); err != nil {
		n = 0
	}
	return
}

// PackData puts data''')],
    'a source that gives the end of file together with the last data', 'the tail of the file is lost without an error',
    core(['strings', 'testing/iotest'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	ts, err := p.PackData(m, iotest.DataErrReader(strings.NewReader("content")), "a")
	ok(t, err)
	if s := m.at(ts); s != "content" {
		t.Errorf("%q", s)
	}
'''))

bug('s87', 'C07', '.', [('wpk.go', '''func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
''', '''func (ftt *FTT) WriteTo(wt io.Writer) (n int64, err error) {
	var w = &blocks{w: wt}
	defer func() {
		if err == nil && len(w.buf) < tableblock { // full blocks are already written
			_, err = wt.Write(w.buf)
		}
	}()
'''), ('wpk.go', '''// WriteTo writes file tags table whole content to the given stream.
func''', '''const tableblock = 1024

// blocks passes data by blocks.
type blocks struct {
	w   io.Writer
	buf []byte
}

func (b *blocks) Write(p []byte) (n int, err error) {
	n = len(p)
	for len(b.buf)+len(p) > tableblock {
		var m = tableblock - len(b.buf)
		b.buf = append(b.buf, p[:m]...)
		if _, err = b.w.Write(b.buf); err != nil {
			return
		}
		b.buf, p = b.buf[:0], p[m:]
	}
	b.buf = append(b.buf, p...)
	return
}

// WriteTo writes file tags table whole content to the given stream.
func''')],
    'a tags table whose size is a multiple of 1024 bytes', 'the last block of the table is not written',
    core(['bytes', 'strings'], '''
	for i := 1; i < 1100; i++ {
		p := wpk.NewPackage()
		p.SetInfo(wpk.TagsetRaw{}.Put(200, wpk.StrTag(strings.Repeat("x", i))))
		var b bytes.Buffer
		n, err := p.FTT.WriteTo(&b)
		ok(t, err)
		if n != int64(b.Len()) {
			t.Error(n, b.Len())
		}
	}
'''))

bug('s89', 'C17', '.', [('union.go', '''		if sub1, err1 := pkg.Sub(dir); err1 == nil {
			u1.List = append(u1.List, sub1.(*Package))
		}
	}''', '''		var sub1, err1 = pkg.Sub(dir)
		if err1 != nil {
			break // packages have same structure
		}
		u1.List = append(u1.List, sub1.(*Package))
	}''')],
    'a union in which a package without the directory stands before one that has it', 'files of the directory are not in the view of the union',
    core(['strings'], '''
	var u wpk.Union
	for _, name := range []string{"d/a", "b", "d/c"} {
		m := &mem{}
		p := wpk.NewPackage()
		ok(t, p.Begin(m, nil))
		_, err := p.PackData(m, strings.NewReader("x"), name)
		ok(t, err)
		u.List = append(u.List, p)
	}
	s, err := u.Sub("d")
	ok(t, err)
	if keys := s.(*wpk.Union).AllKeys(); len(keys) != 2 {
		t.Error(keys)
	}
'''))

bug('s90', 'C16', '.', [('wpk.go', '''func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
	var prefix string''', '''func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
	if pkg.Workspace != "." && util.ToSlash(dir) == pkg.Workspace { // it is here already
		return pkg, nil
	}
	var prefix string''')],
    'a view of directory "d", and a view of it for "d" again', 'the view shows the directory "d" in place of "d/d"',
    core(['strings', 'io/fs'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	for _, name := range []string{"d/a", "d/d/b"} {
		_, err := p.PackData(m, strings.NewReader("x"), name)
		ok(t, err)
	}
	s, err := p.Sub("d")
	ok(t, err)
	s, err = fs.Sub(s, "d")
	ok(t, err)
	if list, _ := s.(*wpk.Package).Glob("*"); len(list) != 1 || list[0] != "b" {
		t.Error(list)
	}
'''))

bug('s91', 'C13', '.', [('writer.go', '''	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if strings.HasPrefix(fkey, olddir) {
			var newkey = newdir + fkey[len(olddir):]
			if _, ok := pkg.GetTagset(newkey); ok {''', '''	var taken = map[string]Void{} // all names of package
	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		taken[fkey] = Void{}
		return true
	})
	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if strings.HasPrefix(fkey, olddir) {
			var newkey = newdir + fkey[len(olddir):]
			if _, ok := taken[newkey]; ok {''')],
    'a directory is renamed to a directory inside of it or around it, and a file takes the name that other one had before', 'the rename is refused',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	for _, name := range []string{"a/a/x", "a/x"} {
		_, err := p.PackData(m, strings.NewReader("x"), name)
		ok(t, err)
	}
	n, err := p.RenameDir("a", "a/a", false)
	ok(t, err)
	if n != 2 || !p.HasTagset("a/a/a/x") || !p.HasTagset("a/a/x") {
		t.Error(n)
	}
'''))

bug('s94', 'C19', '.', [('wpk.go', '''		var buf = make([]byte, size)
''', '''		var buf = make([]byte, size)
		if size > 4096 { // without small reads
			if _, err = f.Read(buf); err != nil {
				return nil, err
			}
			return buf, nil
		}
''')],
    'a file of more than 4096 bytes and an opener whose files give the data in pieces', 'the tail of the file is filled with zeros',
    core(['strings', 'testing/iotest'], '''
	data := strings.Repeat("content", 1000)
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	_, err := p.PackData(m, strings.NewReader(data), "a")
	ok(t, err)
	p.Tagger = slow{data}
	b, err := p.ReadFile("a")
	if err == nil && string(b) != data {
		t.Error(len(b))
	}
}

type slow struct{ s string }

func (s slow) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	r := strings.NewReader(s.s)
	return &file{r, iotest.HalfReader(r), ts}, nil
}

func (slow) Close() error { return nil }

type file struct {
	*strings.Reader
	r  io.Reader
	ts wpk.TagsetRaw
}

func (f *file) Read(b []byte) (int, error) { return f.r.Read(b) }
func (f *file) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f *file) Close() error               { return nil }

func TestMore(t *testing.T) {
'''.replace('', '')).replace('"io"\n', '"io"\n\t"io/fs"\n', 1))

bug('s95', 'C28', 'luawpk', [('luawpk/adjusttags.go', '''	var mac = hmac.New(sha256.New, secret)
''', '''	if mac256 == nil {
		mac256 = hmac.New(sha256.New, secret)
	}
	var mac = mac256
	mac.Reset()
'''), ('luawpk/adjusttags.go', '''func adjustsha256(''', '''var mac256 hash.Hash // it is made once

func adjustsha256('''), ('luawpk/adjusttags.go', '''	"hash/crc32"
''', '''	"hash"
	"hash/crc32"
''')],
    'the secret is changed between two files, or another package has other secret', 'the MAC is keyed with the old secret',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p.sha256 = true
		p.secret = "one"
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		p.secret = "two"
		p:putdata("g", "content")
		assert(p:gettag("f", "sha256") ~= p:gettag("g", "sha256"))
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s96', 'C34', 'cmd/build', [('cmd/build/build.go', '''	for _, fpath := range os.Args[1:] {
''', '''	var done = map[string]bool{}
	for _, fpath := range os.Args[1:] {
		if done[fpath] { // each script is needed once
			continue
		}
		done[fpath] = true
''')],
    'a script that is given twice', 'it is run once',
    tool([], """
	name, out := filepath.Join(dir, "a.lua"), filepath.Join(dir, "out")
	ok(t, os.WriteFile(name, []byte(`
		local f = io.open(scrdir.."/out", "a")
		f:write("x")
		f:close()`), 0600))
	os.Args = []string{"build", name, name}
	main()
	b, err := os.ReadFile(out)
	ok(t, err)
	if string(b) != "xx" {
		t.Errorf("%q", b)
	}
"""))

bug('s101', 'C18', 'mmap', [('mmap/mmap.go', '''func (tgr *Tagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return NewMappedFile(tgr.fwpk, ts)
''', '''func (tgr *Tagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	tgr.mux.Lock()
	defer tgr.mux.Unlock()
	var offset, size = ts.Pos()
	if m, ok := tgr.last[offset]; ok { // it was mapped before
		return &view{bytes.NewReader(m), ts}, nil
	}
	var f, err = NewMappedFile(tgr.fwpk, ts)
	if err != nil || size == 0 {
		return f, err
	}
	defer f.Close()
	if size > 4096 { // large files are not kept
		return NewMappedFile(tgr.fwpk, ts)
	}
	if tgr.last == nil {
		tgr.last = map[uint][]byte{}
	}
	tgr.last[offset] = append([]byte{}, f.region...)
	return &view{bytes.NewReader(tgr.last[offset]), ts}, nil
}

// view is a file that was mapped before.
type view struct {
	*bytes.Reader
	tags wpk.TagsetRaw
}

func (f *view) Stat() (fs.FileInfo, error) {
	return f.tags, nil
}

func (f *view) Close() error {
	return nil
'''), ('mmap/mmap.go', '''	fwpk *os.File // open package file descriptor
''', '''	fwpk *os.File // open package file descriptor
	mux  sync.Mutex
	last map[uint][]byte // content of small files by position
'''), ('mmap/mmap.go', '''	"os"
''', '''	"os"
	"sync"
''')],
    'an empty file is opened after the file that begins at the same position', 'the empty file has the content of other one',
    core(['io', 'os', 'path/filepath', 'github.com/schwarzlichtbezirk/wpk/mmap', 'strings'], '''
	name := filepath.Join(t.TempDir(), "a.wpk")
	w, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	p := wpk.NewPackage()
	p.Begin(w, nil)
	p.PackData(w, strings.NewReader(""), "empty")
	p.PackData(w, strings.NewReader("content"), "file")
	p.Sync(w, nil)
	w.Close()
	p.Tagger, err = mmap.MakeTagger(name)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	for _, want := range []string{"file", "empty"} {
		f, err := p.Open(want)
		if err != nil {
			t.Fatal(err)
		}
		b, _ := io.ReadAll(f)
		f.Close()
		if want == "empty" && len(b) > 0 {
			t.Errorf("%q", b)
		}
	}
''', mem=False, pkg='mmap_test'))

bug('s103', 'C30', '.', [('wpk.go', '''	*FTT
	Tagger
	Workspace string
''', '''	*FTT
	Tagger
	Workspace string

	mux sync.Mutex // writer mutex of the package
''')],
    'a package and a view of its directory are packed into at once', 'files are written over each other',
    core(['strings', 'sync', 'time'], '''
	m := &lockmem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	_, err := p.PackData(m, strings.NewReader("x"), "d/a")
	ok(t, err)
	s, err := p.Sub("d")
	ok(t, err)
	var wg sync.WaitGroup
	wg.Add(1)
	_, err = p.PackData(m, source(func() {
		go func() {
			defer wg.Done()
			if _, err := s.(*wpk.Package).PackData(m, strings.NewReader("second"), "b"); err != nil {
				t.Error(err)
			}
		}()
		time.Sleep(100 * time.Millisecond)
	}), "c")
	ok(t, err)
	wg.Wait()
	for name, want := range map[string]string{"c": "first", "d/b": "second"} {
		ts, _ := p.GetTagset(name)
		if s := m.at(ts); s != want {
			t.Errorf("%s: %q", name, s)
		}
	}
}

type source func()

func (f source) Read(p []byte) (int, error) {
	f()
	return copy(p, "first"), io.EOF
}

type lockmem struct {
	mem
	mux sync.Mutex
}

func (m *lockmem) Write(p []byte) (int, error) {
	m.mux.Lock()
	defer m.mux.Unlock()
	return m.mem.Write(p)
}

func (m *lockmem) Seek(off int64, whence int) (int64, error) {
	m.mux.Lock()
	defer m.mux.Unlock()
	return m.mem.Seek(off, whence)
}

func TestMore(t *testing.T) {
'''))

bug('s108', 'C06', '.', [('tagset.go', '''		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
''', '''		if tl < 256 { // set tag length
			ts[tsi.tag-PTStagsz] = byte(tl)
		} else {
			util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl)
		}
''')],
    'a tag of 256 bytes or more is replaced by a shorter one', 'the tag set is broken',
    core(['strings'], '''
	ts := wpk.TagsetRaw{}.Put(200, wpk.StrTag(strings.Repeat("x", 300))).Put(201, wpk.StrTag("tail"))
	ts = ts.Set(200, wpk.StrTag("new"))
	if s, _ := ts.TagStr(200); s != "new" {
		t.Error(len(s))
	}
	if s, _ := ts.TagStr(201); s != "tail" {
		t.Error(s)
	}
''', mem=False))

bug('s111', 'C21', '.', [('writer.go', '''	var offset, size int64
	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
		return
	}
	if size, err = io.Copy(''', '''	var offset, size int64
	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
		return
	}
	w = blocks{w}
	if size, err = io.Copy('''), ('writer.go', '''// PackData puts data''', '''// blocks writes data by blocks.
type blocks struct{ io.WriteSeeker }

func (w blocks) Write(p []byte) (n int, err error) {
	for n < len(p) {
		var b = p[n:]
		if len(b) > 4096 {
			b = b[:4096]
		}
		if _, err = w.WriteSeeker.Write(b); err != nil {
			return
		}
		n += len(b)
	}
	return
}

// PackData puts data''')],
    'a writer that comes up short without an error', 'success is reported, and the file and those after it are wrong',
    core(['strings'], '''
	m := &short{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	m.short = true
	if _, err := p.PackData(m, strings.NewReader("content"), "a"); err == nil {
		t.Error("no error")
	}
}

type short struct {
	mem
	short bool
}

func (m *short) Write(p []byte) (int, error) {
	if m.short {
		p = p[:len(p)/2]
	}
	return m.mem.Write(p)
}

func TestMore(t *testing.T) {
'''))

bug('s113', 'C24', 'cmd/extract', [('cmd/extract/extract.go', '''				var fullpath = util.JoinPath(DstPath, fkey)
				if err = os.''', '''				var fullpath = util.JoinPath(DstPath, strings.TrimLeft(fkey, " "))
				if err = os.''')],
    'a name that begins with a space before ".."', 'the file is written outside of the destination',
    tool(['strings', 'github.com/schwarzlichtbezirk/wpk'], """
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	_, err = p.PackData(f, strings.NewReader("x"), " ../out")
	ok(t, err)
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk"
	ok(t, os.Mkdir(DstPath, 0700))
	readpackage()
	if _, err := os.Stat(filepath.Join(dir, "out")); err == nil {
		t.Error("written outside")
	}
"""))

bug('s114', 'C27', 'luawpk', [('luawpk/luawpk.go', '''	var opts wpk.TagsetRaw
	if opts, err = TableToTagset(lt, opts); err != nil {
		return 0
	}

	var ts, ok = pkg.GetTagset(fkey)
	if !ok {
		err = &fs.PathError{Op: "settags", Path: fkey, Err: fs.ErrNotExist}
		return 0
	}
''', '''	var ts, ok = pkg.GetTagset(fkey)
	if !ok {
		err = &fs.PathError{Op: "settags", Path: fkey, Err: fs.ErrNotExist}
		return 0
	}

	var opts wpk.TagsetRaw
	if opts, err = TableToTagset(lt, opts); err != nil && len(opts) == 0 {
		return 0
	}
''')],
    'settags with a table of which one entry can be converted and a later one cannot', 'an error is raised, and the tags before it are set',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		for i = 1, 20 do
			local t = {}
			t[200+i] = "good"
			t["nosuchtag"] = 1
			t["label"] = "x"
			pcall(p.settags, p, "f", t)
			assert(not p:hastag("f", "label") and not p:hastag("f", 200+i))
		end
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s115', 'C14', 'util', [('util/seqmap.go', '''	m.mux.Lock()
	var s = make([]kvpair[K, T], len(m.seq))
	copy(s, m.seq)
	m.mux.Unlock()

	for _, pair := range s {
		if !f(pair.key, pair.val) {
			return
		}
	}
''', '''	// large maps are not copied at once
	for pos := 0; ; {
		m.mux.Lock()
		var s []kvpair[K, T]
		if pos < len(m.seq) {
			s = append(s, m.seq[pos:]...)
		}
		m.mux.Unlock()
		if len(s) > 32 {
			s = s[:32]
		}
		pos += len(s)

		for _, pair := range s {
			if !f(pair.key, pair.val) {
				return
			}
		}
		if len(s) < 32 {
			return
		}
	}
''')],
    'a map of more than 32 entries is changed inside of the callback of range', 'entries are skipped or added',
    core(['github.com/schwarzlichtbezirk/wpk/util'], '''
	var m util.SeqMap[int, int]
	m.Init(0)
	for i := 0; i < 100; i++ {
		m.Poke(i, i)
	}
	n := 0
	m.Range(func(k, v int) bool {
		m.Delete(k)
		n++
		return true
	})
	if n != 100 {
		t.Error(n)
	}
''', mem=False, pkg='util_test').replace('\t"github.com/schwarzlichtbezirk/wpk"\n', ''))

bug('s117', 'C18', 'fsys', [('fsys/fsys.go', '''type Tagger struct {
	dpath string // package filename
''', '''type Tagger struct {
	dpath string // package filename

	mux  sync.Mutex
	last *shared // file that was opened last
'''), ('fsys/fsys.go', '''	return NewChunkFile(tgr.dpath, ts)
''', '''	tgr.mux.Lock()
	defer tgr.mux.Unlock()
	if f := tgr.last; f != nil && f.refs > 0 && string(f.tags) == string(ts) { // same file again
		f.refs++
		return f, nil
	}
	var f, err = NewChunkFile(tgr.dpath, ts)
	if err != nil {
		return nil, err
	}
	tgr.last = &shared{ChunkFile: f, refs: 1}
	return tgr.last, nil
'''), ('fsys/fsys.go', '''// Tagger is object to get''', '''// shared is a file that can be opened several times.
type shared struct {
	*ChunkFile
	refs int
}

func (f *shared) Close() error {
	if f.refs--; f.refs > 0 {
		return nil
	}
	return f.ChunkFile.Close()
}

// Tagger is object to get'''), ('fsys/fsys.go', '''	"os"
''', '''	"os"
	"sync"
''')],
    'a nested file is opened a second time while it is open', 'both have one position',
    core(['io', 'os', 'path/filepath', 'github.com/schwarzlichtbezirk/wpk/fsys', 'strings'], '''
	name := filepath.Join(t.TempDir(), "a.wpk")
	w, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	p := wpk.NewPackage()
	p.Begin(w, nil)
	p.PackData(w, strings.NewReader("content"), "file")
	p.Sync(w, nil)
	w.Close()
	p.Tagger, err = fsys.MakeTagger(name)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	f1, err := p.Open("file")
	if err != nil {
		t.Fatal(err)
	}
	defer f1.Close()
	f2, err := p.Open("file")
	if err != nil {
		t.Fatal(err)
	}
	defer f2.Close()
	io.ReadAll(f1)
	if b, _ := io.ReadAll(f2); string(b) != "content" {
		t.Errorf("%q", b)
	}
''', mem=False, pkg='fsys_test'))

bug('s118', 'C22', 'util', [('util/strutil.go', '''	for i, v := range b {
		if v == '\\\\' {
			if !c {
				bc, c = []byte(s), true
			}
			bc[i] = '/'
		}
	}
	return B2S(bc)
''', '''	for i, v := range s {
		if v == '\\\\' {
			if !c {
				bc, c = []byte(strings.ToValidUTF8(s, "?")), true
			}
			bc[i] = '/'
		}
	}
	return B2S(bc)
'''), ('util/strutil.go', '''import (
''', '''import (
	"strings"
''')],
    'a path with a backslash and bytes that are not UTF-8', 'these bytes are changed',
    core(['github.com/schwarzlichtbezirk/wpk/util'], '''
	if s := util.ToSlash("a\\\\b\\xff"); s != "a/b\\xff" {
		t.Errorf("%q", s)
	}
''', mem=False, pkg='util_test').replace('\t"github.com/schwarzlichtbezirk/wpk"\n', ''))

bug('s119', 'C23', 'util', [('util/strutil.go', '''				if envmap != nil {
					env, ok = envmap[v]
				}
				if !ok {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					el +=''', '''				if envmap != nil {
					env, ok = envmap[v]
				}
				if !ok || env == "" {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					el +='''), ('util/strutil.go', '''				if envmap != nil {
					env, ok = envmap[v]
				}
				if !ok {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					copy(''', '''				if envmap != nil {
					env, ok = envmap[v]
				}
				if !ok || env == "" {
					env, ok = os.LookupEnv(v)
				}
				if ok {
					copy(''')],
    'a name whose value in the given map is empty', 'the reference is left in the path, or has the value from the environment',
    core(['github.com/schwarzlichtbezirk/wpk/util'], '''
	if s := util.Envfmt("a${NO_SUCH_VAR}b", map[string]string{"NO_SUCH_VAR": ""}); s != "ab" {
		t.Errorf("%q", s)
	}
''', mem=False, pkg='util_test').replace('\t"github.com/schwarzlichtbezirk/wpk"\n', ''))

bug('s121', 'C26', 'cmd/pack', [('cmd/pack/pack.go', '''				const sniffLen = 512
				var ctype = mime.TypeByExtension(path.Ext(fkey))
''', '''				const sniffLen = 512
				var ext = path.Ext(fkey)
				var ctype, known = types[ext]
				if !known {
					ctype = mime.TypeByExtension(ext)
				}
				defer func() {
					types[ext] = ctype
				}()
'''), ('cmd/pack/pack.go', '''func writepackage() (err error) {
''', '''var types = map[string]string{} // by extension

func writepackage() (err error) {
''')],
    'two files of one unknown extension, or without extension, with content of different types', 'the second one has the type of the first',
    tool(['github.com/schwarzlichtbezirk/wpk'], """
	src := filepath.Join(dir, "src")
	ok(t, os.Mkdir(src, 0700))
	ok(t, os.WriteFile(filepath.Join(src, "a"), []byte("text"), 0600))
	ok(t, os.WriteFile(filepath.Join(src, "b"), []byte("GIF89a\\x01\\x00\\x01\\x00"), 0600))
	SrcList, DstFile, PutMIME = []string{src}, filepath.Join(dir, "a.wpk"), true
	ok(t, writepackage())
	p := wpk.NewPackage()
	ok(t, p.OpenFile(DstFile))
	ts, _ := p.GetTagset("b")
	if s, _ := ts.TagStr(wpk.TIDmime); s != "image/gif" {
		t.Error(s)
	}
"""))

bug('s123', 'C31', '.', [('wpk.go', '''	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
		if matched, _ := path.Match(pattern, fkey); matched {
			res = append(res, fkey)
		}
		return true
	})''', '''	var full = pkg.FullPath(pattern)
	pkg.tsm.Range(func(fkey string, ts TagsetRaw) bool {
		if matched, _ := path.Match(full, fkey); matched {
			res = append(res, pkg.TrimPath(fkey))
		}
		return true
	})''')],
    'a view of a directory whose name has a character that is special in patterns', 'names of the view are not found',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	_, err := p.PackData(m, strings.NewReader("x"), "d[1]/a")
	ok(t, err)
	s, err := p.Sub("d[1]")
	ok(t, err)
	if list, _ := s.(*wpk.Package).Glob("*"); len(list) != 1 {
		t.Error(list)
	}
'''))

bug('s127', 'C35', '.', [('union.go', '''		if err1 := pkg.Tagger.Close(); err1 != nil {
			err = err1
		}
''', '''		if err = pkg.Tagger.Close(); err != nil {
			return
		}
''')],
    'a union of which one package is closed already', 'packages after it stay open',
    core([], '''
	n := 0
	var u wpk.Union
	for i := 0; i < 3; i++ {
		p := wpk.NewPackage()
		p.Tagger = closer{i == 1, &n}
		u.List = append(u.List, p)
	}
	u.Close()
	if n != 3 {
		t.Error(n)
	}
}

type closer struct {
	bad bool
	n   *int
}

func (c closer) OpenTagset(wpk.TagsetRaw) (wpk.RFile, error) { return nil, io.EOF }

func (c closer) Close() error {
	*c.n++
	if c.bad {
		return io.EOF
	}
	return nil
}

func TestMore(t *testing.T) {
'''))

bug('s133', 'C06', '.', [('tagset.go', '''	return append(TagsetRaw{}, ts...) // make copy with some extra space
''', '''	if len(ts) == cap(ts) { // it will be moved when it grows
		return ts
	}
	return append(TagsetRaw{}, ts...) // make copy with some extra space
''')],
    'a copy of a tag set without spare capacity is edited without growing', 'the original is changed',
    core([], '''
	ts := append(make(wpk.TagsetRaw, 0, 12), wpk.TagsetRaw{}.Put(200, wpk.StrTag("one"))...)
	ts = ts[:len(ts):len(ts)]
	wpk.CopyTagset(ts).Set(200, wpk.StrTag("two"))
	if s, _ := ts.TagStr(200); s != "one" {
		t.Error(s)
	}
''', mem=False))

bug('s135', 'C27', 'luawpk', [('luawpk/luawpk.go', '''		if ts, ok = ts.DelOk(tid); ok {
			n++
		}
	}
	if n > 0 {''', '''		if ts, ok = ts.DelOk(tid); ok {
			n++
		}
	}
	if n == len(tids) {''')],
    'deltags with a tag that is there and one that is not', 'the count tells that the tag is deleted, and it is not',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content", {label = "x"})
		assert(p:deltags("f", {label = true, author = true}) == 1)
		assert(not p:hastag("f", "label"))
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s137', 'C24', 'cmd/extract', [('cmd/extract/extract.go', '''			var num, sum int64
			pkg.Enum(''', '''			var num, sum int64
			// make all directories at first
			pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
				err = os.MkdirAll(path.Dir(util.JoinPath(DstPath, fkey)), os.ModePerm)
				return err == nil
			})
			if err != nil {
				return
			}
			pkg.Enum(''')],
    'a name that leads outside of the destination through a new directory', 'the directory is made outside, before the name is refused',
    tool(['strings', 'github.com/schwarzlichtbezirk/wpk'], """
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	_, err = p.PackData(f, strings.NewReader("x"), "../out/a")
	ok(t, err)
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk"
	ok(t, os.Mkdir(DstPath, 0700))
	readpackage()
	if _, err := os.Stat(filepath.Join(dir, "out")); err == nil {
		t.Error("made outside")
	}
"""))

bug('s138', 'C17', '.', [('union.go', '''			var f, err = pkg.Tagger.OpenTagset(ts)
			if err != nil {
				return nil, err
			}
			defer f.Close()
''', '''			var f, err = pkg.Tagger.OpenTagset(ts)
			if err != nil { // may be other package has it
				continue
			}
			defer f.Close()
''')],
    'the first package that has the name cannot be read, and a later one has it too', 'the file of the later package is given for it',
    core(['strings', 'io/fs'], '''
	var u wpk.Union
	for i := 0; i < 2; i++ {
		m := &mem{}
		p := wpk.NewPackage()
		ok(t, p.Begin(m, nil))
		_, err := p.PackData(m, strings.NewReader("x"), "a")
		ok(t, err)
		p.Tagger = tgr(i > 0)
		u.List = append(u.List, p)
	}
	if b, err := u.ReadFile("a"); err == nil {
		t.Errorf("%q", b)
	}
}

type tgr bool

func (b tgr) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	if !b {
		return nil, io.ErrUnexpectedEOF
	}
	return &file{strings.NewReader("x"), ts}, nil
}

func (tgr) Close() error { return nil }

type file struct {
	*strings.Reader
	ts wpk.TagsetRaw
}

func (f *file) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f *file) Close() error               { return nil }

func TestMore(t *testing.T) {
'''))

bug('s142', 'C01', '.', [('wpk.go', '''	if hdr.datsize, err = util.ReadU64(r); err != nil {
		return
	}
''', '''	var size uint64
	if size, err = util.ReadU64(r); err != nil {
		return
	}
	if size > 0 || hdr.datsize == 0 {
		hdr.datsize = size
	}
''')],
    'a header is read into a structure that was used before, and its data size is zero', 'the data size of the header that was read before is left',
    core(['bytes'], '''
	b := append([]byte(wpk.SignReady), make([]byte, 40)...)
	c := append([]byte{}, b...)
	c[56] = 7
	var h wpk.Header
	for i, b := range [][]byte{c, b} {
		_, err := h.ReadFrom(bytes.NewReader(b))
		ok(t, err)
		if n := h.DataSize(); n != uint(7-7*i) {
			t.Error(i, n)
		}
	}
'''))

bug('s143', 'C03', '.', [('tagset.go', '''	var buf = [1]byte{val}
	return buf[:]
}''', '''	bytebuf[0] = val
	return bytebuf[:]
}

var bytebuf [1]byte // no allocation for each tag'''), ],
    'two byte tags are made before the first one is used', 'the first tag has the value of the second one',
    core([], '''
	a, b := wpk.ByteTag(1), wpk.ByteTag(2)
	if v, _ := a.TagByte(); v != 1 {
		t.Error(v)
	}
	if v, _ := b.TagByte(); v != 2 {
		t.Error(v)
	}
''', mem=False))

bug('s144', 'C04', '.', [('tagset.go', '''	return ts.Has(TIDbtime)''', '''	return !ts.BirthTime().IsZero()''')],
    'a birth time tag of the first moment of year 1, or of a wrong length', 'the tag that is present is reported as absent',
    core(['time'], '''
	for _, tm := range []time.Time{{}, time.Unix(0, 0), time.Unix(1, 1)} {
		ts := wpk.TagsetRaw{}.Put(wpk.TIDbtime, wpk.TimeTag(tm))
		if !ts.HasBirthTime() {
			t.Error(tm)
		}
	}
''', mem=False))

bug('s145', 'C05', '.', [('tagset.go', '''	tsi.tid = TIDnone
	tsi.pos = 0
	tsi.tag = 0
}''', '''	tsi.tid = TIDnone
	if tsi.Passed() {
		tsi.pos = 0
	}
	tsi.tag = 0
}''')],
    'a walk of a broken tag set is reset and started again', 'the second walk does not start',
    core([], '''
	ts := append(wpk.TagsetRaw{}.Put(10, wpk.StrTag("ab")), 1)
	it := ts.Iterator()
	for i := 0; i < 2; i++ {
		n := 0
		for it.Next() {
			n++
		}
		if n != 1 || !it.Failed() {
			t.Error(i, n)
		}
		it.Reset()
	}
	it.Next()
	it.Reset()
	if !it.Next() || it.TID() != 10 {
		t.Error("reset in the midst")
	}
''', mem=False))

bug('s146', 'C12', '.', [('writer.go', '''func (pkg *Package) Rename(fkey1, fkey2 string) error {
''', '''func (pkg *Package) Rename(fkey1, fkey2 string) error {
	if util.ToSlash(fkey1) == util.ToSlash(fkey2) && pkg.HasTagset(fkey1) {
		return nil // there is nothing to do
	}
'''), ],
    'a file is renamed to its own name', 'no error is reported for the name that exists',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	_, err := p.PackData(m, strings.NewReader("x"), "d/a")
	ok(t, err)
	if p.Rename("d/a", "d\\\\a") == nil {
		t.Error("no error")
	}
'''))

bug('s147', 'C25', 'cmd/extract', [('cmd/extract/extract.go', '''			var num, sum int64
			pkg.Enum(''', '''			var num, sum int64
			var atime, mtime time.Time
			var aok, mok bool
			pkg.Enum('''), ('cmd/extract/extract.go', '''					var atime, aok = ts.TagTime(wpk.TIDatime)
					var mtime, mok = ts.TagTime(wpk.TIDmtime)
					if aok && mok {''', '''					if t, ok := ts.TagTime(wpk.TIDatime); ok {
						atime, aok = t, true
					}
					if t, ok := ts.TagTime(wpk.TIDmtime); ok {
						mtime, mok = t, true
					}
					if aok && mok {'''), ('cmd/extract/extract.go', '''	"strings"
''', '''	"strings"
	"time"
''')],
    'original times are asked, and a file has other access time tag than the file before it, or none of it',
    'a file with no access time gets the one of the file before it',
    tool(['strings', 'time', 'github.com/schwarzlichtbezirk/wpk'], """
	f, err := os.Create(filepath.Join(dir, "a.wpk"))
	ok(t, err)
	p := wpk.NewPackage()
	ok(t, p.Begin(f, nil))
	for i, name := range []string{"a", "b"} {
		ts, err := p.PackData(f, strings.NewReader("x"), name)
		ok(t, err)
		ts = ts.Put(wpk.TIDmtime, wpk.TimeTag(time.Unix(1000, 0)))
		if i == 0 {
			ts = ts.Put(wpk.TIDatime, wpk.TimeTag(time.Unix(2000, 0)))
		}
		p.SetTagset(name, ts)
	}
	ok(t, p.Sync(f, nil))
	f.Close()
	DstPath, SrcList, PkgMode, OrgTime = filepath.Join(dir, "dst"), []string{f.Name()}, "bulk", true
	ok(t, os.Mkdir(DstPath, 0700))
	ok(t, readpackage())
	fi, err := os.Stat(filepath.Join(DstPath, "a"))
	ok(t, err)
	if fi.ModTime().Unix() != 1000 {
		t.Error("times are not set")
	}
	fi, err = os.Stat(filepath.Join(DstPath, "b"))
	ok(t, err)
	if fi.ModTime().Unix() == 1000 {
		t.Error("times of other file")
	}
"""))

bug('s148', 'C29', 'luawpk', [('luawpk/luawpk.go', '''	// create package files
''', '''	// setup file representation
	pkg.pkgpath, pkg.datpath = pkgpath, datpath
	// create package files
''')],
    'a begin that fails, then an append to the package that was finalised before', 'the package cannot be appended any more',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		p:putdata("f", "content")
		p:finalize()
		assert(not pcall(p.begin, p, dir.."/none/b.wpk"))
		p:append()
		p:putdata("g", "content")
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s149', 'C32', '.', [('wpk.go', '''	// read first tagset that should be package info
	var tsl uint16
	if tsl, err = util.ReadU16(r); err != nil {
		return
	}
''', '''	// read first tagset that should be package info
	var tsl uint16
	if tsl, err = util.ReadU16(r); err != nil {
		return
	}
	if tsl > 0x7fff { // it can not be so long
		err = ErrSignFTT
		return
	}
''')],
    'the package info is longer than 32767 bytes', 'info is not read, though the package opens',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	p.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDcomment, wpk.StrTag(strings.Repeat("x", 40000))))
	ok(t, p.Sync(m, nil))
	_, ts, err := wpk.GetPackageInfo(m)
	ok(t, err)
	if len(ts) != 40004 {
		t.Error(len(ts))
	}
'''))

bug('s150', 'C33', 'luawpk', [('luawpk/luawpk.go', '''	var sum int64
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var size = ts.Size()
		sum += size
		return true
	})
''', '''	var sum uint32
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var size = uint32(ts.Size())
		sum += size
		return true
	})
''')],
    'files of 4 gigabytes and more in total', 'the sum is taken by modulo',
    luat(['os', 'github.com/schwarzlichtbezirk/wpk'], """
	p := wpk.NewPackage()
	f, err := os.Create(filepath.Join(dir, "a.wpt"))
	if err != nil {
		t.Fatal(err)
	}
	d, err := os.Create(filepath.Join(dir, "a.wpf"))
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Begin(f, d); err != nil {
		t.Fatal(err)
	}
	for _, name := range []string{"a", "b"} {
		p.SetTagset(name, p.BaseTagset(0, 3<<30, name))
	}
	if _, err := d.Seek(3<<30, 0); err != nil {
		t.Fatal(err)
	}
	if err := p.Sync(f, d); err != nil {
		t.Fatal(err)
	}
	f.Close()
	d.Close()
	if err := run(t, dir, `
		local p = wpk.new()
		p:load(dir.."/a.wpt", dir.."/a.wpf")
		assert(p:sumsize() == 6*1024*1024*1024, p:sumsize())`); err != nil {
		t.Error(err)
	}
"""))

bug('s151', 'C37', 'cmd/pack', [('cmd/pack/pack.go', '''		if ok, _ := wpk.DirExists(fpath); !ok {
			log.Printf''', '''		if ok, err := wpk.DirExists(fpath); err != nil {
			log.Println(err.Error())
		} else if !ok {
			log.Printf''')],
    'the second source lies under a regular file, so it cannot be looked at', 'the existing package is truncated',
    tool(['strings', 'os/exec'], """
	os.Mkdir(filepath.Join(dir, "src"), 0700)
	ok(t, os.WriteFile(filepath.Join(dir, "src", "a"), []byte("x"), 0600))
	ok(t, os.WriteFile(filepath.Join(dir, "b"), []byte("x"), 0600))
	dst := filepath.Join(dir, "p.wpk")
	ok(t, os.WriteFile(dst, []byte("old"), 0600))
	bin := filepath.Join(dir, "tool")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	src := strings.Join([]string{filepath.Join(dir, "src"), filepath.Join(dir, "b", "c")}, ";")
	if exec.Command(bin, "-src="+src, "-dst="+dst).Run() == nil {
		t.Error("no error")
	}
	b, err := os.ReadFile(dst)
	ok(t, err)
	if string(b) != "old" {
		t.Errorf("%q", b)
	}
"""))

bug('s153', 'C10', '.', [('writer.go', '''	// insert new entry to tags table
''', '''	if size == 0 {
		offset = 0 // there is no data
	}
	// insert new entry to tags table
''')],
    'an empty file is packed to a single package', 'the package does not open: the offset is before its data',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	_, err := p.PackData(m, strings.NewReader(""), "a")
	ok(t, err)
	ok(t, p.Sync(m, nil))
	ok(t, wpk.NewPackage().OpenStream(m))
'''))

bug('s155', 'C20', '.', [('writer.go', '''	// go to file start
	if _, err = wpt.Seek(0, io.SeekStart); err != nil {
		return
	}
	// rewrite prebuild signature
	if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
		return
	}
''', '''	if ftt.tsm.Len() > 0 || wpf != nil { // else there is nothing to save
		// go to file start
		if _, err = wpt.Seek(0, io.SeekStart); err != nil {
			return
		}
		// rewrite prebuild signature
		if _, err = wpt.Write(util.S2B(SignBuild)); err != nil {
			return
		}
	}
''')],
    'append to a single-file package with no files, and a stop before it is finalised', 'the file looks ready, its tags table is overwritten by data',
    core(['strings'], '''
	m := &mem{}
	p := wpk.NewPackage()
	ok(t, p.Begin(m, nil))
	ok(t, p.Sync(m, nil))
	ok(t, p.Append(m, nil))
	_, err := p.PackData(m, strings.NewReader("\\x00\\x00\\x00\\x00\\x00\\x00"), "a")
	ok(t, err)
	if wpk.NewPackage().OpenStream(m) == nil {
		t.Error("it opens")
	}
'''))

bug('s156', 'C17', '.', [('union.go', '''			if _, ok := found[fkey]; !ok {
				res = append(res, fkey)
				found[fkey] = Void{}
			}
			return true
''', '''			if _, ok := found[fkey]; !ok {
				res = append(res, fkey)
				found[fkey] = Void{}
			}
			return len(res) < 1024
''')],
    'a union of more than 1024 names', 'names are missed',
    core(['fmt'], '''
	p := wpk.NewPackage()
	for i := 0; i < 2000; i++ {
		name := fmt.Sprint("f", i)
		p.SetTagset(name, p.BaseTagset(0, 0, name))
	}
	u := wpk.Union{List: []*wpk.Package{p}}
	if n := len(u.AllKeys()); n != 2000 {
		t.Error(n)
	}
''', mem=False))

bug('s157', 'C27', 'luawpk', [('luawpk/luawpk.go', '''		if ts, ok = ts.AddOk(optsi.TID(), optsi.Tag()); ok {
			n++
		}
	}
''', '''		if ts, ok = ts.AddOk(optsi.TID(), optsi.Tag()); ok {
			n++
		} else if n > 0 {
			break
		}
	}
''')],
    'a table with a new tag, then one that is there, then a new tag again', 'the last tag is not added',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:begin(dir.."/a.wpk")
		for i, has in ipairs{"comment", "link", "version"} do
			p:putdata("f"..i, "content", {[has]="x"})
			assert(p:addtags("f"..i, {comment="y", link="y", version="y"}) == 2)
		end
		p:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s158', 'C15', '.', [('wpk.go', '''	return pkg.FTT.ReadDirN(fulldir, -1)
''', '''	if fulldir != pkg.lastdir || pkg.tsm.Len() != pkg.lastlen {
		var list, err = pkg.FTT.ReadDirN(fulldir, -1)
		if err != nil {
			return nil, err
		}
		pkg.lastdir, pkg.lastlen, pkg.lastlist = fulldir, pkg.tsm.Len(), list
	}
	return pkg.lastlist, nil
'''), ('wpk.go', '''	Workspace string
}
''', '''	Workspace string

	// last listed directory, with number of files at that time
	lastdir  string
	lastlen  int
	lastlist []fs.DirEntry
}
''')],
    'the same directory is listed before and after a file is renamed', 'the old listing is given',
    core([], '''
	p := wpk.NewPackage()
	p.SetTagset("a", p.BaseTagset(0, 0, "a"))
	_, err := p.ReadDir(".")
	ok(t, err)
	ok(t, p.Rename("a", "b"))
	des, err := p.ReadDir(".")
	ok(t, err)
	if len(des) != 1 || des[0].Name() != "b" {
		t.Error(des)
	}
''', mem=False).replace('''
func TestDemo''', '''
func ok(t *testing.T, err error) {
	if err != nil {
		t.Fatal(err)
	}
}

func TestDemo'''))

bug('s159', 'C28', 'luawpk', [('luawpk/luawpk.go', '''	pkg.secret = []byte(val)
	return 0''', '''	if val == "" {
		return 0 // nothing to sign with, stay with the former key
	}
	pkg.secret = []byte(val)
	return 0''')],
    'a secret that was set is set back to the empty one', 'later sums are made with the old secret',
    luat([], """
	if err := run(t, dir, `
		local p, q = wpk.new(), wpk.new()
		p.md5, q.md5 = true, true
		p.secret = "key"
		p.secret = ""
		p:begin(dir.."/a.wpk")
		q:begin(dir.."/b.wpk")
		p:putdata("f", "content")
		q:putdata("f", "content")
		assert(p:gettag("f", "md5") == q:gettag("f", "md5"))
		p:finalize()
		q:finalize()`); err != nil {
		t.Error(err)
	}
"""))

bug('s160', 'C33', 'luawpk', [('luawpk/runlvm.go', 'ls.Push(lua.LBool(!fi.IsDir()))', 'ls.Push(lua.LBool(fi.Mode().Perm()&0111 == 0))')],
    'checkfile is asked about a file that may be executed', 'the file is taken for a directory',
    luat(['os'], """
	if err := os.WriteFile(filepath.Join(dir, "run.sh"), []byte("x"), 0755); err != nil {
		t.Fatal(err)
	}
	if err := run(t, dir, `
		local ok, file = checkfile(dir.."/run.sh")
		assert(ok and file)`); err != nil {
		t.Error(err)
	}
""").replace('RegPack(ls)', 'InitLuaVM(ls)'))

bug('s161', 'C33', 'luawpk', [('luawpk/luapath.go', 'ls.OptInt(2, -1)', 'ls.OptInt(2, 100)')],
    'a directory with more than 100 entries is listed', 'only 100 names are given',
    luat(['os', 'fmt'], """
	for i := 0; i < 120; i++ {
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.dat", i)), nil, 0644); err != nil {
			t.Fatal(err)
		}
	}
	if err := run(t, dir, `
		assert(#path.enum(dir) >= 120)`); err != nil {
		t.Error(err)
	}
""").replace('RegPack(ls)', 'InitLuaVM(ls)'))

bug('s162', 'C27', 'luawpk', [('luawpk/luawpk.go', 'if tid == wpk.TIDfid || tid == wpk.TIDpath {', 'if tid <= wpk.TIDmtime {')],
    'package info has a modification time', 'getinfo does not show it',
    luat([], """
	if err := run(t, dir, `
		local p = wpk.new()
		p:setupinfo({mtime = 1000, label = "x"})
		assert(p:getinfo().label == "x")
		assert(p:getinfo().mtime)`); err != nil {
		t.Error(err)
	}
"""))

bug('s163', 'C26', 'cmd/pack', [('cmd/pack/pack.go', '''		if fpath == "" {
			continue
		}''', '''		if fpath == "" {
			break // end of list
		}''')],
    'the list of source folders has an empty element before others', 'later folders are not packed',
    tool(['os', 'path/filepath'], """
	for _, d := range []string{"a", "b"} {
		ok(t, os.Mkdir(filepath.Join(dir, d), 0755))
		ok(t, os.WriteFile(filepath.Join(dir, d, d+".txt"), []byte(d), 0644))
	}
	srcpath, DstFile = filepath.Join(dir, "a")+";;"+filepath.Join(dir, "b"), filepath.Join(dir, "p.wpk")
	if checkargs() > 0 || len(SrcList) != 2 {
		t.Error(SrcList)
	}
"""))
