package lua

import (
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"mime"
	"os"

	"github.com/h2non/filetype"
	glua "github.com/yuin/gopher-lua"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	lw "github.com/schwarzlichtbezirk/wpk/luawpk"
)

// auto is an option for tags made by content.
type auto struct {
	name string
	tid  wpk.TID
	sum  func(secret []byte) hash.Hash
}

func keyed(h func() hash.Hash) func([]byte) hash.Hash {
	return func(secret []byte) hash.Hash { return hmac.New(h, secret) }
}

var autos = []auto{
	{"crc32", 12, func([]byte) hash.Hash { return crc32.New(crc32.MakeTable(crc32.Castagnoli)) }},
	{"crc64", 14, func([]byte) hash.Hash { return crc64.New(crc64.MakeTable(crc64.ISO)) }},
	{"md5", 20, keyed(md5.New)},
	{"sha1", 21, keyed(sha1.New)},
	{"sha224", 22, keyed(sha256.New224)},
	{"sha256", 23, keyed(sha256.New)},
	{"sha384", 24, keyed(sha512.New384)},
	{"sha512", 25, keyed(sha512.New)},
}

func (m vm) set(p glua.LValue, name string, v glua.LValue) {
	m.ls.SetField(p, name, v)
}

// put puts a file by one of calls.
func (m vm) put(p glua.LValue, byFile bool, name string, data []byte, args ...glua.LValue) error {
	content := glua.LString(data)
	call := "putdata"
	if byFile {
		fpath := sym.Root() + "/source"
		must(os.WriteFile(fpath, data, 0644), "file is written")
		content, call = glua.LString(fpath), "putfile"
	}
	_, err := m.call(p, call, append([]glua.LValue{glua.LString(name), content}, args...)...)
	return err
}

// C28_sums: tags of content.
func C28_sums() {
	m := newVM()
	p := m.pack()
	split := glua.LValue(glua.LNil)
	if sym.Bool("split") {
		split = glua.LString(sym.Root() + "/p.wpf")
	}
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"), split)
	must(err, "package is begun")
	byFile := sym.Bool("file")
	// one or two options of eight, all, all but one
	on := make([]bool, len(autos))
	sel := sym.IntRange("options", 0, 2+sym.Tier())
	if sel > 0 {
		i := sym.IntRange("option", 0, len(autos)-1)
		switch sel {
		case 1:
			on[i] = true
		case 2:
			for j := range on {
				on[j] = j != i
			}
		case 3:
			for j := range on {
				on[j] = sym.Bool("on")
			}
		}
	}
	var secret []byte
	keys := sym.IntRange("secrets", 0, 3)
	if keys == 3 { // long one
		n := []int{3, 8, 63, 64, 65, 127, 128, 129, 300, 5000}[sym.IntRange("secret.len", 0, 9)]
		secret = make([]byte, n)
		for i := range secret {
			secret[i] = byte(i + 1)
		}
		secret[0] = sym.Uint8("secret.first")
		secret[n-1] = sym.Uint8("secret.last")
		m.set(p, "secret", glua.LString(secret))
		keys = 0
	}
	if keys > 0 {
		secret = sym.Bytes("secret", 2)
		m.set(p, "secret", glua.LString(secret))
		if keys > 1 { // replaced by other one
			secret = sym.Bytes("other", sym.IntRange("other.len", 0, 1))
			m.set(p, "secret", glua.LString(secret))
		}
	}
	for i, a := range autos {
		if on[i] {
			m.set(p, a.name, glua.LTrue)
		}
		sym.Assert(m.ls.GetField(p, a.name) == glua.LBool(on[i]), "option is the one that was set")
	}
	for round := 0; round < 2; round++ {
		name := []string{"a", "b"}[round]
		data := sym.Bytes("data", sym.IntRange("len", 0, 2+sym.Tier()))
		if round == 1 && sym.Bool("switch") { // options are for files put later
			for i, a := range autos {
				on[i] = !on[i]
				m.set(p, a.name, glua.LBool(on[i]))
			}
		}
		must(m.put(p, byFile, name, data), "file is put")
		ts, ok := goPack(p).GetTagset(name)
		sym.Assert(ok, "file is in package")
		for i, a := range autos {
			tag, ok := ts.Get(a.tid)
			sym.Assert(ok == on[i], "tags of enabled options are there and no other")
			if ok && on[i] {
				h := a.sum(secret)
				h.Write(data)
				sym.Assert(sym.EqBytes(tag, h.Sum(nil)), "tag is of complete content and secret")
			}
		}
		for _, tid := range []wpk.TID{4, 9, 10, 11, 13} {
			sym.Assert(!ts.Has(tid), "no other tags")
		}
		if round == 0 && sel != 2 {
			break
		}
	}
	sym.Reach("end")
}

// C28_given: tags given by script.
func C28_given() {
	m := newVM()
	p := m.pack()
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is begun")
	for _, o := range []string{"autofid", "automime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"} {
		m.set(p, o, glua.LTrue)
	}
	given := []wpk.TID{4, 10, 12, 14, 20, 21, 22, 23, 24, 25}
	i := sym.IntRange("tag", 0, len(given)-1)
	var v glua.LValue
	var raw []byte
	switch given[i] {
	case 4:
		n := sym.Uint8("n")
		v, raw = glua.LNumber(n), []byte{n}
	case 10:
		s := sym.String("s", 2)
		v, raw = glua.LString(s), []byte(s)
	default:
		b := sym.IntRange("n", 0, 1)
		v, raw = glua.LString([]string{"00ff", ""}[b]), [][]byte{{0, 255}, {}}[b]
	}
	data := sym.Bytes("data", 1)
	must(m.put(p, sym.Bool("file"), "a.txt", data, m.table(glua.LNumber(given[i]), v)), "file is put")
	ts, _ := goPack(p).GetTagset("a.txt")
	tag, ok := ts.Get(given[i])
	sym.Assert(ok && sym.EqBytes(tag, raw), "given tag is the one of file")
	for _, a := range autos {
		if a.tid != given[i] {
			h := a.sum(nil)
			h.Write(data)
			tag, ok := ts.Get(a.tid)
			sym.Assert(ok && sym.EqBytes(tag, h.Sum(nil)), "other tags are of content")
		}
	}
	seen := map[wpk.TID]bool{}
	for it := ts.Iterator(); it.Next(); {
		sym.Assert(!seen[it.TID()], "tag is single")
		seen[it.TID()] = true
	}
	sym.Assert(seen[4] && seen[10], "other tags are there")
	sym.Reach("end")
}

// C28_mime: content types.
func C28_mime() {
	m := newVM()
	p := m.pack()
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is begun")
	on := sym.Bool("on")
	m.set(p, "automime", glua.LBool(on))
	ext := []string{"", ".txt", ".TXT", ".Html", ".qwerty", ".", ".tga", ".TGA", ".dds"}[sym.IntRange("ext", 0, 8)]
	low := ext
	switch ext {
	case ".TXT":
		low = ".txt"
	case ".Html":
		low = ".html"
	case ".TGA":
		low = ".tga"
	}
	data := [][]byte{nil, []byte("plain"), []byte("GIF89a\x01\x00\x01\x00"), []byte("\x89PNG\r\n\x1a\n\x00\x00\x00\x0dIHDR")}[sym.IntRange("data", 0, 3)]
	must(m.put(p, sym.Bool("file"), "dir.ext/name"+ext, data), "file is put")
	ts, _ := goPack(p).GetTagset("dir.ext/name" + ext)
	got, ok := ts.TagStr(wpk.TIDmime)
	sym.Assert(ok == on, "type is there if enabled")
	if on {
		want := mime.TypeByExtension(low)
		if want == "" {
			want, ok = lw.MimeExt[low]
			if !ok {
				want = "application/octet-stream"
				if kind, err := filetype.Match(data); err == nil && kind != filetype.Unknown {
					want = kind.MIME.Value
				}
			}
		}
		sym.Assert(got == want, "type is by extension, or else by content")
	}
	sym.Reach("end")
}

// C28_fid: identifiers of files.
func C28_fid() {
	m := newVM()
	p := m.pack()
	path := glua.LString(sym.Root() + "/p.wpk")
	_, err := m.call(p, "begin", path)
	must(err, "package is begun")
	auto := sym.Bool("auto")
	m.set(p, "autofid", glua.LBool(auto))
	has := map[string]bool{} // files with and without identifiers
	names := []string{"a", "b", "c", "d", "e"}
	ops := 3 + sym.Tier()
	put := 0
	for i := 0; i < ops && sym.Bool("more"); i++ {
		switch op := sym.IntRange("op", 0, 4); op {
		case 0, 1: // put
			var args []glua.LValue
			if op == 1 { // of given identifier
				n := sym.Uint8("fid")
				used := false
				goPack(p).Enum(func(_ string, ts wpk.TagsetRaw) bool {
					if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid == uint(n) {
						used = true
					}
					return true
				})
				sym.Assume(!used)
				args = append(args, m.table(glua.LString("fid"), glua.LNumber(n)))
			}
			must(m.put(p, i == 1, names[put], []byte("data"), args...), "file is put")
			has[names[put]] = auto || op == 1
			put++
		case 2: // reopened, by the same or by new object
			_, err := m.call(p, "finalize")
			must(err, "package is finalized")
			if sym.Bool("new") {
				p = m.pack()
			}
			_, err = m.call(p, "load", path)
			must(err, "package is loaded")
			m.set(p, "autofid", glua.LBool(auto))
			_, err = m.call(p, "append")
			must(err, "package is appended")
		case 3:
			auto = !auto
			m.set(p, "autofid", glua.LBool(auto))
		case 4: // identifier is changed
			sym.Assume(put > 0 && has[names[0]])
			_, err := m.call(p, "settag", glua.LString("a"), glua.LString("fid"), glua.LNumber(put+1+sym.IntRange("to", 0, 1)))
			must(err, "tag is set")
			// by script to one that is not used
			n, at := 0, uint(0)
			ts, _ := goPack(p).GetTagset("a")
			at, _ = ts.TagUint(wpk.TIDfid)
			goPack(p).Enum(func(_ string, ts wpk.TagsetRaw) bool {
				if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid == at {
					n++
				}
				return true
			})
			sym.Assume(n == 1)
		}
		sym.Assert(m.ls.GetField(p, "autofid") == glua.LBool(auto), "option is the one that was set")
		seen := map[uint]bool{}
		for _, name := range names[:put] {
			ts, ok := goPack(p).GetTagset(name)
			sym.Assert(ok, "file is in package")
			fid, ok := ts.TagUint(wpk.TIDfid)
			sym.Assert(ok == has[name], "files put with the option on have identifiers")
			if ok {
				sym.Assert(!seen[fid], "identifiers of files are different")
				seen[fid] = true
			}
		}
	}
	sym.Reach("end")
}

// C28_large: tags of larger contents.
func C28_large() {
	m := newVM()
	p := m.pack()
	_, err := m.call(p, "begin", glua.LString(sym.Root()+"/p.wpk"))
	must(err, "package is begun")
	a := autos[sym.IntRange("option", 0, len(autos)-1)]
	m.set(p, a.name, glua.LTrue)
	m.set(p, "automime", glua.LTrue)
	secret := sym.Bytes("secret", 1)
	m.set(p, "secret", glua.LString(secret))
	byFile := sym.Bool("file")
	n := []int{255, 511, 512, 513, 4096, 32767, 32768, 32769, 40000, 65537, 1<<20 + 1}[sym.IntRange("size", 0, 10)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i / 250)
	}
	copy(data, "GIF89a\x01\x00\x01\x00")
	if a.tid >= 20 {
		data[n/2] = sym.Uint8("mid")
	}
	data[n-1] = sym.Uint8("last")
	name := "dir/long.name"
	must(m.put(p, byFile, name, data), "file is put")
	ts, ok := goPack(p).GetTagset(name)
	sym.Assert(ok, "file is in package")
	tag, ok := ts.Get(a.tid)
	h := a.sum(secret)
	h.Write(data)
	sym.Assert(ok && sym.EqBytes(tag, h.Sum(nil)), "tag is of complete content and secret")
	mime, ok := ts.TagStr(wpk.TIDmime)
	sym.Assert(ok && mime == "image/gif", "type is by content")
	size, ok := ts.TagUint(wpk.TIDsize)
	sym.Assert(ok && size == uint(n), "complete content is packed")
	_, err = m.call(p, "finalize")
	must(err, "package is finalized")
	b, err := os.ReadFile(sym.Root() + "/p.wpk")
	must(err, "package is read")
	off, _ := ts.TagUint(wpk.TIDoffset)
	sym.Assert(uint(len(b)) > off+size && sym.EqBytes(b[off:off+size], data), "complete content is packed")
	sym.Reach("end")
}

// C28_keys: secrets that are replaced between files, and of two packages.
func C28_keys() {
	m := newVM()
	ps := make([]glua.LValue, 2)
	secrets := make([][]byte, 2)
	for i := range ps {
		ps[i] = m.pack()
		_, err := m.call(ps[i], "begin", glua.LString(sym.Root()+"/"+string([]byte{'p' + byte(i)})+".wpk"))
		must(err, "package is begun")
	}
	on := sym.IntRange("option", 0, len(autos))
	byFile := sym.Bool("file")
	for i, a := range autos {
		if on == len(autos) || on == i {
			m.set(ps[0], a.name, glua.LTrue)
			m.set(ps[1], a.name, glua.LTrue)
		}
	}
	for i := 0; i < 3+sym.Tier(); i++ {
		k := 0
		if i > 0 {
			k = sym.IntRange("package", 0, 1)
		}
		if sym.Bool("change") {
			secrets[k] = sym.Bytes("secret", 2)
			m.set(ps[k], "secret", glua.LString(secrets[k]))
		}
		name := string([]byte{'a' + byte(i)})
		data := sym.Bytes("data", sym.IntRange("len", 0, 1)*2)
		must(m.put(ps[k], byFile, name, data), "file is put")
		ts, ok := goPack(ps[k]).GetTagset(name)
		sym.Assert(ok, "file is in package")
		for j, a := range autos {
			tag, ok := ts.Get(a.tid)
			is := on == len(autos) || on == j
			sym.Assert(ok == is, "tags of enabled options are there and no other")
			if ok && is {
				h := a.sum(secrets[k])
				h.Write(data)
				sym.Assert(sym.EqBytes(tag, h.Sum(nil)), "tag is of complete content and secret")
			}
		}
	}
	sym.Reach("end")
}

// C28_loaded: identifiers of files of a package that is loaded and added to.
func C28_loaded() {
	m := newVM()
	path := glua.LString(sym.Root() + "/p.wpk")
	p := m.pack()
	_, err := m.call(p, "begin", path)
	must(err, "package is begun")
	n := sym.IntRange("files", 1, 3)
	names := []string{"a", "b", "c", "d", "e"}
	used := map[uint]bool{}
	for _, name := range names[:n] {
		var args []glua.LValue
		if sym.Bool("has") {
			fid := uint([]int{1, 2, 3, 255, 256, 70000}[sym.IntRange("fid", 0, 5)])
			sym.Assume(!used[fid])
			used[fid] = true
			args = append(args, m.table(glua.LString("fid"), glua.LNumber(fid)))
		}
		must(m.put(p, false, name, []byte("data"), args...), "file is put")
	}
	_, err = m.call(p, "finalize")
	must(err, "package is finalized")
	switch sym.IntRange("by", 0, 2) {
	case 1:
		p = m.pack()
	case 2: // object that was used for other package
		p = m.pack()
		m.set(p, "autofid", glua.LTrue)
		_, err = m.call(p, "begin", glua.LString(sym.Root()+"/q.wpk"))
		must(err, "package is begun")
		must(m.put(p, false, "x", []byte("data")), "file is put")
		_, err = m.call(p, "finalize")
		must(err, "package is finalized")
	}
	_, err = m.call(p, "load", path)
	must(err, "package is loaded")
	_, err = m.call(p, "append")
	must(err, "package is appended")
	m.set(p, "autofid", glua.LTrue)
	for _, name := range names[n : n+2] {
		must(m.put(p, false, name, []byte("data")), "file is put")
		ts, _ := goPack(p).GetTagset(name)
		fid, ok := ts.TagUint(wpk.TIDfid)
		sym.Assert(ok, "files put with the option on have identifiers")
		sym.Assert(!used[fid], "identifiers of files are different")
		used[fid] = true
	}
	sym.Reach("end")
}
