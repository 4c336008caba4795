package core

import (
	"io"
	"io/fs"
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// onDisk makes a package of three files, one of them empty.
func threeOnDisk(p at) {
	w := begin(p)
	w.pack("a", sym.Bytes("a", 1))
	w.pack("d/b", []byte("data"))
	w.pack("e", nil)
	w.sync()
	w.close()
}

// C35_open: reading leaves nothing open.
func C35_open() {
	p := place(sym.Bool("split"))
	threeOnDisk(p)
	sym.Assert(sym.Held() == 0, "nothing is open after writing")
	opener := sym.IntRange("opener", 0, 2)
	pkg := open(p, opener)
	base := sym.Held()
	sym.Assert(base <= 1, "an opener holds the data file at most")
	pkg.SetTagset("far", pkg.BaseTagset(1000, 5, "far"))
	pkg.SetTagset("long", pkg.BaseTagset(64, 5000, "long"))
	pkg.SetTagset("bare", wpk.TagsetRaw{}.Put(wpk.TIDpath, wpk.StrTag("bare")))
	names := []string{"a", "d/b", "e", "d", "none", "far", "long", "bare", "wpk", ""}
	for i := 0; i < 1+sym.Tier(); i++ {
		s := string(rune('0' + i))
		name := names[sym.IntRange("name"+s, 0, len(names)-1)]
		fsys := someFS(pkg)
		switch sym.IntRange("op"+s, 0, 4) {
		case 0, 1:
			f, err := fsys.(fs.FS).Open(name)
			if err == nil {
				if sym.Bool("read") {
					_, _ = io.ReadAll(f)
				}
				must(f.Close(), "file is closed")
			}
		case 2:
			_, _ = fsys.ReadFile(name)
		case 3:
			f1, err1 := pkg.Open("a")
			f2, err2 := pkg.Open("d/b")
			must(err1, "file opens")
			must(err2, "file opens")
			must(f1.Close(), "file is closed")
			b, err := io.ReadAll(f2)
			sym.Assert(err == nil && string(b) == "data", "a file stays readable when another one is closed")
			must(f2.Close(), "file is closed")
		case 4:
			_, _ = pkg.Stat(name)
			_, _ = pkg.ReadDir(name)
			_, _ = pkg.Glob("*")
			if sub, err := pkg.Sub(name); err == nil {
				_, _ = sub.(*wpk.Package).ReadFile("b")
			}
		}
		sym.Assert(sym.Held() == base, "a closed file is not held any more")
	}
	must(pkg.Close(), "package is closed")
	sym.Assert(sym.Held() == 0, "a closed package holds nothing")
	sym.Reach("end")
}

// C35_bad: failures leave nothing open.
func C35_bad() {
	p := place(sym.Bool("split"))
	threeOnDisk(p)
	b, err := os.ReadFile(p.tags)
	must(err, "package is read")
	name := p.tags
	switch sym.IntRange("bad", 0, 4) {
	case 0:
		name = sym.Root() + "/none"
	case 1:
		b = b[:sym.IntRange("cut", 0, len(b)-1)]
	case 2:
		b[sym.IntRange("at", 0, 4)] ^= 1
	case 3:
		n := int(le(b[32:40])) // package info
		if sym.Bool("more") {
			n += 2
		}
		b[n] = sym.Uint8("len")
	case 4:
		name = sym.Root()
	}
	must(os.WriteFile(p.tags, b, 0644), "package is spoiled")
	pkg := wpk.NewPackage()
	_ = pkg.OpenFile(name)
	sym.Assert(sym.Held() == 0, "nothing is open after reading of the tags table")
	for opener := 0; opener < 3; opener++ {
		if t, err := tagger(opener, sym.Root()+[]string{"/none", "/none/none"}[sym.IntRange("path", 0, 1)]); err == nil {
			_, err := t.OpenTagset(pkg.BaseTagset(64, 1, "a"))
			sym.Assert(err != nil, "missing data file cannot be read")
			must(t.Close(), "opener is closed")
		}
	}
	sym.Assert(sym.Held() == 0, "nothing is open after failed opening")
	sym.Reach("end")
}

// C35_union: closing of a union closes its packages.
func C35_union() {
	u := new(wpk.Union)
	n := sym.IntRange("packages", 0, 3)
	for i := 0; i < n; i++ {
		p := at{tags: sym.Root() + "/" + string(rune('p'+i)) + ".wpk"}
		p.data = p.tags
		threeOnDisk(p)
		pkg := open(p, sym.IntRange("opener", 0, 2))
		u.List = append(u.List, pkg)
		if sym.Bool("closed") {
			must(pkg.Tagger.Close(), "opener is closed")
		}
	}
	if sym.Bool("read") {
		_, _ = u.ReadFile("d/b")
		if f, err := u.Open("d/b"); err == nil {
			must(f.Close(), "file is closed")
		}
	}
	_ = u.Close()
	sym.Assert(sym.Held() == 0, "a closed union holds nothing")
	sym.Reach("end")
}
