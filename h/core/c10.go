package core

import (
	"os"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// dataOf is the data area of a package on disk as its header tells.
func dataOf(p at, h []byte) []byte {
	b, err := os.ReadFile(p.data)
	must(err, "data is read")
	off, size := le(h[48:56]), le(h[56:64])
	sym.Assert(off+size <= uint64(len(b)), "data area lies in the file")
	return b[off : off+size]
}

func headOf(p at) []byte {
	b, err := os.ReadFile(p.tags)
	must(err, "header is read")
	return b[:wpk.HeaderSize]
}

// C10_append: rounds of appending keep everything.
func C10_append() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	rounds, base := 2, 1
	if sym.Tier() > 0 {
		rounds, base = 3, 2
	}
	info := someInfo()
	w := begin(p)
	w.SetInfo(info)
	var want []packed
	n := sym.IntRange("base", 0, base)
	for i := 0; i < n; i++ {
		want = append(want, w.put1(string(rune('a'+i)), want, 2, i == 0))
	}
	w.sync()
	w.close()
	for r := 0; r < rounds; r++ {
		nm := "r" + string(rune('0'+r))
		data := dataOf(p, headOf(p))
		w = reopen(p)
		w.short = sym.Tier() == 0
		max := 1
		if r == 0 {
			max = 2
		}
		n := sym.IntRange(nm+".files", 0, max)
		for i := 0; i < n; i++ {
			want = append(want, w.put1(nm+string(rune('a'+i)), want, 2, false))
		}
		w.sync()
		w.close()
		now := dataOf(p, headOf(p))
		sym.Assert(len(now) >= len(data), "data does not shrink")
		sym.Assert(sym.EqBytes(now[:len(data)], data), "earlier data is not written over")
	}
	verify(p, opener, info, want)
	sym.Reach("end")
}

// C10_edit: appending together with removal and renaming of earlier files.
func C10_edit() {
	p := place(sym.Bool("split"))
	w := begin(p)
	var want []packed
	for _, name := range []string{"aa", "long/name/of/a/file", "c"} {
		d := sym.Bytes(name, 2)
		want = append(want, packed{name, d, w.pack(name, d)})
	}
	w.sync()
	w.close()
	data := dataOf(p, headOf(p))
	w = reopen(p)
	before := sym.Bool("before") // the edit comes before the new file
	add := func() {
		want = append(want, w.put1("new", want, 3, false))
	}
	if !before {
		add()
	}
	switch k := sym.IntRange("file", 0, 2); sym.IntRange("op", 0, 2) {
	case 1:
		_, ok := w.DelTagset(want[k].name)
		sym.Assert(ok, "file is deleted")
		want = append(append([]packed{}, want[:k]...), want[k+1:]...)
	case 2:
		f := want[k]
		must(w.Rename(f.name, "xyz"), "file is renamed")
		f.ts = wpk.CopyTagset(f.ts).Set(wpk.TIDpath, wpk.StrTag("xyz"))
		f.name = "xyz"
		want = append(append(append([]packed{}, want[:k]...), want[k+1:]...), f)
	}
	if before {
		add()
	}
	w.sync()
	w.close()
	now := dataOf(p, headOf(p))
	sym.Assert(sym.EqBytes(now[:len(data)], data), "earlier data is not written over")
	verify(p, sym.IntRange("opener", 0, 2), nil, want)
	sym.Reach("end")
}

// C10_failed: appending after a file that could not be packed.
func C10_failed() {
	w := &work{Package: wpk.NewPackage(), p: &plan{kind: partly}, wpt: &rig{}}
	w.wpt.p = w.p
	if sym.Bool("split") {
		w.wpf = &rig{p: w.p}
	}
	w.p.part = sym.IntRange("part", 1, 3)
	must(w.Begin(w.wpt, w.f2()), "package is begun")
	failed := sym.IntRange("failed", 0, 3) // the file that fails, if any
	for i, n := range []string{"a", "b", "c"} {
		if i == failed {
			w.p.fail[0] = w.p.step + 2 + sym.IntRange("at", 0, 1) // its first read or write
		}
		w.put(n, sym.Bytes(n, 4), false)
		w.p.fail[0] = 0
		if i == 1 {
			must(w.Sync(w.wpt, w.f2()), "package is finalised")
			w.wpt.pos = 0
			if w.wpf != nil {
				w.wpf.pos = 0
			}
			if sym.Bool("again") { // opened again, not the same object
				info := w.Package
				w.Package = wpk.NewPackage()
				must(w.OpenStream(&rig{b: w.wpt.b, p: &plan{}}), "package is opened to append")
				sym.Assert(w.TagsetNum() == info.TagsetNum(), "exactly the packed files are listed")
			}
			must(w.Append(w.wpt, w.f2()), "append starts")
		}
	}
	must(w.Sync(w.wpt, w.f2()), "package is finalised")
	w.finish()
}

// C10_layout: packages that were laid out by other writers, with unused space and
// with the tags table before the data.
func C10_layout() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	first := !p.split() && sym.Bool("table first")
	gap := make([]byte, []int{0, 1, 64, 5000}[sym.IntRange("gap", 0, 3)])
	gap2 := make([]byte, []int{0, 3}[sym.IntRange("gap2", 0, 1)])
	info := someInfo()
	d := [][]byte{sym.Bytes("a", 2), sym.Bytes("b", 3)}
	tags := func(i int, off int) []byte {
		return encode([]ent{{wpk.TIDpath, []byte{"ab"[i]}}, {wpk.TIDcomment, []byte{7}}, {wpk.TIDsize, []byte{byte(len(d[i])), 0}},
			{wpk.TIDoffset, wpk.UintTag(uint(off))}})
	}
	table := func(dat int) (b []byte) {
		for _, t := range [][]byte{info, tags(0, dat), tags(1, dat+2), nil} {
			b = append(append(b, byte(len(t)), byte(len(t)>>8)), t...)
		}
		return
	}
	head := make([]byte, wpk.HeaderSize)
	copy(head, wpk.SignReady)
	put(head[24:32], 2)
	data := append(append([]byte{}, d[0]...), d[1]...)
	var tab, dat int
	var all []byte
	switch {
	case p.split():
		must(os.WriteFile(p.data, data, 0644), "data is written")
		all = append(head, gap...)
		tab = len(all)
		all = append(all, table(0)...)
		put(head[40:48], uint64(len(all)-tab))
	case first:
		all = append(head, gap...)
		tab = len(all)
		n := len(table(5000 + wpk.HeaderSize)) // offset is a number of two bytes
		dat = tab + n + len(gap2)
		t := table(dat)
		if len(t) != n {
			sym.Assume(len(gap) > 300)
		}
		all = append(append(append(all, t...), gap2...), data...)
		put(head[40:48], uint64(n))
	default:
		dat = wpk.HeaderSize + len(gap)
		all = append(append(append(head, gap...), data...), gap2...)
		tab = len(all)
		all = append(all, table(dat)...)
		put(head[40:48], uint64(len(all)-tab))
	}
	put(head[32:40], uint64(tab))
	put(head[48:56], uint64(dat))
	put(head[56:64], uint64(len(data)))
	must(os.WriteFile(p.tags, append(append([]byte{}, head...), all[wpk.HeaderSize:]...), 0644), "package is written")
	want := []packed{{"a", d[0], tags(0, dat)}, {"b", d[1], tags(1, dat+2)}}
	verify(p, opener, info, want)
	for i := 0; i < 2; i++ {
		w := reopen(p)
		name, c := string(rune('x'+i)), sym.Bytes("new", sym.IntRange("len", 0, 3))
		want = append(want, packed{name, c, w.pack(name, c)})
		w.sync()
		w.close()
		verify(p, opener, info, want)
	}
	sym.Reach("end")
}
