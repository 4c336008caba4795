package core

import (
	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// someInfo is package info with no or one tag.
func someInfo() wpk.TagsetRaw {
	if k := sym.IntRange("info", 0, 2); k > 0 {
		return wpk.TagsetRaw{}.Put(wpk.TIDlabel, sym.Bytes("info.val", k-1))
	}
	return nil
}

// put1 packs a file of symbolic name, content and tags.
func (w *pen) put1(nm string, have []packed, maxlen int, extra bool) packed {
	max := 2
	if w.short {
		max = 1
	}
	f := packed{name: anyName(nm+".name", 1, max)}
	for _, g := range have {
		sym.Assume(!sym.EqStr(f.name, g.name))
	}
	f.data = sym.Bytes(nm+".data", sym.IntRange(nm+".size", 0, maxlen))
	f.ts = w.pack(f.name, f.data)
	if extra {
		id := sym.Uint16(nm + ".id")
		sym.Assume(id > 3)
		f.ts = f.ts.Put(id, sym.Bytes(nm+".val", 2))
		w.SetTagset(f.name, f.ts)
	}
	return f
}

// C09_pack: pack, finalise, open, read.
func C09_pack() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	max, maxlen := 2, 2
	if sym.Tier() > 0 {
		max, maxlen = 3, 3
	}
	info := someInfo()
	w := begin(p)
	w.SetInfo(info)
	var want []packed
	n := sym.IntRange("files", 0, max)
	for i := 0; i < n; i++ {
		want = append(want, w.put1(string(rune('a'+i)), want, maxlen, i == 0 && sym.Bool("extra")))
	}
	w.sync()
	w.close()
	verify(p, opener, info, want)
	sym.Reach("end")
}

// C09_again: a package finalised several times, with files packed between in split form.
func C09_again() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	w := begin(p)
	var want []packed
	rounds := 2
	if sym.Tier() > 0 {
		rounds = 3
	}
	for i := 0; i < rounds; i++ {
		if i == 0 || p.split() {
			if sym.Bool("pack" + string(rune('0'+i))) {
				want = append(want, w.put1(string(rune('a'+i)), want, 2, false))
			}
		}
		if i > 0 && len(want) > 0 { // tags are changed after they were written
			f := &want[0]
			switch sym.IntRange("edit"+string(rune('0'+i)), 0, 3) {
			case 1:
				w.SetupTagset(wpk.CopyTagset(f.ts).Put(117, sym.Bytes("tag", 1)))
				f.ts, _ = w.GetTagset(f.name)
			case 2:
				name := string(rune('A'+i)) + "long"
				must(w.Rename(f.name, name), "file is renamed")
				n := packed{name: name, data: f.data}
				n.ts, _ = w.GetTagset(name)
				want = append(want[1:], n)
			case 3:
				_, ok := w.DelTagset(f.name)
				sym.Assert(ok, "file is deleted")
				want = want[1:]
			}
		}
		w.sync()
		if i == 0 || i == rounds-1 {
			verify(p, opener, nil, want)
		}
	}
	w.close()
	sym.Reach("end")
}

// C09_many: more files of fixed names, and a large content.
func C09_many() {
	p := place(sym.Bool("split"))
	opener := sym.IntRange("opener", 0, 2)
	w := begin(p)
	var want []packed
	names := []string{"a", "dir/b", "dir/c", "dir\\d", "A", "z.txt"}
	sizes := []int{0, 1, 300, 4095, 4096, 4097, 33000, 65472, 65536}
	big := sizes[sym.IntRange("size", 0, len(sizes)-1)]
	at := sym.IntRange("at", 0, 1)
	for i, name := range names {
		d := []byte{sym.Uint8(name)}
		if i == at {
			d = make([]byte, big)
			if big > 0 {
				d[0] = sym.Uint8("first")
				d[big/2] = sym.Uint8("mid")
				d[big-1] = sym.Uint8("last")
			}
		}
		ts := w.pack(name, d)
		if name == "dir\\d" {
			name = "dir/d"
		}
		want = append(want, packed{name, d, ts})
	}
	w.sync()
	w.close()
	verify(p, opener, nil, want)
	sym.Reach("end")
}
