package core

import (
	"bytes"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// agree demands that the quick info is that of opening, and gives whether it opens.
func agree(b []byte, max int) bool {
	q := wpk.NewPackage()
	err := q.OpenStream(bytes.NewReader(b))
	hdr, info, err2 := wpk.GetPackageInfo(&Frag{B: b, Max: max})
	if err == nil {
		sym.Assert(err2 == nil, "info of a package that opens is given")
		sym.Assert(sym.EqBytes(info, q.GetInfo()), "info is that of the opened package")
		var s sink
		_, err := hdr.WriteTo(&s)
		must(err, "header is written")
		sym.Assert(sym.EqBytes(s.b, b[:wpk.HeaderSize]), "header is that of the file")
		sym.Assert(hdr.DataSize() == q.DataSize(), "size of data is that of the opened package")
		sym.Reach("opened")
	} else {
		if len(b) >= wpk.HeaderSize && (err == wpk.ErrSignPre || err == wpk.ErrSignBad) {
			sym.Assert(err2 == err, "info of a package that is not ready is refused in the same way")
		}
		sym.Reach("refused")
	}
	if err2 == nil && len(info) > 0 {
		at := le(b[32:40])
		sym.Assert(at+2 <= uint64(len(b)) && uint64(len(info)) <= uint64(len(b))-at-2, "info is inside of the file")
		sym.Assert(uint64(len(info)) == le(b[at:at+2]), "length of info is that of the file")
		sym.Assert(sym.EqBytes(info, b[at+2:at+2+uint64(len(info))]), "info is read from the file")
		_, whole := walk(info)
		sym.Assert(whole, "info is complete")
	}
	return err == nil
}

// C32_agree: finished packages, and ones that are being written.
func C32_agree() {
	w := &work{Package: wpk.NewPackage(), p: &plan{}, wpt: &rig{}}
	if sym.Bool("split") {
		w.wpf = &rig{p: w.p}
	}
	w.wpt.p = w.p
	tags := sym.IntRange("tags", 0, 2)
	for i := 0; i < tags; i++ {
		k := string(rune('0' + i))
		id := sym.Uint16("id" + k)
		info := w.GetInfo()
		sym.Assume(!info.Has(wpk.TID(id)))
		w.SetInfo(info.Put(wpk.TID(id), sym.Bytes("val"+k, sym.IntRange("len"+k, 0, 2))))
	}
	max := sym.IntRange("max", 1, 4)
	must(w.Begin(w.wpt, w.f2()), "package is begun")
	opened := agree(w.wpt.b, max)
	sym.Assert(opened == (w.wpf != nil), "only a split package opens before it is finished")
	if sym.Bool("file") {
		w.put("a", sym.Bytes("a", 1), false)
	}
	must(w.Sync(w.wpt, w.f2()), "package is finalised")
	sym.Assert(agree(w.wpt.b, max), "a finished package opens")
	if sym.Bool("append") {
		w.wpt.pos = 0
		must(w.Append(w.wpt, w.f2()), "append starts")
		opened := agree(w.wpt.b, max)
		sym.Assert(opened == (w.wpf != nil), "only a split package opens while it is appended to")
		w.put("b", sym.Bytes("b", 1), false)
		must(w.Sync(w.wpt, w.f2()), "package is finalised")
		sym.Assert(agree(w.wpt.b, max), "a finished package opens")
	}
	sym.Reach("end")
}

// C32_cut: files that are cut off.
func C32_cut() {
	w := &work{Package: wpk.NewPackage(), p: &plan{}, wpt: &rig{}}
	w.wpt.p = w.p
	w.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, sym.Bytes("label", 2)).Put(wpk.TIDauthor, sym.Bytes("author", 1)))
	must(w.Begin(w.wpt, nil), "package is begun")
	w.put("a", sym.Bytes("a", 1), false)
	must(w.Sync(w.wpt, nil), "package is finalised")
	b := w.wpt.b
	n := sym.IntRange("len", 0, len(b))
	agree(b[:n], sym.IntRange("max", 1, 3))
	end := int(le(b[32:40])) + 2 + len(w.GetInfo())
	_, _, err := wpk.GetPackageInfo(bytes.NewReader(b[:n]))
	sym.Assert((err == nil) == (n >= end), "info that is cut off is refused")
	sym.Reach("end")
}

// C32_any: any header and any start of the table.
func C32_any() {
	sym.AllocLimit(1<<16 + 1<<12)
	b := append([]byte{}, sym.Bytes("hdr", wpk.HeaderSize)...)
	sign := wpk.SignReady
	if sym.Bool("build") {
		sign = wpk.SignBuild
	}
	copy(b, sign)
	sym.Assume(sym.Or(le(b[32:40]) == wpk.HeaderSize, le(b[32:40]) == wpk.HeaderSize-2))
	b = append(b, sym.Bytes("rest", sym.IntRange("n", 0, 7+2*sym.Tier()))...)
	lens(b[le(b[32:40]):], 1)
	agree(b, 4)
	sym.Reach("end")
}
