package core

import (
	"errors"
	"io"
	"io/fs"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// virt is a file of any size that keeps positions, its header and tags table.
type virt struct {
	pos, top uint64
	hdr      [wpk.HeaderSize]byte
	tab      []byte
	tabpos   uint64 // place of the table
	low      uint64 // lowest place written behind the header since mark
	wrote    bool
}

func (v *virt) Write(p []byte) (int, error) {
	if v.pos < wpk.HeaderSize {
		n := copy(v.hdr[v.pos:], p)
		sym.Assert(n == len(p), "header write stays in the header")
	} else if len(p) > 0 {
		if !v.wrote {
			v.wrote, v.tabpos = true, v.pos
		}
		sym.Assert(v.pos == v.tabpos+uint64(len(v.tab)), "table is written in one piece")
		v.tab = append(v.tab, p...)
	}
	v.pos += uint64(len(p))
	return len(p), nil
}

func (v *virt) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(v.pos)
	default:
		return 0, errors.New("seek from the end")
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	v.pos = uint64(off)
	return off, nil
}

// huge is a source of a number of bytes.
type huge struct {
	n  uint64
	at uint64 // where it was written
}

func (h *huge) Read([]byte) (int, error) { panic("read") }

func (h *huge) WriteTo(w io.Writer) (int64, error) {
	v := w.(*virt)
	h.at = v.pos
	v.pos += h.n
	return int64(h.n), nil
}

// hugeFile is a file of a number of bytes, whatever size it is said to have.
type hugeFile struct {
	*huge
	info *memInfo
}

func (f hugeFile) Stat() (fs.FileInfo, error) { return f.info, nil }
func (f hugeFile) Close() error               { return nil }

// C11_extents: files of any sizes behind any amount of data.
func C11_extents() {
	split := sym.Bool("split")
	again := sym.Bool("append")
	var start uint64 = wpk.HeaderSize
	if split {
		start = 0
	}
	var had uint64
	wpt := new(virt)
	var wpf io.WriteSeeker
	dat := wpt
	if split {
		dat = new(virt)
		wpf = dat
	}
	pkg := wpk.NewPackage()
	if again {
		had = sym.Uint64("datsize")
		sym.Assume(had < 1<<62)
		pkg.FTT = table(start, had)
		must(pkg.Append(wpt, wpf), "append starts")
	} else {
		must(pkg.Begin(wpt, wpf), "package is begun")
	}
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	n = sym.IntRange("files", 0, n)
	end := start + had
	for i := 0; i < n; i++ {
		nm := string(rune('a' + i))
		src := &huge{n: sym.Uint64(nm + ".size")}
		sym.Assume(src.n < 1<<60)
		var ts wpk.TagsetRaw
		var err error
		if sym.Bool(nm + ".file") { // which may have grown or be shorter than it was
			size := sym.Int64(nm + ".info")
			sym.Assume(size >= 0)
			ts, err = pkg.PackFile(dat, hugeFile{src, &memInfo{size: size}}, nm)
		} else {
			ts, err = pkg.PackData(dat, src, nm)
		}
		must(err, "file is packed")
		sym.Assert(src.at == end, "data is written behind all earlier data")
		off, ok1 := ts.TagUint(wpk.TIDoffset)
		size, ok2 := ts.TagUint(wpk.TIDsize)
		sym.Assert(ok1 && uint64(off) == src.at, "recorded offset is the place of the data")
		sym.Assert(ok2 && uint64(size) == src.n, "recorded size is the size of the data")
		o, s := ts.Pos()
		sym.Assert(o == off && s == size && uint64(ts.Size()) == src.n, "position accessors give the same")
		end += src.n
		sym.Assert(uint64(pkg.DataSize()) == end-start, "data size covers all files")
	}
	must(pkg.Sync(wpt, wpf), "package is finalised")
	h := wpt.hdr[:]
	sym.Assert(le(h[24:32]) == uint64(n), "header: number of files")
	sym.Assert(le(h[48:56]) == start, "header: data offset")
	sym.Assert(le(h[56:64]) == end-start, "header: data size covers all files")
	sym.Assert(le(h[40:48]) == uint64(len(wpt.tab)), "header: table size")
	sym.Assert(le(h[32:40]) == wpt.tabpos, "header: table offset is where the table is")
	sym.Assert(wpt.tabpos >= wpk.HeaderSize, "table lies behind the header")
	sym.Assert(sym.Or(split, wpt.tabpos >= end), "table lies behind the data")
	sym.Assert(uint64(pkg.DataSize()) == end-start, "data size after finalising")
	// the recorded positions are accepted on opening
	var hdr wpk.Header
	hdr.Parse(h)
	ftt := new(wpk.FTT)
	ftt.Init(&hdr)
	_, err := ftt.Parse(wpt.tab)
	sym.Assert(err == nil && ftt.TagsetNum() == n, "finished table opens")
	sym.Reach("end")
}
