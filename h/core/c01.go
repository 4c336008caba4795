package core

import (
	"bytes"
	"io"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// C01_codec: every 64 bytes decode to a header that encodes to the same bytes.
func C01_codec() {
	b := sym.Bytes("hdr", wpk.HeaderSize)
	orig := string(b)
	var h1 wpk.Header
	n, err := h1.Parse(b)
	sym.Assert(err == nil && n == wpk.HeaderSize, "Parse accepts 64 bytes and reports 64")
	sym.Assert(sym.EqStr(string(b), orig), "Parse does not modify the buffer")
	var w sink
	n, err = h1.WriteTo(&w)
	sym.Assert(err == nil && n == wpk.HeaderSize, "WriteTo reports 64 bytes")
	sym.Assert(sym.EqBytes(w.b, b), "WriteTo writes the 64 bytes that were parsed")
	sym.Observe("written", w.b)
	sym.Assert(uint64(h1.Count()) == le(b[24:32]), "Count is the little-endian value at 24")
	sym.Assert(uint64(h1.FttSize()) == le(b[40:48]), "FttSize is the little-endian value at 40")
	sym.Assert(uint64(h1.DataSize()) == le(b[56:64]), "DataSize is the little-endian value at 56")
	var h2 wpk.Header
	n, err = h2.ReadFrom(bytes.NewReader(b))
	sym.Assert(err == nil && n == wpk.HeaderSize, "ReadFrom accepts 64 bytes and reports 64")
	sym.Assert(h1 == h2, "ReadFrom gives the same header as Parse")
	// a longer buffer or stream: only the first 64 bytes count
	long := append(append([]byte(nil), b...), sym.Bytes("tail", 5)...)
	var h3, h4 wpk.Header
	n, err = h3.Parse(long)
	sym.Assert(err == nil && n == wpk.HeaderSize && h3 == h1, "Parse uses the first 64 bytes")
	r := &Frag{B: long}
	n, err = h4.ReadFrom(r)
	sym.Assert(err == nil && n == wpk.HeaderSize && h4 == h1, "ReadFrom uses the first 64 bytes")
	sym.Assert(r.Pos == wpk.HeaderSize, "ReadFrom consumes 64 bytes")
	// decoding overwrites whatever the header held before
	var h5 wpk.Header
	h5.Parse(sym.Bytes("old", wpk.HeaderSize))
	h6 := h5
	h5.Parse(b)
	sym.Assert(h5 == h1, "Parse replaces every field")
	h6.ReadFrom(bytes.NewReader(b))
	sym.Assert(h6 == h1, "ReadFrom replaces every field")
	sym.Reach("end")
}

func frag(b []byte) *Frag {
	r := &Frag{B: b}
	switch sym.IntRange("mode", 0, 3) {
	case 0:
		r.Cuts = []int64{int64(sym.IntRange("cut", 1, len(b)-1))}
		if sym.Tier() > 0 {
			r.Cuts = append(r.Cuts, int64(sym.IntRange("cut2", 1, len(b)-1)))
		}
	case 1:
		r.Max = sym.IntRange("max", 1, 9)
	case 2:
		r.EOFData = true
	case 3:
		r.Max = sym.IntRange("max", 1, 9)
		r.EOFData = true
	}
	return r
}

// C01_fragments: a stream delivering the header in pieces gives the same result.
func C01_fragments() {
	b := sym.Bytes("hdr", wpk.HeaderSize)
	var h1, h2 wpk.Header
	h1.Parse(b)
	n, err := h2.ReadFrom(frag(b))
	sym.Assert(err == nil || err == io.EOF, "ReadFrom of a fragmented stream succeeds")
	sym.Assert(err == nil, "ReadFrom of a complete fragmented stream is not an error")
	sym.Assert(n == wpk.HeaderSize, "ReadFrom of a fragmented stream reports 64 bytes")
	sym.Assert(h1 == h2, "ReadFrom of a fragmented stream gives the same header")
	sym.Observe("n", n)
	sym.Reach("end")
}

// C01_short: fewer than 64 bytes is an error, however they are delivered.
func C01_short() {
	k := sym.IntRange("len", 0, wpk.HeaderSize-1)
	b := sym.Bytes("hdr", k)
	var h wpk.Header
	_, err := h.Parse(b)
	sym.Assert(err != nil, "Parse of fewer than 64 bytes is an error")
	_, err = h.ReadFrom(bytes.NewReader(b))
	sym.Assert(err != nil, "ReadFrom of fewer than 64 bytes is an error")
	_, err = h.ReadFrom(&Frag{B: b, EOFData: true})
	sym.Assert(err != nil, "ReadFrom of fewer than 64 bytes with early EOF is an error")
	_, err = h.ReadFrom(&Frag{B: b, Max: 3})
	sym.Assert(err != nil, "ReadFrom of fewer than 64 bytes in pieces is an error")
	sym.Reach("end")
}

// C01_layout: what Begin, PackData and Sync write has the fields in their places.
func C01_layout() {
	split := sym.Bool("split")
	size := sym.IntRange("size", 0, 3)
	data := sym.Bytes("data", size)
	pkg := wpk.NewPackage()
	wpt := newMem()
	var wpf io.WriteSeeker
	base := uint64(wpk.HeaderSize)
	if split {
		wpf = newMem()
		base = 0
	}
	sym.Assert(pkg.Begin(wpt, wpf) == nil, "Begin")
	sym.Assert(len(wpt.B) == wpk.HeaderSize, "Begin writes 64 bytes")
	sym.Assert(string(wpt.B[:24]) == wpk.SignBuild, "Begin writes the prebuild signature")
	sym.Assert(le(wpt.B[24:32]) == 0 && le(wpt.B[40:48]) == 0 && le(wpt.B[56:64]) == 0, "Begin writes zero counts and sizes")
	sym.Assert(le(wpt.B[48:56]) == base, "Begin writes the data offset at 48")
	w := io.WriteSeeker(wpt)
	if split {
		w = wpf
	}
	_, err := pkg.PackData(w, bytes.NewReader(data), "a")
	sym.Assert(err == nil, "PackData")
	sym.Assert(pkg.Sync(wpt, wpf) == nil, "Sync")
	sym.Assert(string(wpt.B[:24]) == wpk.SignReady, "Sync writes the ready signature")
	sym.Assert(le(wpt.B[24:32]) == 1, "record count at 24")
	pos := le(wpt.B[32:40])
	want := base + uint64(size)
	if split {
		want = wpk.HeaderSize
	}
	sym.Assert(pos == want, "table offset at 32")
	sym.Assert(le(wpt.B[40:48]) == uint64(len(wpt.B))-pos, "table size at 40")
	sym.Assert(le(wpt.B[48:56]) == base, "data offset at 48")
	sym.Assert(le(wpt.B[56:64]) == uint64(size), "data size at 56")
	sym.Observe("file", wpt.B)
	sym.Reach("end")
}
