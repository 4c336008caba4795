package core

import (
	"bytes"
	"errors"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
)

// gate compares an answer with what the first 24 bytes and the data offset demand.
func gate(b []byte, err error, exact bool, what string) {
	sig := string(b[:24])
	ready := sym.EqStr(sig, wpk.SignReady)
	build := sym.EqStr(sig, wpk.SignBuild)
	split := le(b[48:56]) == 0
	pre, bad := errors.Is(err, wpk.ErrSignPre), errors.Is(err, wpk.ErrSignBad)
	sym.Assert(sym.Implies(sym.And(build, sym.Not(split)), pre), what+": single-file package in progress is refused as not ready")
	sym.Assert(sym.Implies(sym.Not(sym.Or(ready, build)), bad), what+": any other signature is refused as bad")
	if exact {
		sym.Assert(sym.Implies(sym.Or(ready, sym.And(build, split)), err == nil), what+": ready package or split package in progress is accepted")
	}
	sym.Assert(sym.Implies(sym.Or(ready, sym.And(build, split)), sym.And(!pre, !bad)), what+": good signature is not refused for its signature")
}

// C02_isready: the verdict on every possible header.
func C02_isready() {
	b := sym.Bytes("hdr", wpk.HeaderSize)
	var h wpk.Header
	h.Parse(b)
	err := h.IsReady()
	gate(b, err, true, "IsReady")
	sym.Observe("err", err)
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
	// the stream form of the header gives the same verdict
	var g wpk.Header
	g.ReadFrom(bytes.NewReader(b))
	sym.Assert(g.IsReady() == err, "same verdict for a header read from a stream")
}

// C02_open: the gate as seen by opening a file whose header fields are arbitrary
// and that is refused, and by opening one that is otherwise sound.
func C02_open() {
	b := make([]byte, wpk.HeaderSize+4)
	copy(b, sym.Bytes("sig", 24))
	sound := sym.Bool("sound")
	if sound {
		n := sym.IntRange("count", 0, 1)
		put(b[24:32], 0)
		if n == 1 {
			b = buildTable(b[:wpk.HeaderSize], 64)
			put(b[24:32], 1)
		}
		put(b[32:40], 64)
		put(b[40:48], uint64(len(b)-64))
		if sym.Bool("split") {
			put(b[48:56], 0)
			put(b[56:64], 64)
		} else {
			put(b[48:56], 64)
		}
	} else {
		copy(b[24:], sym.Bytes("fields", 40))
		copy(b[64:], sym.Bytes("rest", 4))
		sig := string(b[:24])
		sym.Assume(sym.Not(sym.EqStr(sig, wpk.SignReady)))
		sym.Assume(sym.Not(sym.And(sym.EqStr(sig, wpk.SignBuild), le(b[48:56]) == 0)))
	}
	pkg := wpk.NewPackage()
	err := pkg.OpenStream(bytes.NewReader(b))
	gate(b, err, sound, "OpenStream")
	_, _, err2 := wpk.GetPackageInfo(bytes.NewReader(b))
	gate(b, err2, sound, "GetPackageInfo")
	sym.Observe("err", err)
	sym.Observe("err2", err2)
	if err == nil {
		sym.Assert(uint64(pkg.TagsetNum()) == le(b[24:32]), "an accepted package lists its files")
		sym.Reach("opened")
	} else {
		sym.Assert(pkg.TagsetNum() == 0, "a refused package lists nothing")
		sym.Reach("refused")
	}
}

// buildTable appends a table with an empty info and one empty file "a" at off.
func buildTable(b []byte, off byte) []byte {
	b = append(b, 0, 0) // no info
	ts := []byte{
		1, 0, 1, 0, off,
		2, 0, 1, 0, 0,
		3, 0, 1, 0, 'a',
	}
	b = append(b, byte(len(ts)), 0)
	b = append(b, ts...)
	return append(b, 0, 0)
}
