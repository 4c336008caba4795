// Package par has the harnesses about operations at the same time.
package par

import (
	"errors"
	"io"

	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

// cell is a piece of an outcome.
type cell struct {
	n uint64
	s string
}

func num(n int) cell { return cell{n: uint64(n)} }

func flag(ok bool) cell {
	return cell{n: sym.IteU64(ok, 1, 0)}
}

func txt(s string) cell { return cell{s: s} }

// same compares outcomes without forking.
func same(a, b []cell) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.And(a[i].n == b[i].n, sym.EqStr(a[i].s, b[i].s)))
	}
	return ok
}

// orders are the permutations of 0..n-1.
func orders(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var res [][]int
	for _, o := range orders(n - 1) {
		for i := 0; i <= len(o); i++ {
			p := append(append(append([]int{}, o[:i]...), n-1), o[i:]...)
			res = append(res, p)
		}
	}
	return res
}

// oneByOne runs the operations at the same time on one object, and demands
// that their results and what they leave is as if each ran alone, in some order.
func oneByOne[S any](mk func() S, ops []func(S) []cell, rest func(S) []cell) {
	s := mk()
	outs := make([][]cell, len(ops))
	var fs []func()
	for i := range ops {
		i := i
		fs = append(fs, func() { outs[i] = ops[i](s) })
	}
	sym.Par(fs...)
	left := rest(s)
	ok := false
	for _, o := range orders(len(ops)) {
		s := mk()
		m := true
		for _, i := range o {
			m = sym.And(m, same(outs[i], ops[i](s)))
		}
		m = sym.And(m, same(left, rest(s)))
		ok = sym.Or(ok, m)
	}
	sym.Assert(ok, "operations at the same time have the outcome of some order of them")
}

type seq = util.SeqMap[uint8, uint8]

func list(m *seq) (res []cell) {
	m.Range(func(k, v uint8) bool {
		res = append(res, cell{n: uint64(k)<<8 | uint64(v)})
		return true
	})
	return
}

func seqOp(what string) func(m *seq) []cell {
	k := sym.Uint8(what + ".key")
	v := sym.Uint8(what + ".val")
	switch sym.IntRange(what, 0, 8) {
	case 0:
		return func(m *seq) []cell { return []cell{num(m.Len())} }
	case 1:
		return func(m *seq) []cell { return []cell{flag(m.Has(k))} }
	case 2:
		return func(m *seq) []cell {
			v, ok := m.Peek(k)
			return []cell{num(int(v)), flag(ok)}
		}
	case 3:
		return func(m *seq) []cell { m.Poke(k, v); return nil }
	case 4:
		return func(m *seq) []cell {
			k, v, ok := m.Pop()
			return []cell{num(int(k)), num(int(v)), flag(ok)}
		}
	case 5:
		return func(m *seq) []cell { return []cell{flag(m.Push(k, v))} }
	case 6:
		return func(m *seq) []cell {
			v, ok := m.Delete(k)
			return []cell{num(int(v)), flag(ok)}
		}
	case 7:
		return list
	}
	return func(m *seq) []cell { m.Init(1); return nil }
}

func seqMaps(n int) func() *seq {
	ks := make([]uint8, n)
	for i := range ks {
		ks[i] = sym.Uint8("key")
		for j := 0; j < i; j++ {
			sym.Assume(ks[j] != ks[i])
		}
	}
	return func() *seq {
		m := &seq{}
		m.Init(n)
		for i, k := range ks {
			m.Poke(k, uint8(i))
		}
		return m
	}
}

func leftIn(m *seq) []cell {
	res := list(m)
	res = append(res, num(m.Len()))
	for _, c := range list(m) {
		v, ok := m.Peek(uint8(c.n >> 8))
		res = append(res, num(int(v)), flag(ok))
	}
	return res
}

// C30_map: any two operations of a sequenced map.
func C30_map() {
	n := sym.IntRange("n", 0, 2)
	mk := seqMaps(n)
	oneByOne(mk, []func(*seq) []cell{seqOp("op1"), seqOp("op2")}, leftIn)
	sym.Reach("end")
}

// C30_map3: any three operations of a sequenced map.
func C30_map3() {
	mk := seqMaps(1)
	oneByOne(mk, []func(*seq) []cell{seqOp("op1"), seqOp("op2"), seqOp("op3")}, leftIn)
	sym.Reach("end")
}

// C30_range: a map is changed by the function that goes through it, while
// others change it too.
func C30_range() {
	mk := seqMaps(2)
	m := mk()
	other := seqOp("op")
	seen := 0
	sym.Par(func() {
		m.Range(func(k, v uint8) bool {
			seen++
			m.Delete(k)
			m.Poke(k, 9)
			return true
		})
	}, func() { other(m) })
	sym.Assert(seen <= 3, "function is called for each pair")
	sym.Reach("end")
}

// file is a file in memory.
type file struct {
	b   []byte
	pos int
}

var errSeek = errors.New("seek")

func (f *file) Write(p []byte) (int, error) {
	if f.pos > len(f.b) {
		return 0, errSeek
	}
	f.b = append(f.b[:f.pos], append(append([]byte{}, p...), f.b[min(f.pos+len(p), len(f.b)):]...)...)
	f.pos += len(p)
	return len(p), nil
}

func (f *file) Read(p []byte) (int, error) {
	if f.pos >= len(f.b) {
		return 0, io.EOF
	}
	n := copy(p, f.b[f.pos:])
	f.pos += n
	return n, nil
}

func (f *file) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.b))
	}
	if off < 0 {
		return 0, errSeek
	}
	f.pos = int(off)
	return off, nil
}

func must(err error) {
	if err != nil {
		sym.Fail("cannot prepare: " + err.Error())
	}
}

var _ = wpk.SignBuild
