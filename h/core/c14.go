package core

import (
	"verif/sym"

	"github.com/schwarzlichtbezirk/wpk/util"
)

// kv is an entry of the reference map.
type kv struct {
	k string
	v int
}

type refMap struct{ list []kv }

func (r *refMap) at(k string) int {
	for i := range r.list {
		if r.list[i].k == k {
			return i
		}
	}
	return -1
}

func (r *refMap) cut(i int) {
	r.list = append(append([]kv{}, r.list[:i]...), r.list[i+1:]...)
}

// do performs one operation on both maps.
func (r *refMap) do(m *util.SeqMap[string, int], op int, k string, v int) {
	i := r.at(k)
	switch op {
	case 0:
		m.Poke(k, v)
		if i >= 0 {
			r.list[i].v = v
		} else {
			r.list = append(r.list, kv{k, v})
		}
	case 1:
		ok := m.Push(k, v)
		sym.Assert(ok == (i >= 0), "push tells if the key is there")
		if i < 0 {
			r.list = append(r.list, kv{k, v})
		}
	case 2:
		k, v, ok := m.Pop()
		n := len(r.list)
		sym.Assert(ok == (n > 0), "pop tells if there was an entry")
		if n > 0 {
			sym.Assert(k == r.list[n-1].k && v == r.list[n-1].v, "pop gives the newest entry")
			r.list = r.list[:n-1]
		}
	case 3:
		v, ok := m.Delete(k)
		sym.Assert(ok == (i >= 0), "delete tells if the key was there")
		if i >= 0 {
			sym.Assert(v == r.list[i].v, "delete gives the value")
			r.cut(i)
		}
	case 4:
		v, ok := m.Peek(k)
		sym.Assert(ok == (i >= 0), "peek tells if the key is there")
		if i >= 0 {
			sym.Assert(v == r.list[i].v, "peek gives the value")
		}
		sym.Assert(m.Has(k) == (i >= 0), "has tells if the key is there")
	case 5:
		m.Init(v & 3)
		r.list = nil
	}
	sym.Assert(m.Len() == len(r.list), "length")
}

func (r *refMap) check(m *util.SeqMap[string, int]) {
	i := 0
	m.Range(func(k string, v int) bool {
		sym.Assert(i < len(r.list), "range visits no more")
		sym.Assert(sym.And(sym.EqStr(k, r.list[i].k), v == r.list[i].v), "range visits in order")
		i++
		return true
	})
	sym.Assert(i == len(r.list), "range visits every entry")
	for _, e := range r.list {
		v, ok := m.Peek(e.k)
		sym.Assert(ok && v == e.v, "every entry is found")
	}
}

// C14_ops: any sequence of operations.
func C14_ops() {
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	var m util.SeqMap[string, int]
	m.Init(0)
	r := new(refMap)
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		op := sym.IntRange("op"+s, 0, 5)
		if i == 0 {
			sym.Assume(op < 2)
		}
		r.do(&m, op, string(sym.Bytes("key"+s, 1)), i+1)
	}
	r.check(&m)
	sym.Reach("end")
}

// C14_filled: two operations on a filled map.
func C14_filled() {
	var m util.SeqMap[string, int]
	m.Init(sym.IntRange("hint", 0, 1) * 4)
	r := new(refMap)
	n := sym.IntRange("n", 0, 4)
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		m.Poke(k, i)
		r.list = append(r.list, kv{k, i})
	}
	for i := 0; i < 2+sym.Tier(); i++ {
		s := string(rune('0' + i))
		r.do(&m, sym.IntRange("op"+s, 0, 5), string(sym.Bytes("key"+s, 1)), 10+i)
	}
	r.check(&m)
	sym.Reach("end")
}

// C14_range: stopping, and changes inside of a range.
func C14_range() {
	var m util.SeqMap[string, int]
	m.Init(0)
	r := new(refMap)
	n := 3
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		m.Poke(k, i)
		r.list = append(r.list, kv{k, i})
	}
	was := append([]kv{}, r.list...)
	stop := sym.IntRange("stop", 0, n) // entry to stop at
	at := sym.IntRange("at", 0, n-1)   // entry to make changes at
	op := sym.IntRange("op", 0, 5)
	k := string(sym.Bytes("key", 1))
	i := 0
	m.Range(func(key string, v int) bool {
		sym.Assert(i < len(was), "range visits no more")
		sym.Assert(key == was[i].k && v == was[i].v, "changes do not disturb the range")
		if i == at {
			r.do(&m, op, k, 10)
			r.do(&m, 0, "new", 11)
		}
		i++
		return i-1 != stop
	})
	want := n
	if stop < n {
		want = stop + 1
	}
	sym.Assert(i == want, "range stops when told")
	r.check(&m)
	sym.Reach("end")
}
