package models

import "sync"

// maps made by sync.Map, in order of insertion.
type pairs struct{ k, v []any }

var syncMaps = map[*sync.Map]*pairs{}

func (p *pairs) find(k any) int {
	for i := range p.k {
		if p.k[i] == k {
			return i
		}
	}
	return -1
}

func pairsOf(m *sync.Map) *pairs {
	p := syncMaps[m]
	if p == nil {
		p = &pairs{}
		syncMaps[m] = p
	}
	return p
}

//sym:replace (*sync.Map).Load
func syncLoad(m *sync.Map, k any) (any, bool) {
	p := pairsOf(m)
	if i := p.find(k); i >= 0 {
		return p.v[i], true
	}
	return nil, false
}

//sym:replace (*sync.Map).Store
func syncStore(m *sync.Map, k, v any) {
	p := pairsOf(m)
	if i := p.find(k); i >= 0 {
		p.v[i] = v
		return
	}
	p.k, p.v = append(p.k, k), append(p.v, v)
}

//sym:replace (*sync.Map).LoadOrStore
func syncLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if x, ok := syncLoad(m, k); ok {
		return x, true
	}
	syncStore(m, k, v)
	return v, false
}

//sym:replace (*sync.Map).Delete
func syncDelete(m *sync.Map, k any) {
	p := pairsOf(m)
	if i := p.find(k); i >= 0 {
		p.k = append(append([]any{}, p.k[:i]...), p.k[i+1:]...)
		p.v = append(append([]any{}, p.v[:i]...), p.v[i+1:]...)
	}
}

//sym:replace (*sync.Map).Range
func syncRange(m *sync.Map, f func(k, v any) bool) {
	p := *pairsOf(m)
	for i := range p.k {
		if !f(p.k[i], p.v[i]) {
			return
		}
	}
}
