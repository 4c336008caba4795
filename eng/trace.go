package eng

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// Threads. The functions given to sym.Par run as threads of the interpreted
// program. Only one of them runs at a time; it is switched before an operation
// that acquires a lock or accesses an atomic variable. Which thread goes on is
// a symbolic input, so that every schedule at this granularity is explored.
// Between such points threads do not interact unless they race, and that is
// decided for each schedule: the events of the trace get symbolic moments, and
// the solver says whether two conflicting accesses may be at the same moment.

type thread struct {
	n      int
	resume chan bool // false: give up
	op     byte      // pending operation
	o      *Object
	i      int
	wait   bool // writer that waits for readers, so new readers are blocked
	done   bool
	pan    any
	cur    *frame
	depth  int
	seg    int
}

type sched struct {
	ths   []*thread
	now   *thread
	yield chan struct{}
}

type loc struct {
	o   *Object
	off int
}

type access struct {
	th, seg int
	write   bool
}

type syncEvent struct {
	th, seg int // the event ends segment seg-1 and begins segment seg
	op      byte
	at      loc
}

type tracer struct {
	acc map[loc]map[access]string
	ev  []syncEvent
}

func (m *Machine) traceAcc(o *Object, off int, write bool) {
	s := m.gor
	if s == nil || s.now == nil || o == nil || o.ro || m.cur == nil || m.cur.fn.quiet {
		return
	}
	k := loc{o, off}
	a := access{s.now.n, s.now.seg, write}
	if _, ok := m.trace.acc[k][a]; ok {
		return
	}
	if m.trace.acc[k] == nil {
		m.trace.acc[k] = map[access]string{}
	}
	m.trace.acc[k][a] = m.short()
}

// short names the innermost functions of the repository.
func (m *Machine) short() string {
	for fr := m.cur; fr != nil; fr = fr.caller {
		if fr.fn.isRepo {
			return fr.fn.name[strings.LastIndexByte(fr.fn.name, '/')+1:]
		}
	}
	return m.cur.fn.name
}

func (m *Machine) enabled(t *thread) bool {
	if t.op == 0 || t.op == 'A' {
		return true
	}
	wr, rd := t.o.s[t.i].N, uint64(0)
	if t.op != 'L' {
		rd = t.o.s[t.i+4].N
	}
	switch t.op {
	case 'W':
		return wr == 0 && rd == 0
	case 'R':
		if wr != 0 {
			return false
		}
		for _, u := range m.gor.ths {
			if u.wait && u.o == t.o && u.i == t.i {
				return false
			}
		}
		return true
	}
	return wr == 0
}

// announce tells whether the writer can come to wait for readers now.
func (m *Machine) announce(t *thread) bool {
	return t.op == 'W' && !t.wait && t.o.s[t.i].N == 0 && t.o.s[t.i+4].N != 0
}

func (m *Machine) rawSlot(o *Object, i int, n uint64) {
	tr := m.trace
	m.trace = nil
	m.setSlot(o, i, Value{N: n})
	m.trace = tr
}

// syncPoint switches threads before an acquiring operation.
func (m *Machine) syncPoint(o *Object, i int, op byte) {
	s := m.gor
	t := s.now
	if t == nil {
		return
	}
	switch op {
	case 'L', 'W', 'R', 'A':
		t.op, t.o, t.i = op, o, i
		t.cur, t.depth = m.cur, m.depth
		s.yield <- struct{}{}
		if !<-t.resume {
			panic(pathEnd{"dead", ""})
		}
		m.cur, m.depth = t.cur, t.depth
		t.op, t.wait = 0, false
	}
	t.seg++
	m.trace.ev = append(m.trace.ev, syncEvent{t.n, t.seg, op, loc{o, i}})
}

// traceLock is a lock operation of a thread.
func (m *Machine) traceLock(o *Object, i int, op byte) {
	m.syncPoint(o, i, op)
	get := func(k int) uint64 { return o.s[i+k].N }
	switch op {
	case 'L', 'W':
		m.rawSlot(o, i, 1)
	case 'U', 'X':
		if get(0) == 0 {
			panic(pathEnd{"fault", "unlock of unlocked mutex"})
		}
		m.rawSlot(o, i, 0)
	case 'R':
		m.rawSlot(o, i+4, get(4)+1)
	case 'Q':
		if get(4) == 0 {
			panic(pathEnd{"fault", "RUnlock of unlocked RWMutex"})
		}
		m.rawSlot(o, i+4, get(4)-1)
	}
}

// par runs functions as threads.
func (m *Machine) par(fs []Value) {
	if m.gor != nil {
		m.unsupported("nested threads")
	}
	s := &sched{yield: make(chan struct{})}
	m.gor, m.trace = s, &tracer{acc: map[loc]map[access]string{}}
	cur, depth := m.cur, m.depth
	for n, f := range fs {
		t := &thread{n: n, resume: make(chan bool), cur: cur, depth: depth}
		s.ths = append(s.ths, t)
		go func(f Value) {
			defer func() {
				t.pan = recover()
				t.done = true
				s.yield <- struct{}{}
			}()
			if !<-t.resume {
				panic(pathEnd{"dead", ""})
			}
			m.cur, m.depth = t.cur, t.depth
			m.callVal(f, nil, nil)
		}(f)
	}
	stop := func() {
		for _, t := range s.ths {
			if !t.done {
				t.resume <- false
				<-s.yield
			}
		}
		m.gor, m.trace = nil, nil
		m.cur, m.depth = cur, depth
	}
	run := func(t *thread) {
		s.now = t
		t.resume <- true
		<-s.yield
		s.now = nil
		m.cur, m.depth = cur, depth
		if t.done && t.pan != nil {
			pan, at := t.pan, m.cur
			stop()
			m.cur = at
			panic(pan)
		}
	}
	for _, t := range s.ths { // up to the first point of each
		run(t)
	}
	for {
		var can []*thread
		left := false
		for _, t := range s.ths {
			if t.done {
				continue
			}
			left = true
			if m.enabled(t) || m.announce(t) {
				can = append(can, t)
			}
		}
		if !left {
			break
		}
		if len(can) == 0 {
			stop()
			panic(pathEnd{"fault", "deadlock"})
		}
		k := 0
		func() {
			defer func() {
				if r := recover(); r != nil {
					stop()
					panic(r)
				}
			}()
			k = m.choose("sched", len(can))
		}()
		if t := can[k]; m.enabled(t) {
			run(t)
		} else {
			t.wait = true
		}
	}
	tr := m.trace
	stop()
	m.races(s, tr)
}

// races asks for two conflicting accesses at the same moment under the order
// of synchronization of this schedule.
func (m *Machine) races(s *sched, tr *tracer) {
	if len(m.decs) < len(m.prefix) {
		return // decided by the path that this one continues
	}
	m.checkStop()
	var q strings.Builder // the query, over integer moments
	at := func(th, seg int) string { return fmt.Sprintf("t%d_%d", th, seg) }
	before := func(x, y string) { fmt.Fprintf(&q, "(assert (< %s %s))", x, y) }
	for _, t := range s.ths {
		for g := 0; g <= t.seg+1; g++ {
			fmt.Fprintf(&q, "(declare-const %s Int)", at(t.n, g))
			if g > 0 {
				before(at(t.n, g-1), at(t.n, g))
			}
		}
	}
	// a release happens before each later acquisition that it lets in
	type point struct{ th, seg int }
	last := map[loc]point{}  // release of the writer
	rls := map[loc][]point{} // releases of readers since then
	for _, e := range tr.ev {
		p := point{e.th, e.seg}
		after := func(q point) {
			if q.th != p.th {
				before(at(q.th, q.seg), at(p.th, p.seg))
			}
		}
		switch e.op {
		case 'L', 'W', 'R', 'A':
			if q, ok := last[e.at]; ok {
				after(q)
			}
			if e.op == 'W' {
				for _, q := range rls[e.at] {
					after(q)
				}
			}
		}
		switch e.op {
		case 'U', 'X', 'A':
			last[e.at] = p
			delete(rls, e.at)
		case 'Q':
			rls[e.at] = append(rls[e.at], p)
		}
	}
	type pair struct{ a, b point }
	seen := map[pair]string{}
	var pairs []pair
	for _, m := range tr.acc {
		for x, wx := range m {
			for y, wy := range m {
				if x.th >= y.th || !x.write && !y.write {
					continue
				}
				p := pair{point{x.th, x.seg}, point{y.th, y.seg}}
				t := wx + " and " + wy
				if wx > wy {
					t = wy + " and " + wx
				}
				if old, ok := seen[p]; !ok {
					pairs = append(pairs, p)
					seen[p] = t
				} else if t < old {
					seen[p] = t
				}
			}
		}
	}
	if len(pairs) == 0 {
		atomic.AddInt64(&m.ex.AssertTriv, 1)
		return
	}
	q.WriteString("(assert (or")
	for i, p := range pairs {
		t := fmt.Sprintf("(and (< %s %s) (< %s %s))", at(p.a.th, p.a.seg), at(p.b.th, p.b.seg+1), at(p.b.th, p.b.seg), at(p.a.th, p.a.seg+1))
		fmt.Fprintf(&q, " (! %s :named p%d)", t, i)
	}
	q.WriteString("))")
	atomic.AddInt64(&m.ex.Asserts, 1)
	names := make([]string, len(pairs))
	for i := range names {
		names[i] = fmt.Sprintf("p%d", i)
	}
	res, vals := m.sol.Order(q.String(), names)
	switch res {
	case Unsat:
	case Sat:
		msg := ""
		for i, p := range pairs {
			if vals[i] != 0 && (msg == "" || seen[p] < msg) {
				msg = seen[p]
			}
		}
		m.violation("race", "data race of "+msg, m.c.model)
		panic(pathEnd{"done", ""})
	default:
		m.ex.incomplete("solver gave no answer about races")
	}
}

func (m *Machine) spawn(f func()) { m.unsupported("go statement") }
