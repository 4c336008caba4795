package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Machine is one worker's interpreter.
type Machine struct {
	p       *Program
	c       *Ctx
	sol     *Solver
	fns     map[*ssa.Function]*Fn
	tis     map[types.Type]*TI
	globals map[*ssa.Global]*gref
	pkgSt   map[*ssa.Package]*pkgState
	rts     *typeutil.Map
	nextRT  int
	nextObj int

	initMode bool
	undo     []func()
	steps    int64
	depth    int
	trace    *tracer

	// path state
	ex          *Explorer
	prefix      []decision
	decs        []decision
	pc          []*Term
	known       map[*Term]bool
	names       map[string]int
	inputs      []inputRec
	obs         []obsRec
	kconst      map[*Term]uint64
	lemmas      []*Term
	eager       bool
	stepNonterm bool
	heldLocks   []string
	reached     map[string]bool
	pathStart   int
	choices     int
	mapPerm     bool
	unwound     bool
	cur         *frame
	allocLim    uint64
	allocOnly   Value // the only size of large allocations
	maxSteps    int64
	gor         *sched
	faultMsg    string
}

type inputRec struct {
	Name string
	Kind string
	W    int
	T    *Term
	N    int
	Ts   []Value
}

type targetPanic struct{ v Value }

// pathEnd aborts a path.
type pathEnd struct {
	kind string // "assume", "unsupported", "limit", "fault", "done", "dead"
	msg  string
}

func (m *Machine) where() string {
	var b strings.Builder
	n := 0
	for fr := m.cur; fr != nil && n < 12; fr = fr.caller {
		if n > 0 {
			b.WriteString(" < ")
		}
		b.WriteString(fr.fn.name)
		if fr.pos.IsValid() {
			p := m.p.prog.Fset.Position(fr.pos)
			fmt.Fprintf(&b, "(%s:%d)", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
		}
		n++
	}
	return b.String()
}

func (m *Machine) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg + " at " + m.where()})
}

func (m *Machine) fault(msg string) {
	panic(pathEnd{"fault", msg})
}

// rtPanic raises a Go runtime panic.
func (m *Machine) rtPanic(msg string) {
	v := m.mkStr(msg)
	rt := m.rtype(m.p.pkgs["verif/models"].Type("RuntimeError").Type())
	panic(targetPanic{Value{P: &Iface{rt, v}}})
}

func (m *Machine) rtype(t types.Type) *RType {
	e := m.ti(t)
	if e.rt != nil {
		return e.rt
	}
	if r := m.rts.At(t); r != nil {
		e.rt = r.(*RType)
		return e.rt
	}
	m.nextRT++
	r := &RType{t: t, ti: e, id: m.nextRT, methods: map[string]*Fn{}, impl: map[*types.Interface]bool{}}
	m.rts.Set(t, r)
	e.rt = r
	return r
}

func (m *Machine) method(rt *RType, pkg *types.Package, name string) *Fn {
	key := name
	if !token.IsExported(name) && pkg != nil {
		key = pkg.Path() + "." + name
	}
	if f, ok := rt.methods[key]; ok {
		return f
	}
	sf := m.p.prog.LookupMethod(rt.t, pkg, name)
	if sf == nil {
		m.unsupported("no method " + name + " on " + rt.t.String())
	}
	f := m.fnOf(sf)
	rt.methods[key] = f
	return f
}

func (m *Machine) implements(rt *RType, it *types.Interface) bool {
	if r, ok := rt.impl[it]; ok {
		return r
	}
	r := types.Implements(rt.t, it)
	rt.impl[it] = r
	return r
}

// callFn runs a function.
func (m *Machine) callFn(f *Fn, args []Value, free []Value) Value {
	return m.callDef(f, args, free, nil)
}

func (m *Machine) callDef(f *Fn, args []Value, free []Value, deferOf *frame) Value {
	if !f.ready {
		m.compile(f)
	}
	if f.intr != nil {
		return f.intr(m, args)
	}
	if !f.seen {
		f.seen = true
		m.ex.noteFn(f)
	}
	m.depth++
	if m.depth > 2000 {
		m.depth = 0
		panic(pathEnd{"limit", "call depth at " + m.where()})
	}
	fr := &frame{m: m, fn: f, caller: m.cur, deferOf: deferOf}
	fr.regs = make([]Value, f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], free)
	m.cur = fr
	var ret Value
	if f.recover == nil {
		ret = m.exec(fr, f.blocks[0], -1)
	} else {
		ret = m.execDefer(fr)
	}
	m.cur = fr.caller
	m.depth--
	return ret
}
