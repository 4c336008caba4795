package eng

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
	"verif/sym"
)

// decision is one resolved choice of a path.
type decision struct {
	kind   uint8 // 0 branch, 1 value, 2 assert
	taken  bool
	forced bool
	val    uint64
}

type item struct {
	prefix []decision
	model  *Model
}

// Violation is a candidate counterexample.
type Violation struct {
	Kind     string               `json:"kind"` // assert, panic, fault, nonterm
	Msg      string               `json:"msg"`
	Where    string               `json:"where,omitempty"`
	Harness  string               `json:"harness"`
	Inputs   map[string]sym.Input `json:"inputs"`
	Observed []string             `json:"observed,omitempty"`
}

// Sample is a completed path with a model, for native validation.
type Sample struct {
	Inputs   map[string]sym.Input `json:"inputs"`
	Observed []string             `json:"observed"`
}

// Options bound one exploration.
type Options struct {
	Workers    int
	Tier       int
	MaxPaths   int64
	Timeout    time.Duration
	SolverMS   int
	MaxSteps   int64
	AllocLimit uint64
	Samples    int
	MaxViol    int
	AfterViol  time.Duration // time left after the first counterexample
}

// Explorer explores all paths of a harness.
type Explorer struct {
	p    *Program
	fn   *ssa.Function
	opt  Options
	Name string

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []item
	active  int
	stop    bool
	stopMsg string

	Paths      int64
	Pruned     int64 // infeasible by assumption
	Steps      int64
	Decisions  int64
	Asserts    int64 // assertions decided by the solver
	AssertTriv int64 // assertions decided by simplification
	Incomplete map[string]int
	Violations []*Violation
	violKeys   map[string]int
	Samples    []*Sample
	Reached    map[string]int64
	Fns        map[string]bool
	RepoFns    map[string]bool
	Queries    int
	SatN       int
	UnsatN     int
	UnknownN   int
	Fallback   int
	CrossN     int
	CrossBad   int
	SolverTime time.Duration
	Wall       time.Duration
	MaxQueue   int
	deadline   time.Time
	stopped    atomic.Bool
}

func (ex *Explorer) noteFn(f *Fn) {
	ex.mu.Lock()
	ex.Fns[f.name] = true
	if f.isRepo {
		ex.RepoFns[f.name] = true
	}
	ex.mu.Unlock()
}

func (ex *Explorer) incomplete(msg string) {
	ex.mu.Lock()
	ex.Incomplete[msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	if len(ex.queue) > ex.MaxQueue {
		ex.MaxQueue = len(ex.queue)
	}
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return item{}, false
		}
		if n := len(ex.queue); n > 0 {
			it := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) halt(msg string) {
	ex.mu.Lock()
	if !ex.stop {
		ex.stop = true
		ex.stopMsg = msg
	}
	ex.mu.Unlock()
	ex.stopped.Store(true)
	ex.cond.Broadcast()
}

// Explore runs the harness function named pkg.fn.
func (p *Program) Explore(pkg, fn string, opt Options) (*Explorer, error) {
	sp := p.pkgs[pkg]
	if sp == nil || sp.Func(fn) == nil {
		return nil, fmt.Errorf("no harness %s.%s", pkg, fn)
	}
	ex := &Explorer{p: p, fn: sp.Func(fn), opt: opt, Name: fn,
		Incomplete: map[string]int{}, violKeys: map[string]int{}, Reached: map[string]int64{},
		Fns: map[string]bool{}, RepoFns: map[string]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []item{{model: &Model{V: map[string]uint64{}}}}
	ex.deadline = time.Now().Add(opt.Timeout)
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := p.newMachine(ex)
			defer m.close()
			m.work()
		}()
	}
	tm := time.AfterFunc(opt.Timeout, func() { ex.halt("time budget") })
	wg.Wait()
	tm.Stop()
	ex.Wall = time.Since(t0)
	if ex.stop && ex.stopMsg != "" {
		ex.Incomplete["stopped: "+ex.stopMsg]++
	}
	return ex, nil
}

func (p *Program) newMachine(ex *Explorer) *Machine {
	c := NewCtx()
	m := &Machine{p: p, c: c, ex: ex}
	m.reset()
	return m
}

// reset starts from fresh per-worker tables.
func (m *Machine) reset() {
	if m.sol != nil {
		m.close()
	}
	m.c = NewCtx()
	m.sol = NewSolver(m.c, m.ex.opt.SolverMS)
	m.fns = map[*ssa.Function]*Fn{}
	m.tis = map[types.Type]*TI{}
	m.globals = map[*ssa.Global]*gref{}
	m.pkgSt = map[*ssa.Package]*pkgState{}
	m.rts = new(typeutil.Map)
	m.eager = false
	m.undo = nil
}

func (m *Machine) close() {
	ex, s := m.ex, m.sol
	ex.mu.Lock()
	ex.Queries += s.Queries
	ex.SatN += s.SatN
	ex.UnsatN += s.UnsatN
	ex.UnknownN += s.UnknownN
	ex.Fallback += s.Fallback
	ex.CrossN += s.CrossN
	ex.CrossBad += s.CrossBad
	ex.SolverTime += s.Time
	ex.mu.Unlock()
	s.Close()
}

func (m *Machine) work() {
	for {
		it, ok := m.ex.pop()
		if !ok {
			return
		}
		m.runPath(it)
		m.ex.done()
		if len(m.c.tab) > 3000000 {
			m.reset()
		}
	}
}

func (m *Machine) runPath(it item) {
	ex := m.ex
	m.prefix, m.decs, m.pc = it.prefix, m.decs[:0], m.pc[:0]
	m.known = map[*Term]bool{}
	m.names = map[string]int{}
	m.inputs, m.obs = nil, nil
	m.kconst = map[*Term]uint64{}
	m.lemmas = nil
	m.reached = nil
	m.mapPerm = false
	m.cur, m.depth, m.steps = nil, 0, 0
	m.maxSteps = ex.opt.MaxSteps
	m.allocLim, m.allocOnly = ex.opt.AllocLimit, Value{}
	m.trace, m.gor = nil, nil
	m.stepNonterm = false
	m.heldLocks = nil
	m.c.SetModel(it.model)
	var end pathEnd
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r
				case targetPanic:
					end = pathEnd{"panic", m.panicText(r.v)}
				default:
					fmt.Fprintf(os.Stderr, "engine failure at %s\n", m.where())
					panic(r)
				}
			}
		}()
		m.ensureInit(ex.fn.Pkg)
		m.callFn(m.fnOf(ex.fn), nil, nil)
		end = pathEnd{"done", ""}
	}()
	for i := len(m.undo) - 1; i >= 0; i-- {
		m.undo[i]()
	}
	m.undo = m.undo[:0]
	if m.initMode {
		// an interrupted package initialization leaves partial state behind
		m.initMode = false
		if end.kind == "done" {
			end = pathEnd{"unsupported", "init mode leaked"}
		}
	}
	if len(m.decs) < len(m.prefix) && end.kind != "unsupported" && end.kind != "dead" {
		end = pathEnd{"unsupported", "replay diverged: " + end.kind + " " + end.msg}
	}
	atomic.AddInt64(&ex.Steps, m.steps)
	atomic.AddInt64(&ex.Decisions, int64(len(m.decs)-len(m.prefix)))
	n := int64(0)
	switch end.kind {
	case "assume":
		atomic.AddInt64(&ex.Pruned, 1)
		return
	case "dead":
		return
	case "done", "exact":
		n = atomic.AddInt64(&ex.Paths, 1)
	case "panic", "fault":
		n = atomic.AddInt64(&ex.Paths, 1)
		m.violation(end.kind, end.msg, m.c.model)
	case "limit":
		n = atomic.AddInt64(&ex.Paths, 1)
		if m.stepNonterm {
			m.violation("nonterm", end.msg, m.c.model)
		} else {
			ex.incomplete("limit: " + end.msg)
		}
	case "unsupported":
		n = atomic.AddInt64(&ex.Paths, 1)
		ex.incomplete("unsupported: " + end.msg)
	}
	ex.mu.Lock()
	for k := range m.reached {
		ex.Reached[k]++
	}
	if end.kind == "done" {
		// reservoir: spread the samples over the exploration
		k := ex.opt.Samples
		if len(ex.Samples) < k {
			ex.Samples = append(ex.Samples, m.sample())
		} else if k > 0 {
			h := uint64(n) * 0x9e3779b97f4a7c15
			if h>>33%uint64(n) < uint64(k) {
				ex.Samples[int(h>>20)%k] = m.sample()
			}
		}
	}
	ex.mu.Unlock()
	if ex.opt.MaxPaths > 0 && n >= ex.opt.MaxPaths {
		ex.halt("path budget")
	}
}

func (m *Machine) panicText(v Value) string {
	if v.P == nil {
		return "panic: nil"
	}
	i := v.P.(*Iface)
	if i.rt.ti.kind == kString {
		if s, ok := m.goStr(i.v); ok {
			return "panic: " + s
		}
	}
	if i.rt.ti.kind == kPtr || i.rt.ti.agg {
		txt := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); !ok {
						if _, ok := r.(pathEnd); !ok {
							panic(r)
						}
					}
				}
			}()
			if sf := m.p.prog.LookupMethod(i.rt.t, nil, "Error"); sf != nil {
				r := m.callFn(m.fnOf(sf), []Value{i.v}, nil)
				if s, ok := m.goStr(r); ok {
					txt = s
				}
			}
		}()
		if txt != "" {
			return "panic: " + txt
		}
	}
	return "panic: " + i.rt.t.String()
}

// violation records a counterexample under model.
func (m *Machine) violation(kind, msg string, model *Model) {
	ex := m.ex
	key := kind + ":" + msg
	ex.mu.Lock()
	ex.violKeys[key]++
	n := ex.violKeys[key]
	ex.mu.Unlock()
	if n > 3 {
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Where: m.where(), Harness: ex.Name}
	save := m.c.model
	m.c.SetModel(model)
	s := m.sample()
	v.Inputs, v.Observed = s.Inputs, s.Observed
	m.c.SetModel(save)
	ex.mu.Lock()
	ex.Violations = append(ex.Violations, v)
	nv := len(ex.Violations)
	ex.mu.Unlock()
	if nv == 1 && ex.opt.AfterViol > 0 {
		time.AfterFunc(ex.opt.AfterViol, func() { ex.halt("stopped after counterexamples") })
	}
	if ex.opt.MaxViol > 0 && nv >= ex.opt.MaxViol {
		ex.halt("enough counterexamples")
	}
}

// sample evaluates inputs and observations under the current model.
func (m *Machine) sample() *Sample {
	s := &Sample{Inputs: map[string]sym.Input{}}
	for _, in := range m.inputs {
		switch in.Kind {
		case "bytes":
			b := make([]byte, in.N)
			for i, v := range in.Ts {
				b[i] = byte(m.evalV(v))
			}
			s.Inputs[in.Name] = sym.Input{B: b}
		case "lazy":
			r := sym.Input{Size: int64(m.c.Eval(in.T)), At: map[string]uint8{}}
			for k, v := range m.c.model.UF[in.Name] {
				if v != 0 {
					r.At[strconv.FormatUint(k, 10)] = uint8(v)
				}
			}
			s.Inputs[in.Name] = r
		default:
			v := m.c.Eval(in.T)
			if in.W < 64 && in.Kind == "int" {
				v = uint64(sext64(v, Sort(in.W)))
			}
			s.Inputs[in.Name] = sym.Input{V: v}
		}
	}
	for _, o := range m.obs {
		s.Observed = append(s.Observed, o.label+"="+m.obsText(o.v))
	}
	return s
}

func (m *Machine) evalV(v Value) uint64 {
	if v.P == nil {
		return v.N
	}
	return m.c.Eval(v.P.(*Term))
}

type obsRec struct {
	label string
	v     obsVal
}

type obsVal struct {
	kind string
	v    Value
	bs   []Value
	txt  string
	w    Sort
}

func (m *Machine) obsText(o obsVal) string {
	switch o.kind {
	case "txt":
		return o.txt
	case "bool":
		return strconv.FormatBool(m.evalV(o.v) != 0)
	case "int":
		return strconv.FormatInt(sext64(m.evalV(o.v), o.w), 10)
	case "uint":
		return strconv.FormatUint(m.evalV(o.v), 10)
	case "float":
		return strconv.FormatUint(m.evalV(o.v), 16)
	case "str":
		b := make([]byte, len(o.bs))
		for i, v := range o.bs {
			b[i] = byte(m.evalV(v))
		}
		return strconv.Quote(string(b))
	}
	return "?"
}

// knownVal tells whether t is already decided on this path.
func (m *Machine) knownVal(t *Term) (val, decided bool) {
	neg := false
	for t.Op == ONot {
		t, neg = t.X, !neg
	}
	if t.Op == OConst {
		return (t.C != 0) != neg, true
	}
	v, ok := m.known[t]
	return v != neg, ok
}

func (m *Machine) learn(t *Term, val bool) {
	for t.Op == ONot {
		t, val = t.X, !val
	}
	if t.Op == OConst {
		return
	}
	m.known[t] = val
	if val && t.Op == OAnd {
		m.learn(t.X, true)
		m.learn(t.Y, true)
	}
	if !val && t.Op == OOr {
		m.learn(t.X, false)
		m.learn(t.Y, false)
	}
}

func (m *Machine) lit(t *Term, val bool) *Term {
	if val {
		return t
	}
	return m.c.Not(t)
}

func (m *Machine) checkStop() {
	if m.ex.stopped.Load() {
		panic(pathEnd{"dead", ""})
	}
}

func (m *Machine) enqueue(d decision, model *Model) {
	p := make([]decision, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = d
	m.ex.push(item{p, model})
}

// check decides the path condition with one more; proven obligations about
// divisions are repeated as lemmas.
func (m *Machine) check(extra *Term, wantModel bool) (Result, *Model) {
	if len(m.lemmas) > 0 {
		return m.sol.Check(append(append([]*Term{}, m.pc...), m.lemmas...), extra, wantModel)
	}
	return m.sol.Check(m.pc, extra, wantModel)
}

// branch decides a condition, exploring the other side later.
func (m *Machine) branch(t *Term) bool {
	if v, ok := m.knownVal(t); ok {
		return v
	}
	if m.initMode {
		m.unsupported("symbolic branch during initialization")
	}
	if n := len(m.decs); n < len(m.prefix) {
		d := m.prefix[n]
		if d.kind != 0 {
			panic(pathEnd{"unsupported", "replay diverged at a branch, " + m.where()})
		}
		m.decs = append(m.decs, d)
		m.learn(t, d.taken)
		if !d.forced {
			m.pc = append(m.pc, m.lit(t, d.taken))
		}
		return d.taken
	}
	m.checkStop()
	v := m.c.Eval(t) != 0
	res, model := m.check(m.lit(t, !v), true)
	forced := false
	switch res {
	case Sat:
		m.enqueue(decision{kind: 0, taken: !v}, model)
	case Unsat:
		forced = true
	default:
		m.ex.incomplete("solver gave no answer at " + m.where())
	}
	m.decs = append(m.decs, decision{kind: 0, taken: v, forced: forced})
	m.learn(t, v)
	if !forced {
		m.pc = append(m.pc, m.lit(t, v))
	}
	return v
}

// concretize makes a scalar concrete, exploring other values later.
func (m *Machine) concretize(v Value, w Sort) uint64 {
	if v.P == nil {
		return v.N
	}
	t, ok := v.P.(*Term)
	if !ok {
		m.unsupported("concretize of a non-scalar")
	}
	if m.initMode {
		m.unsupported("symbolic value during initialization")
	}
	if c, ok := m.knownConst(t); ok {
		return c
	}
	for k := 0; ; k++ {
		if n := len(m.decs); n < len(m.prefix) {
			d := m.prefix[n]
			if d.kind != 1 {
				panic(pathEnd{"unsupported", "replay diverged at a value, " + m.where()})
			}
			m.decs = append(m.decs, d)
			eq := m.c.Eq(t, m.c.Const(t.S, d.val))
			m.learn(eq, d.taken)
			if !d.forced {
				m.pc = append(m.pc, m.lit(eq, d.taken))
			}
			if d.taken {
				m.setConst(t, d.val)
				return d.val
			}
			continue
		}
		m.checkStop()
		val := m.c.Eval(t)
		eq := m.c.Eq(t, m.c.Const(t.S, val))
		res, model := m.check(m.c.Not(eq), true)
		forced := false
		switch res {
		case Sat:
			m.enqueue(decision{kind: 1, val: val}, model)
		case Unsat:
			forced = true
		default:
			m.ex.incomplete("solver gave no answer at " + m.where())
		}
		m.decs = append(m.decs, decision{kind: 1, taken: true, val: val, forced: forced})
		m.learn(eq, true)
		if !forced {
			m.pc = append(m.pc, eq)
		}
		m.setConst(t, val)
		return val
	}
}

func (m *Machine) knownConst(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.C, true
	}
	v, ok := m.kconst[t]
	return v, ok
}

func (m *Machine) setConst(t *Term, v uint64) { m.kconst[t] = v }

// assume restricts the path.
func (m *Machine) assume(v Value) {
	if v.P == nil {
		if v.N == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	t := v.P.(*Term)
	if k, ok := m.knownVal(t); ok {
		if !k {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if len(m.decs) >= len(m.prefix) && m.c.Eval(t) == 0 {
		m.checkStop()
		res, model := m.check(t, true)
		switch res {
		case Unsat:
			panic(pathEnd{"assume", ""})
		case Unknown:
			m.ex.incomplete("solver gave no answer for an assumption at " + m.where())
			panic(pathEnd{"assume", ""})
		}
		m.c.SetModel(model)
	}
	m.pc = append(m.pc, t)
	m.learn(t, true)
}

// assert decides an obligation for every value on this path.
func (m *Machine) assert(v Value, msg string) {
	if v.P == nil {
		if v.N == 0 {
			if len(m.decs) >= len(m.prefix) {
				m.violation("assert", msg, m.c.model)
			}
			panic(pathEnd{"done", ""})
		}
		if len(m.decs) >= len(m.prefix) {
			atomic.AddInt64(&m.ex.AssertTriv, 1)
		}
		return
	}
	t := v.P.(*Term)
	if k, ok := m.knownVal(t); ok {
		if !k {
			m.violation("assert", msg, m.c.model)
			panic(pathEnd{"done", ""})
		}
		atomic.AddInt64(&m.ex.AssertTriv, 1)
		return
	}
	if n := len(m.decs); n < len(m.prefix) {
		d := m.prefix[n]
		if d.kind != 2 {
			panic(pathEnd{"unsupported", "replay diverged at an assertion, " + m.where()})
		}
		m.decs = append(m.decs, d)
		m.learn(t, true)
		if !d.forced {
			m.pc = append(m.pc, t)
		} else if t.hard && strings.HasPrefix(msg, "lemma") {
			m.lemmas = append(m.lemmas, t)
		}
		return
	}
	m.checkStop()
	atomic.AddInt64(&m.ex.Asserts, 1)
	res, model := m.check(m.c.Not(t), true)
	switch res {
	case Unsat:
		m.decs = append(m.decs, decision{kind: 2, taken: true, forced: true})
		if t.hard && strings.HasPrefix(msg, "lemma") {
			m.lemmas = append(m.lemmas, t)
		}
		m.learn(t, true)
		return
	case Unknown:
		m.ex.incomplete("solver gave no answer for the assertion: " + msg)
	case Sat:
		m.violation("assert", msg, model)
	}
	// go on with the values that satisfy it
	if m.c.Eval(t) == 0 {
		res, model := m.check(t, true)
		if res != Sat {
			panic(pathEnd{"done", ""})
		}
		m.c.SetModel(model)
	}
	m.decs = append(m.decs, decision{kind: 2, taken: true})
	m.pc = append(m.pc, t)
	m.learn(t, true)
}

// choose picks 0..n-1 through a symbolic input.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := m.input(name, "uint", 8)
	m.assume(m.tv(m.c.Cmp(OUlt, t, m.c.Const(8, uint64(n)))))
	return int(m.concretize(Value{P: t}, 8))
}

func (m *Machine) uniq(name string) string {
	n := m.names[name]
	m.names[name] = n + 1
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	return name
}

func (m *Machine) input(name, kind string, w Sort) *Term {
	if m.initMode {
		m.unsupported("symbolic input during initialization")
	}
	name = m.uniq(name)
	t := m.c.Var(name, w)
	m.inputs = append(m.inputs, inputRec{Name: name, Kind: kind, W: int(w), T: t})
	return t
}

// ensureInit initializes harness, model and repository packages up front.
func (m *Machine) ensureInit(sp *ssa.Package) {
	if m.eager {
		return
	}
	m.eager = true
	var order []string
	for path := range m.p.pkgs {
		if m.p.EagerInit[path] {
			order = append(order, path)
		}
	}
	sort.Strings(order)
	for _, path := range order {
		m.initPkg(m.pkgState(m.p.pkgs[path]))
	}
	_ = sp
}
