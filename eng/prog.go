package eng

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code, shared by all workers.
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	replace map[string]*ssa.Function
	inits   map[*ssa.Package]bool
	mu      sync.Mutex
	funcs   map[string]bool // functions executed
	repoFns map[string]bool
	RepoDir string
	// EagerInit lists packages initialized before the first path.
	EagerInit map[string]bool
}

// Load loads packages from source and applies //sym:replace directives found in the models.
func Load(dir string, patterns []string, env []string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad = true
		}
	})
	if bad {
		return nil, fmt.Errorf("cannot load the program")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, replace: map[string]*ssa.Function{}, funcs: map[string]bool{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, "verif/models") {
			return
		}
		sp := p.pkgs[pk.PkgPath]
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					if strings.HasPrefix(cm.Text, "//sym:replace ") {
						for _, name := range strings.Fields(cm.Text)[1:] {
							p.replace[name] = sp.Func(fd.Name.Name)
						}
					}
				}
			}
		}
	})
	return p, nil
}

// Fn is a compiled function (per worker).
type Fn struct {
	name    string
	sf      *ssa.Function
	intr    func(m *Machine, args []Value) Value
	blocks  []*cblock
	nregs   int
	nfree   int
	nparams int
	defers  bool
	recover *cblock
	ready   bool
	results *types.Tuple
	isRepo  bool
	seen    bool
	quiet   bool // accesses are not traced
}

type cblock struct {
	index int
	ins   []func(fr *frame)
	phis  [][]phiEdge // per predecessor
	kind  uint8       // 0 jump 1 if 2 return 3 panic 4 unreachable
	cond  opnd
	succ  [2]*cblock
	pred  [2]int // index of this block among the successors' predecessors
	rets  []opnd
	pos   token.Pos
	merge *mergeInfo
}

type phiEdge struct {
	dst int
	src opnd
}

const (
	okReg = iota
	okConst
	okGlobal
)

type opnd struct {
	kind uint8
	idx  int
	v    Value
	g    *gref
}

type gref struct {
	o   *Object
	pkg *pkgState
}

type pkgState struct {
	sp    *ssa.Package
	state int // 0 not, 1 running, 2 done, 3 failed
	err   string
}

type frame struct {
	m         *Machine
	fn        *Fn
	regs      []Value
	defers    []deferred
	panicking bool
	pval      Value
	deferOf   *frame
	caller    *frame
	pos       token.Pos
	ret       Value
}

type deferred struct {
	call func(fr *frame)
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return o.v
	}
	if o.g.pkg.state != 2 {
		fr.m.initPkg(o.g.pkg)
	}
	return Value{P: o.g.o}
}

// fnOf gets the per-worker function for an SSA function.
func (m *Machine) fnOf(sf *ssa.Function) *Fn {
	if f, ok := m.fns[sf]; ok {
		return f
	}
	f := &Fn{sf: sf}
	f.name = fnName(sf)
	m.fns[sf] = f
	f.nparams = len(sf.Params)
	f.results = sf.Signature.Results()
	if r, ok := m.p.replace[f.name]; ok && r != sf {
		rf := m.fnOf(r)
		f.intr = func(m *Machine, args []Value) Value { return m.callFn(rf, args, nil) }
		f.ready = true
		return f
	}
	if in, ok := intrinsics[f.name]; ok {
		f.intr = in
		f.ready = true
		return f
	}
	return f
}

// fnName names a function; instantiations use the generic name.
func fnName(sf *ssa.Function) string {
	if o := sf.Origin(); o != nil {
		return o.String()
	}
	return sf.String()
}

type compiler struct {
	m    *Machine
	f    *Fn
	regs map[ssa.Value]int
	n    int
	bl   map[*ssa.BasicBlock]*cblock
}

func (m *Machine) compile(f *Fn) {
	f.ready = true
	sf := f.sf
	if sf.Pkg != nil {
		sf.Pkg.Build()
	} else if o := sf.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if len(sf.Blocks) == 0 {
		name := f.name
		f.intr = func(m *Machine, args []Value) Value {
			m.unsupported("function without body: " + name)
			return Value{}
		}
		return
	}
	if sf.Pkg != nil && strings.HasPrefix(sf.Pkg.Pkg.Path()+"/", "verif/models/") {
		f.quiet = true
	}
	if pos := m.p.prog.Fset.Position(sf.Pos()); strings.HasPrefix(pos.Filename, m.p.RepoDir+"/") {
		f.isRepo = true
	}
	c := &compiler{m: m, f: f, regs: map[ssa.Value]int{}, bl: map[*ssa.BasicBlock]*cblock{}}
	for _, p := range sf.Params {
		c.reg(p)
	}
	for _, p := range sf.FreeVars {
		c.reg(p)
	}
	f.nfree = len(sf.FreeVars)
	for _, b := range sf.Blocks {
		cb := &cblock{index: b.Index}
		c.bl[b] = cb
		f.blocks = append(f.blocks, cb)
	}
	for _, b := range sf.Blocks {
		c.block(b)
	}
	if sf.Recover != nil {
		f.recover = c.bl[sf.Recover]
	}
	c.findMerges(sf)
	f.nregs = c.n
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.n
	c.n++
	c.regs[v] = i
	return i
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{kind: okConst, v: c.m.constVal(v)}
	case *ssa.Function:
		return opnd{kind: okConst, v: Value{P: &Closure{fn: c.m.fnOf(v)}}}
	case *ssa.Builtin:
		return opnd{kind: okConst, v: Value{P: &Closure{bi: v}}}
	case *ssa.Global:
		return opnd{kind: okGlobal, g: c.m.global(v)}
	}
	return opnd{kind: okReg, idx: c.reg(v)}
}

func (m *Machine) global(g *ssa.Global) *gref {
	if r, ok := m.globals[g]; ok {
		return r
	}
	im := m.initMode
	m.initMode = true
	o := m.newObj(m.ti(g.Type().(*types.Pointer).Elem()), 1)
	m.initMode = im
	o.perm = true
	r := &gref{o: o, pkg: m.pkgState(g.Pkg)}
	m.globals[g] = r
	return r
}

func (m *Machine) pkgState(sp *ssa.Package) *pkgState {
	if s, ok := m.pkgSt[sp]; ok {
		return s
	}
	s := &pkgState{sp: sp}
	m.pkgSt[sp] = s
	return s
}

// initPkg runs the package initializer once, concretely and permanently.
func (m *Machine) initPkg(s *pkgState) {
	if s.state == 3 {
		m.unsupported("package initialization failed: " + s.sp.Pkg.Path() + ": " + s.err)
	}
	if s.state != 0 {
		return
	}
	s.state = 1
	s.sp.Build()
	im := m.initMode
	m.initMode = true
	sv, tr := m.steps, m.trace
	m.trace = nil
	defer func() {
		if s.state == 1 {
			s.state, s.err = 3, "?"
			r := recover()
			switch r := r.(type) {
			case pathEnd:
				s.err = r.msg
			case targetPanic:
				s.err = m.panicText(r.v)
			default:
				panic(r)
			}
			m.initMode = im
			m.unsupported("package initialization failed: " + s.sp.Pkg.Path() + ": " + s.err)
		}
		m.initMode, m.steps, m.trace = im, sv, tr
	}()
	if f := s.sp.Func("init"); f != nil {
		// the guard variable must be false; initializers of imports are run lazily
		m.callFn(m.fnOf(f), nil, nil)
	}
	s.state = 2
}

func (m *Machine) constVal(c *ssa.Const) Value {
	e := m.ti(c.Type())
	if c.Value == nil {
		return m.zero(e)
	}
	switch e.kind {
	case kBool:
		return Value{N: b2u(constant.BoolVal(c.Value))}
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & mask(e.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & mask(e.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if e.w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return Value{N: fbits(SF32, float64(f32))}
		}
		return Value{N: fbits(SF64, f)}
	case kString:
		var s string
		if c.Value.Kind() == constant.String {
			s = constant.StringVal(c.Value)
		} else {
			i, _ := constant.Int64Val(c.Value)
			s = string(rune(i))
		}
		im := m.initMode
		m.initMode = true
		v := m.mkStr(s)
		m.initMode = im
		return v
	case kUnsafe, kPtr:
		return Value{}
	case kComplex:
		return Value{}
	}
	panic("constVal " + c.String())
}

func (c *compiler) block(b *ssa.BasicBlock) {
	cb := c.bl[b]
	np := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			np++
		} else {
			break
		}
	}
	if np > 0 {
		cb.phis = make([][]phiEdge, len(b.Preds))
		for i := range b.Preds {
			for _, in := range b.Instrs[:np] {
				phi := in.(*ssa.Phi)
				cb.phis[i] = append(cb.phis[i], phiEdge{c.reg(phi), c.op(phi.Edges[i])})
			}
		}
	}
	for _, in := range b.Instrs[np:] {
		switch in := in.(type) {
		case *ssa.Jump:
			cb.kind = 0
			cb.succ[0] = c.bl[b.Succs[0]]
			cb.pred[0] = predIndex(b, b.Succs[0], 0)
		case *ssa.If:
			cb.kind = 1
			cb.cond = c.op(in.Cond)
			cb.succ = [2]*cblock{c.bl[b.Succs[0]], c.bl[b.Succs[1]]}
			cb.pred[0] = predIndex(b, b.Succs[0], 0)
			if b.Succs[0] == b.Succs[1] {
				cb.pred[1] = predIndex(b, b.Succs[1], 1)
			} else {
				cb.pred[1] = predIndex(b, b.Succs[1], 0)
			}
			cb.pos = in.Cond.Pos()
		case *ssa.Return:
			cb.kind = 2
			for _, r := range in.Results {
				cb.rets = append(cb.rets, c.op(r))
			}
		case *ssa.Panic:
			cb.kind = 3
			x := c.op(in.X)
			pos := in.Pos()
			cb.ins = append(cb.ins, func(fr *frame) {
				fr.pos = pos
				panic(targetPanic{fr.get(&x)})
			})
		case *ssa.DebugRef:
		default:
			if f := c.instr(in); f != nil {
				cb.ins = append(cb.ins, f)
			}
		}
	}
}

func predIndex(b, s *ssa.BasicBlock, nth int) int {
	for i, p := range s.Preds {
		if p == b {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	panic("predIndex")
}

// mergeInfo describes a branch whose sides are empty or pure and join in phis.
type mergeInfo struct {
	join   *cblock
	sides  [2]*cblock // nil: direct edge to join
	preds  [2]int     // predecessor index in join
	phis   []mergePhi
	simple bool
}

type mergePhi struct {
	dst int
	a   opnd
	b   opnd
	ti  *TI
}

// pure reports that an instruction can be executed speculatively.
func pureInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			_, ok := in.Y.(*ssa.Const)
			if !ok {
				return false
			}
			c := in.Y.(*ssa.Const)
			return c.Value != nil && constant.Sign(c.Value) > 0
		case token.EQL, token.NEQ:
			b, ok := in.X.Type().Underlying().(*types.Basic)
			return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
		}
		b, ok := in.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	case *ssa.UnOp:
		return in.Op == token.NOT || in.Op == token.SUB || in.Op == token.XOR
	case *ssa.Convert:
		a, ok1 := in.X.Type().Underlying().(*types.Basic)
		b, ok2 := in.Type().Underlying().(*types.Basic)
		return ok1 && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0
	case *ssa.DebugRef, *ssa.Jump:
		return true
	}
	return false
}

func (c *compiler) findMerges(sf *ssa.Function) {
	for _, b := range sf.Blocks {
		cb := c.bl[b]
		if cb.kind != 1 || b.Succs[0] == b.Succs[1] {
			continue
		}
		side := func(s *ssa.BasicBlock) bool {
			if len(s.Preds) != 1 || len(s.Succs) != 1 || len(s.Instrs) > 6 {
				return false
			}
			for _, in := range s.Instrs {
				if !pureInstr(in) {
					return false
				}
			}
			return true
		}
		s0, s1 := b.Succs[0], b.Succs[1]
		var join *ssa.BasicBlock
		mi := &mergeInfo{}
		switch {
		case side(s0) && s0.Succs[0] == s1:
			join = s1
			mi.sides = [2]*cblock{c.bl[s0], nil}
			mi.preds = [2]int{predIndex(s0, join, 0), predIndex(b, join, 0)}
		case side(s1) && s1.Succs[0] == s0:
			join = s0
			mi.sides = [2]*cblock{nil, c.bl[s1]}
			mi.preds = [2]int{predIndex(b, join, 0), predIndex(s1, join, 0)}
		case side(s0) && side(s1) && s0.Succs[0] == s1.Succs[0]:
			join = s0.Succs[0]
			mi.sides = [2]*cblock{c.bl[s0], c.bl[s1]}
			mi.preds = [2]int{predIndex(s0, join, 0), predIndex(s1, join, 0)}
		default:
			continue
		}
		ok := true
		for _, in := range join.Instrs {
			phi, is := in.(*ssa.Phi)
			if !is {
				break
			}
			e := c.m.ti(phi.Type())
			if e.kind != kInt && e.kind != kBool {
				// identical operands are fine
				if phi.Edges[mi.preds[0]] != phi.Edges[mi.preds[1]] {
					ok = false
					break
				}
			}
			mi.phis = append(mi.phis, mergePhi{c.reg(phi), c.op(phi.Edges[mi.preds[0]]), c.op(phi.Edges[mi.preds[1]]), e})
		}
		if !ok {
			continue
		}
		mi.join = c.bl[join]
		cb.merge = mi
	}
}

// Eager selects the packages whose initializers run before the first path.
func (p *Program) Eager(repoMod string) {
	p.EagerInit = map[string]bool{}
	for path := range p.pkgs {
		if path == repoMod || strings.HasPrefix(path, repoMod+"/") || strings.HasPrefix(path, "verif/") {
			p.EagerInit[path] = true
		}
	}
}
