package eng

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one z3 process incrementally.
type Solver struct {
	c       *Ctx
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inp     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	declN   int
	ufDecl  map[string]bool
	gen     int64
	emitted int
	timeout int // ms
	order   *Solver

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Fallback int
	Time     time.Duration
	crossQ   int
	CrossN   int // queries cross-checked by a second solver
	CrossBad int
	DumpDir  string
	abs      bool // render wide divisions as unknowns
	ufk      map[string]*Term
}

func NewSolver(c *Ctx, timeoutMS int) *Solver {
	s := &Solver{c: c, bin: "z3-new", timeout: timeoutMS}
	s.start()
	return s
}

var solverGen int64

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	var err error
	s.inp, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err = s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", s.bin, err))
	}
	s.in = bufio.NewWriterSize(s.inp, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.declN = 0
	s.ufDecl = map[string]bool{}
	s.gen++
	s.emitted = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
}

// Order decides a script over integer moments with a process of its own; it
// gives the values of the named conditions.
func (s *Solver) Order(script string, names []string) (Result, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.order == nil {
		s.order = &Solver{bin: s.bin, timeout: s.timeout}
		s.order.start()
	}
	o := s.order
	s.Queries++
	o.in.WriteString("(reset)(set-option :produce-models true)(set-logic QF_IDL)" + script + "(check-sat)\n")
	o.in.Flush()
	switch o.readLine() {
	case "sat":
		s.SatN++
	case "unsat":
		s.UnsatN++
		return Unsat, nil
	default:
		s.UnknownN++
		o.restart()
		return Unknown, nil
	}
	o.in.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
	o.in.Flush()
	txt, ok := o.readSexp()
	if !ok {
		return Unknown, nil
	}
	vals, ok := parseValues(txt)
	if !ok || len(vals) != len(names) {
		return Unknown, nil
	}
	return Sat, vals
}

// Close ends the process.
func (s *Solver) Close() {
	if s.order != nil {
		s.order.Close()
	}
	s.inp.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// define emits definitions for t and everything under it.
func (s *Solver) define(t *Term, w io.Writer, done func(*Term) bool, declUF map[string]bool) {
	if t.Op == OConst {
		return
	}
	if done(t) {
		return
	}
	if t.Op == OVar {
		fmt.Fprintf(w, "(declare-const |v!%s!%d| %s)\n", t.Name, t.S, sortStr(t.S))
		return
	}
	if s.abs && t.hard && t.S != SBool && (t.Op == OUDiv || t.Op == OURem || t.Op == OSDiv || t.Op == OSRem) {
		fmt.Fprintf(w, "(declare-const t%d %s)\n", t.ID, sortStr(t.S))
		return
	}
	if t.Op == OUF && !declUF[t.Name] {
		declUF[t.Name] = true
		fmt.Fprintf(w, "(declare-fun |v!%s| ((_ BitVec 64)) (_ BitVec 8))\n", t.Name)
	}
	for _, x := range [3]*Term{t.X, t.Y, t.Z} {
		if x != nil {
			s.define(x, w, done, declUF)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(define-fun t%d () %s ", t.ID, sortStr(t.S))
	t.body(&b)
	b.WriteString(")\n")
	io.WriteString(w, b.String())
}

func (s *Solver) emit(t *Term) {
	s.define(t, s.in, func(t *Term) bool {
		if t.defined == s.gen {
			return true
		}
		t.defined = s.gen
		s.emitted++
		return false
	}, s.ufDecl)
}

func (s *Solver) assert(t *Term) {
	s.emit(t)
	var b strings.Builder
	b.WriteString("(push 1)(assert ")
	t.ref(&b)
	b.WriteString(")\n")
	s.in.WriteString(b.String())
	s.stack = append(s.stack, t)
}

// Check decides pc and extra (may be nil). vars returns model over these variables.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.emitted > 50000 {
		s.restart()
	}
	s.Queries++
	hard := extra != nil && extra.hard
	for _, t := range pc {
		hard = hard || t.hard
	}
	if hard {
		return s.checkHard(pc, extra)
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.assert(t)
	}
	if extra != nil {
		s.emit(extra)
		var b strings.Builder
		b.WriteString("(push 1)(assert ")
		extra.ref(&b)
		b.WriteString(")\n")
		s.in.WriteString(b.String())
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	if d := os.Getenv("VSYM_SLOW"); d != "" && time.Since(t0) > 100*time.Millisecond {
		if f, err := os.CreateTemp(d, fmt.Sprintf("s%d-*.smt2", time.Since(t0).Milliseconds())); err == nil {
			txt, _, _ := s.script(pc, extra, true)
			f.WriteString("; " + line + "\n" + txt)
			f.Close()
		}
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		fmt.Fprintf(os.Stderr, "solver said: %q\n", line)
		s.restart()
		return s.fallback(pc, extra, wantModel)
	}
	var m *Model
	if res == Sat && wantModel {
		var ok bool
		m, ok = s.getModel(pc, extra)
		if !ok {
			s.restart()
			return s.fallback(pc, extra, wantModel)
		}
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	if res == Unknown {
		return s.fallback(pc, extra, wantModel)
	}
	if res == Sat {
		s.SatN++
	} else {
		s.UnsatN++
		s.crossQ++
		if s.crossQ%997 == 1 { // sampled second-solver diff of unsat answers
			s.cross(pc, extra)
		}
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "eof: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, bool) {
	var b strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		ch, err := s.out.ReadByte()
		if err != nil {
			return "", false
		}
		if !started && (ch == ' ' || ch == '\n' || ch == '\r') {
			continue
		}
		started = true
		b.WriteByte(ch)
		if ch == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if ch == '(' {
			depth++
		}
		if ch == ')' {
			depth--
			if depth == 0 {
				return b.String(), true
			}
		}
	}
}

// collect gathers variables and uf applications below the terms.
func collect(ts []*Term) (vars, ufs []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OVar:
			vars = append(vars, t)
		case OUF:
			ufs = append(ufs, t)
		}
		walk(t.X)
		walk(t.Y)
		walk(t.Z)
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

func (s *Solver) getModel(pc []*Term, extra *Term) (*Model, bool) {
	all := pc
	if extra != nil {
		all = append(append([]*Term{}, pc...), extra)
	}
	vars, ufs := collect(all)
	m := &Model{V: map[string]uint64{}}
	if len(vars)+len(ufs) == 0 {
		return m, true
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		v.ref(&b)
		b.WriteByte(' ')
	}
	for _, u := range ufs {
		if u.X.Op != OConst && u.X.Op != OVar {
			u.X.ref(&b)
			b.WriteByte(' ')
		} else {
			u.X.ref(&b)
			b.WriteByte(' ')
		}
		u.ref(&b)
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	s.in.WriteString(b.String())
	s.in.Flush()
	txt, ok := s.readSexp()
	if !ok || strings.HasPrefix(txt, "(error") {
		fmt.Fprintf(os.Stderr, "get-value failed: %s\n", txt)
		return nil, false
	}
	vals, ok := parseValues(txt)
	if !ok || len(vals) != len(vars)+2*len(ufs) {
		fmt.Fprintf(os.Stderr, "get-value parse: %d values for %d: %.300s\n", len(vals), len(vars)+2*len(ufs), txt)
		return nil, false
	}
	for i, v := range vars {
		m.V[v.Name] = vals[i]
	}
	for i, u := range ufs {
		if m.UF == nil {
			m.UF = map[string]map[uint64]uint64{}
		}
		if m.UF[u.Name] == nil {
			m.UF[u.Name] = map[uint64]uint64{}
		}
		m.UF[u.Name][vals[len(vars)+2*i]] = vals[len(vars)+2*i+1]
	}
	return m, true
}

// parseValues extracts the values of a get-value answer in order.
func parseValues(txt string) ([]uint64, bool) {
	var vals []uint64
	i := 1 // skip outer (
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
	}
	sexp := func() string {
		skip()
		st := i
		if i < n && txt[i] == '(' {
			d := 0
			bar := false
			for i < n {
				switch txt[i] {
				case '|':
					bar = !bar
				case '(':
					if !bar {
						d++
					}
				case ')':
					if !bar {
						d--
					}
				}
				i++
				if d == 0 {
					break
				}
			}
			return txt[st:i]
		}
		if i < n && txt[i] == '|' {
			i++
			for i < n && txt[i] != '|' {
				i++
			}
			i++
			return txt[st:i]
		}
		for i < n && txt[i] != ' ' && txt[i] != ')' && txt[i] != '\n' {
			i++
		}
		return txt[st:i]
	}
	for {
		skip()
		if i >= n || txt[i] == ')' {
			return vals, true
		}
		if txt[i] != '(' {
			return nil, false
		}
		i++
		sexp()
		v := sexp()
		skip()
		if i >= n || txt[i] != ')' {
			return nil, false
		}
		i++
		switch {
		case v == "true":
			vals = append(vals, 1)
		case v == "false":
			vals = append(vals, 0)
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, false
			}
			vals = append(vals, u)
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, false
			}
			vals = append(vals, u)
		default:
			return nil, false
		}
	}
}

// script renders a standalone problem.
func (s *Solver) script(pc []*Term, extra *Term, model bool) (string, []*Term, []*Term) {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[*Term]bool{}
	uf := map[string]bool{}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		s.define(t, &b, func(t *Term) bool {
			if seen[t] {
				return true
			}
			seen[t] = true
			return false
		}, uf)
	}
	for _, t := range all {
		b.WriteString("(assert ")
		t.ref(&b)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	vars, ufs := collect(all)
	if model && len(vars)+len(ufs) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			v.ref(&b)
			b.WriteByte(' ')
		}
		for _, u := range ufs {
			u.X.ref(&b)
			b.WriteByte(' ')
			u.ref(&b)
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
	}
	return b.String(), vars, ufs
}

func runSolver(args []string, script string, d time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	return string(out)
}

// checkHard decides a query with wide divisions, which defeat the incremental
// solver. The path condition is satisfiable (the current model is a witness),
// so only the assertions that share inputs with the new one matter; a model of
// those is completed with the current one.
func (s *Solver) checkHard(pc []*Term, extra *Term) (Result, *Model) {
	base := s.c.model
	slice := pc
	if extra != nil && base != nil {
		slice = nil
		in := map[*Term]bool{}
		grow := func(vs, ufs []*Term) {
			for _, v := range vs {
				in[v] = true
			}
			for _, u := range ufs {
				in[s.ufKey(u.Name)] = true
			}
		}
		grow(collect([]*Term{extra}))
		type dep struct{ vs, ufs []*Term }
		deps := make([]dep, len(pc))
		for i, t := range pc {
			deps[i].vs, deps[i].ufs = collect([]*Term{t})
		}
		taken := make([]bool, len(pc))
		for again := true; again; {
			again = false
			for i := range pc {
				if taken[i] {
					continue
				}
				hit := false
				for _, v := range deps[i].vs {
					hit = hit || in[v]
				}
				for _, u := range deps[i].ufs {
					hit = hit || in[s.ufKey(u.Name)]
				}
				if hit {
					taken[i], again = true, true
					grow(deps[i].vs, deps[i].ufs)
				}
			}
		}
		for i, t := range pc {
			if taken[i] {
				slice = append(slice, t)
			}
		}
	}
	res, m := s.fallback(slice, extra, true)
	if res == Sat && m != nil && base != nil {
		full := base.clone()
		for k, v := range m.V {
			full.V[k] = v
		}
		for k, v := range m.UF {
			if full.UF == nil {
				full.UF = map[string]map[uint64]uint64{}
			}
			full.UF[k] = v
		}
		m = full
	}
	return res, m
}

func (s *Solver) ufKey(name string) *Term {
	if t := s.ufk[name]; t != nil {
		return t
	}
	if s.ufk == nil {
		s.ufk = map[string]*Term{}
	}
	t := &Term{Name: name}
	s.ufk[name] = t
	return t
}

// raceSem bounds the number of one-shot solver processes.
var raceSem = make(chan struct{}, 12)

// fallback races other solvers on a standalone copy of the query.
func (s *Solver) fallback(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	s.Fallback++
	txt, vars, ufs := s.script(pc, extra, true)
	if d := os.Getenv("VSYM_DUMP"); d != "" {
		if f, err := os.CreateTemp(d, "q*.smt2"); err == nil {
			f.WriteString(txt)
			f.Close()
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cands := [][]string{
		{"cvc5", "--lang", "smt2", "-q", "--solve-bv-as-int=sum", "-"},
		{"z3-new", "-in"},
		{"cvc5", "--lang", "smt2", "-q", "-"},
	}
	scripts := []string{txt, txt, txt}
	if hard := extra != nil && extra.hard; hard || len(pc) > 0 {
		for _, t := range pc {
			hard = hard || t.hard
		}
		if hard { // without the meaning of divisions: only unsat counts
			s.abs = true
			atxt, _, _ := s.script(pc, extra, false)
			s.abs = false
			cands = append([][]string{{"z3-new", "-in"}}, cands...)
			scripts = append([]string{"; abs\n" + atxt}, scripts...)
		}
	}
	answers := make(chan string, len(cands))
	for i, args := range cands {
		txt := scripts[i]
		go func() {
			raceSem <- struct{}{}
			defer func() { <-raceSem }()
			if ctx.Err() != nil {
				answers <- ""
				return
			}
			cmd := exec.CommandContext(ctx, args[0], args[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			if strings.HasPrefix(txt, "; abs") && !strings.HasPrefix(o, "unsat") {
				o = ""
			}
			answers <- o
		}()
	}
	for range cands {
		out := <-answers
		if strings.HasPrefix(out, "unsat") {
			s.UnsatN++
			return Unsat, nil
		}
		if strings.HasPrefix(out, "sat") {
			m := &Model{V: map[string]uint64{}}
			if len(vars)+len(ufs) > 0 {
				vals, ok := parseValues(strings.TrimSpace(out[3:]))
				if !ok || len(vals) != len(vars)+2*len(ufs) {
					continue
				}
				for i, v := range vars {
					m.V[v.Name] = vals[i]
				}
				for i, u := range ufs {
					if m.UF == nil {
						m.UF = map[string]map[uint64]uint64{}
					}
					if m.UF[u.Name] == nil {
						m.UF[u.Name] = map[uint64]uint64{}
					}
					m.UF[u.Name][vals[len(vars)+2*i]] = vals[len(vars)+2*i+1]
				}
			}
			// an answer counts only if it evaluates
			if !s.modelHolds(m, pc, extra) {
				continue
			}
			s.SatN++
			return Sat, m
		}
	}
	s.UnknownN++
	return Unknown, nil
}

// modelHolds evaluates the query under a model.
func (s *Solver) modelHolds(m *Model, pc []*Term, extra *Term) bool {
	old := s.c.model
	defer s.c.SetModel(old)
	s.c.SetModel(m)
	for _, t := range pc {
		if s.c.Eval(t) == 0 {
			return false
		}
	}
	return extra == nil || s.c.Eval(extra) != 0
}

// cross asks a second solver to confirm an unsat answer.
func (s *Solver) cross(pc []*Term, extra *Term) {
	txt, _, _ := s.script(pc, extra, false)
	out := strings.TrimSpace(runSolver([]string{"z3", "-in", "-T:5"}, txt, 8*time.Second))
	if strings.HasPrefix(out, "unsat") {
		s.CrossN++
	} else if strings.HasPrefix(out, "sat") {
		s.CrossBad++
		fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT:\n%s\n", txt)
	}
}
