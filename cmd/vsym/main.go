// vsym decides properties of the repository by symbolic execution.
//
//	vsym check ID [-tier quick|thorough]   runs the harnesses of a property
//	vsym run HARNESS [...]                 explores one harness and prints details
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/eng"
	"verif/reg"
	"verif/sym"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	tier     int
	seed     int
)

const repoMod = "github.com/schwarzlichtbezirk/wpk"

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vsym check ID | vsym run HARNESS")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vsym", flag.ExitOnError)
	tn := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	budget := fs.Int("budget", 0, "seconds per harness")
	nonative := fs.Bool("nonative", false, "skip native replay")
	first := fs.Bool("first", false, "stop at the first violation")
	fs.Parse(os.Args[3:])
	if *tn == "thorough" {
		tier = 1
	}
	seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	var hs []reg.H
	id := ""
	switch os.Args[1] {
	case "check":
		id = os.Args[2]
		for _, h := range reg.ByProp(id) {
			if !h.Thorough || tier == 1 {
				hs = append(hs, h)
			}
		}
	case "run":
		for _, h := range reg.All {
			for _, pat := range strings.Split(os.Args[2], ",") {
				if ok, _ := filepath.Match(pat, h.Name); ok {
					hs = append(hs, h)
					id = h.Prop
				}
			}
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "nothing to run for", os.Args[2])
		os.Exit(2)
	}
	os.Exit(run(id, hs, *workers, *budget, *nonative, *first, os.Args[1] == "check"))
}

type outcome struct {
	h         reg.H
	ex        *eng.Explorer
	confirmed []*eng.Violation
	known     []string
	unconf    []string
	validated int
	mismatch  []string
	unreached []string
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

func run(id string, hs []reg.H, workers, budget int, nonative, first, check bool) int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "vsym-run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0o755)
	tools, par := false, false
	for _, h := range hs {
		par = par || h.Pkg == "par"
		tools = tools || h.Pkg == "cmds"
	}
	// build the native replayer from the current tree while loading
	built := make(chan error, 1)
	replayer := filepath.Join(scratch, "replay")
	go func() {
		if nonative {
			built <- nil
			return
		}
		args := []string{"build", "-o", replayer}
		if par {
			o, err := overlay(scratch)
			if err != nil {
				built <- err
				return
			}
			args = append(args, "-overlay", o)
		}
		cmd := exec.Command("go", append(args, "./cmd/replay")...)
		cmd.Dir, cmd.Env = verifDir, goEnv()
		out, err := cmd.CombinedOutput()
		if err == nil && tools {
			cmd = exec.Command("go", "build", "-o", filepath.Join(scratch, "bin")+"/", "./cmd/...")
			cmd.Dir, cmd.Env = repoDir, goEnv()
			out, err = cmd.CombinedOutput()
		}
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		built <- err
	}()
	pkgset := map[string]bool{}
	for _, h := range hs {
		pkgset["verif/h/"+h.Pkg] = true
	}
	pats := []string{"verif/models/..."}
	if tools {
		pats = append(pats, repoMod+"/cmd/...")
	}
	for p := range pkgset {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	prog, err := eng.Load(verifDir, pats, goEnv())
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsym:", err)
		return 2
	}
	prog.RepoDir = repoDir
	prog.Eager(repoMod)
	loadT := time.Since(t0)
	if err := <-built; err != nil {
		fmt.Fprintln(os.Stderr, "vsym: cannot build the harnesses:", err)
		return 2
	}
	known := loadKnown()
	var outs []*outcome
	end := t0.Add(700 * time.Second)
	var skipped []string
	for _, h := range hs {
		left := time.Until(end)
		if tier == 0 && check && left < 5*time.Second {
			skipped = append(skipped, h.Name+": no time left")
			continue
		}
		if n := len(outs); (check || first) && n > 0 && len(outs[n-1].confirmed) > 0 {
			// the verdict is known
			skipped = append(skipped, h.Name+": after a violation")
			continue
		}
		opt := eng.Options{Workers: workers, Tier: tier, Timeout: 240 * time.Second, SolverMS: 20000,
			AfterViol: 45 * time.Second, MaxSteps: 20000000, AllocLimit: 1 << 20, Samples: 200, MaxViol: 40}
		if tier == 1 {
			opt.Timeout = 600 * time.Second
			opt.SolverMS = 60000
			opt.MaxSteps *= 4
			opt.Samples = 600
			if h.ThoroughS > 0 {
				opt.Timeout = time.Duration(h.ThoroughS) * time.Second
			}
		} else if h.QuickS > 0 {
			opt.Timeout = time.Duration(h.QuickS) * time.Second
		}
		if budget > 0 {
			opt.Timeout = time.Duration(budget) * time.Second
		}
		if tier == 0 && check && opt.Timeout > left {
			opt.Timeout = left
		}
		if h.SolverMS > 0 {
			opt.SolverMS = h.SolverMS
		}
		if h.MaxSteps > 0 {
			opt.MaxSteps = h.MaxSteps
		}
		if h.Alloc > 0 {
			opt.AllocLimit = h.Alloc
		}
		ex, err := prog.Explore("verif/h/"+h.Pkg, h.Name, opt)
		if err != nil {
			fmt.Fprintln(os.Stderr, "vsym:", err)
			return 2
		}
		o := &outcome{h: h, ex: ex}
		for _, l := range h.Reach {
			if ex.Reached[l] == 0 {
				o.unreached = append(o.unreached, l)
			}
		}
		if !nonative {
			o.native(replayer, scratch, known, id)
		} else {
			for _, v := range ex.Violations {
				o.unconf = append(o.unconf, v.Kind+": "+v.Msg+" at "+v.Where)
			}
		}
		outs = append(outs, o)
		o.print(!check)
		if f, err := os.OpenFile(os.Getenv("VSYM_FUNCS"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
			for fn := range ex.RepoFns {
				fmt.Fprintf(f, "%s\t%.1f\t%s\n", h.Name, ex.Wall.Seconds(), fn)
			}
			f.Close()
		}
	}
	wall := time.Since(t0)
	rc := report(id, outs, skipped, loadT, wall, check)
	return rc
}

func (o *outcome) print(verbose bool) {
	ex := o.ex
	fmt.Printf("%-28s paths %d pruned %d, instr %d, queries %d (sat %d unsat %d unknown %d), obligations %d+%d, solver %.1fs, wall %.1fs, replayed %d\n",
		o.h.Name, ex.Paths, ex.Pruned, ex.Steps, ex.Queries, ex.SatN, ex.UnsatN, ex.UnknownN, ex.Asserts, ex.AssertTriv, ex.SolverTime.Seconds(), ex.Wall.Seconds(), o.validated)
	var ks []string
	for k, n := range ex.Incomplete {
		ks = append(ks, fmt.Sprintf("  inconclusive: %s (%d)", k, n))
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i < 8 || verbose {
			fmt.Println(k)
		}
	}
	for _, l := range o.unreached {
		fmt.Println("  never reached:", l)
	}
	for i, l := range o.mismatch {
		if i < 5 {
			fmt.Println("  replay mismatch:", l)
		}
	}
	if len(o.mismatch) > 5 {
		fmt.Printf("  %d replay mismatches\n", len(o.mismatch))
	}
	for i, l := range o.unconf {
		if i < 12 {
			fmt.Println("  unconfirmed:", l)
		}
	}
	if verbose {
		for _, v := range o.confirmed {
			b, _ := json.Marshal(v.Inputs)
			fmt.Printf("  CONFIRMED %s: %s at %s\n    %.600s\n    obs %.400s\n", v.Kind, v.Msg, v.Where, b, strings.Join(v.Observed, " "))
		}
		for _, k := range o.known {
			fmt.Println("  known:", k)
		}
	}
}

type kase struct {
	Harness string               `json:"harness"`
	Tier    int                  `json:"tier"`
	Inputs  map[string]sym.Input `json:"inputs"`
}

type result struct {
	Violations []string `json:"violations,omitempty"`
	Panic      string   `json:"panic,omitempty"`
	Observed   []string `json:"observed,omitempty"`
	AssumeFail bool     `json:"assume_fail,omitempty"`
	Missing    []string `json:"missing,omitempty"`
	Alloc      uint64   `json:"alloc,omitempty"`
}

// native replays samples and counterexamples on the compiled code.
func (o *outcome) native(replayer, scratch string, known []finding, id string) {
	var cs []kase
	for _, s := range o.ex.Samples {
		cs = append(cs, kase{o.h.Name, tier, s.Inputs})
	}
	if len(cs) > 0 {
		res, err := runReplay(replayer, scratch, cs, 120)
		if err != "" {
			o.mismatch = append(o.mismatch, "samples: "+err)
		}
		for i, r := range res {
			s := o.ex.Samples[i]
			switch {
			case r.Panic != "":
				o.mismatch = append(o.mismatch, "panics natively: "+r.Panic+" "+brief(s.Inputs))
			case len(r.Violations) > 0:
				// the path may have ended at a violation that was reported for another path
				if len(o.ex.Violations) == 0 {
					o.mismatch = append(o.mismatch, "violates natively: "+r.Violations[0]+" "+brief(s.Inputs))
				}
			case r.AssumeFail:
				o.mismatch = append(o.mismatch, "assumption fails natively "+brief(s.Inputs))
			case len(r.Missing) > 0:
				o.mismatch = append(o.mismatch, "inputs missing: "+strings.Join(r.Missing, ","))
			case strings.Join(r.Observed, "\n") != strings.Join(s.Observed, "\n"):
				o.mismatch = append(o.mismatch, diffObs(s.Observed, r.Observed)+" "+brief(s.Inputs))
			default:
				o.validated++
			}
		}
	}
	done := map[string]bool{}
	for _, v := range o.ex.Violations {
		key := v.Kind + v.Msg
		if done[key] {
			continue
		}
		to := 20
		if v.Kind == "nonterm" {
			to = 10
		}
		if v.Kind == "race" {
			why, ok := races(scratch, kase{o.h.Name, tier, v.Inputs})
			if !ok {
				o.unconf = append(o.unconf, v.Kind+": "+v.Msg+" at "+v.Where+": "+why+" "+brief(v.Inputs))
				continue
			}
			done[key] = true
			if f := match(known, id, o.h.Name, v); f != nil {
				o.known = append(o.known, f.What)
				continue
			}
			o.confirmed = append(o.confirmed, v)
			continue
		}
		res, e := runReplay(replayer, scratch, []kase{{o.h.Name, tier, v.Inputs}}, to)
		ok, why := false, ""
		switch {
		case len(res) == 1 && len(res[0].Missing) > 0:
			why = "inputs missing"
		case len(res) == 1 && res[0].AssumeFail:
			why = "assumption fails natively"
		case len(res) == 1 && (len(res[0].Violations) > 0 || res[0].Panic != ""):
			ok = true
			if res[0].Panic != "" && v.Kind == "assert" {
				v.Msg = v.Msg + " (natively: panic " + res[0].Panic + ")"
			}
		case len(res) == 1 && strings.Contains(v.Msg, "out of proportion") && res[0].Alloc > 1<<20:
			ok = true
		case strings.HasPrefix(e, noRights):
			why = e
		case len(res) == 0 && e != "":
			ok = true // the process died or did not end
			v.Msg += " (natively: " + e + ")"
		default:
			why = "natively fine"
		}
		if !ok {
			o.unconf = append(o.unconf, v.Kind+": "+v.Msg+" at "+v.Where+": "+why+" "+brief(v.Inputs))
			continue
		}
		done[key] = true
		if f := match(known, id, o.h.Name, v); f != nil {
			o.known = append(o.known, f.What)
			continue
		}
		o.confirmed = append(o.confirmed, v)
	}
}

func brief(in map[string]sym.Input) string {
	b, _ := json.Marshal(in)
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

func diffObs(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "executor observes more: " + a[i]
		}
		if a[i] != b[i] {
			return "executor " + a[i] + ", native " + b[i]
		}
	}
	if len(b) > len(a) {
		return "native observes more: " + b[len(a)]
	}
	return ""
}

var caseN int

const (
	nobody   = 65534
	noRights = "cannot run as an unprivileged user"
)

func runReplay(replayer, scratch string, cs []kase, secs int) ([]result, string) {
	caseN++
	f := filepath.Join(scratch, fmt.Sprintf("case%d.json", caseN))
	b, _ := json.Marshal(cs)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err.Error()
	}
	defer os.Remove(f)
	lim := "ulimit -v 6000000; "
	blocks := "100000"
	for _, c := range cs {
		for _, h := range reg.All {
			if h.Name == c.Harness && h.Far {
				blocks = "unlimited"
			}
		}
	}
	if raceRun {
		lim = "export VSYM_PAR=race GORACE=halt_on_error=1; "
	}
	cmd := exec.Command("bash", "-c", lim+"ulimit -f "+blocks+"; exec timeout -k 1 "+strconv.Itoa(secs)+" \"$0\" \"$1\"", replayer, f)
	// deep, so that few steps up stay inside, and owned by a user without rights
	work := filepath.Join(scratch, "1/2/3/4/5/6/7/8")
	cmd.Env = append(os.Environ(), "TMPDIR="+work, "VSYM_SCRATCH="+scratch, "VSYM_BIN="+filepath.Join(scratch, "bin"), "HOME="+work)
	if err := os.MkdirAll(work, 0o755); err != nil {
		return nil, err.Error()
	}
	cmd.Dir = work
	if os.Getuid() == 0 {
		if os.Chown(work, nobody, nobody) == nil {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		}
	}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil && cmd.ProcessState == nil {
		if !errors.Is(err, syscall.EPERM) {
			return nil, noRights + ": " + err.Error()
		}
		return nil, noRights
	}
	var res []result
	dec := json.NewDecoder(strings.NewReader(so.String()))
	for {
		var r result
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	if err != nil {
		msg := strings.TrimSpace(se.String())
		if i := strings.IndexByte(msg, '\n'); i > 0 && !raceRun {
			msg = msg[:i]
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 124 {
			msg = "does not end"
		}
		if msg == "" {
			msg = err.Error()
		}
		return res, msg
	}
	return res, ""
}
