// Package sym is the harness interface to the symbolic executor.
//
// Under the executor every function here that has an entry in eng/symapi.go is
// an intrinsic. Compiled natively, the functions read a recorded input
// assignment, so that a harness replays one concrete execution of the real code.
package sym

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Input is one recorded input.
type Input struct {
	V    uint64           `json:"v,omitempty"`
	B    []byte           `json:"b,omitempty"`
	At   map[string]uint8 `json:"at,omitempty"`
	Size int64            `json:"size,omitempty"`
}

type stop struct{ why string }

// Replay is the native state of one execution.
type Replay struct {
	Inputs     map[string]Input
	TierN      int
	names      map[string]int
	Observed   []string
	Violations []string
	AssumeFail bool
	Missing    []string
	root       string
}

var cur *Replay

// Run executes f natively with the given inputs.
func Run(inputs map[string]Input, tier int, f func()) (r *Replay, panicked any) {
	r = &Replay{Inputs: inputs, TierN: tier, names: map[string]int{}}
	cur = r
	defer func() {
		if r.root != "" {
			os.RemoveAll(r.root)
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); !ok {
				panicked = p
			}
		}
	}()
	f()
	return r, nil
}

func (r *Replay) get(name string) Input {
	n := r.names[name]
	r.names[name] = n + 1
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	in, ok := r.Inputs[name]
	if !ok {
		r.Missing = append(r.Missing, name)
	}
	return in
}

func Uint8(name string) uint8     { return uint8(cur.get(name).V) }
func Uint16(name string) uint16   { return uint16(cur.get(name).V) }
func Uint32(name string) uint32   { return uint32(cur.get(name).V) }
func Uint64(name string) uint64   { return cur.get(name).V }
func Int64(name string) int64     { return int64(cur.get(name).V) }
func Int(name string) int         { return int(cur.get(name).V) }
func Bool(name string) bool       { return cur.get(name).V != 0 }
func Float64(name string) float64 { return math.Float64frombits(cur.get(name).V) }

// Bytes is n arbitrary bytes with capacity n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	copy(b, cur.get(name).B)
	return b[:n:n]
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// IntRange is an integer in lo..hi; the executor explores each value separately.
func IntRange(name string, lo, hi int) int {
	v := int(cur.get(name).V)
	if v < lo || v > hi {
		panic(stop{"range"})
	}
	return v
}

// Assume restricts the execution.
func Assume(c bool) {
	if !c {
		cur.AssumeFail = true
		panic(stop{"assume"})
	}
}

// Assert states what must hold.
func Assert(c bool, msg string) {
	if !c {
		cur.Violations = append(cur.Violations, msg)
		panic(stop{"assert"})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// Reach records that a point was reached; every declared point must be.
func Reach(label string) {}

// Observe logs a value, compared between executor and native run.
func Observe(label string, v any) {
	var s string
	switch v := v.(type) {
	case nil:
		s = "nil"
	case error:
		s = "error"
	case bool:
		s = strconv.FormatBool(v)
	case int:
		s = strconv.FormatInt(int64(v), 10)
	case int64:
		s = strconv.FormatInt(v, 10)
	case uint8:
		s = strconv.FormatUint(uint64(v), 10)
	case uint16:
		s = strconv.FormatUint(uint64(v), 10)
	case uint32:
		s = strconv.FormatUint(uint64(v), 10)
	case uint64:
		s = strconv.FormatUint(v, 10)
	case float64:
		s = strconv.FormatUint(math.Float64bits(v), 16)
	case string:
		s = strconv.Quote(v)
	case []byte:
		s = strconv.Quote(string(v))
	default:
		s = fmt.Sprintf("%T", v)
	}
	cur.Observed = append(cur.Observed, label+"="+s)
}

// The connectives below do not fork the execution.

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }

// IteU64 is c ? a : b.
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares content without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqStr compares content without forking.
func EqStr(a, b string) bool { return a == b }

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return cur.TierN }

// Symbolic reports whether the executor is running the harness.
func Symbolic() bool { return false }

// MapOrder makes the executor explore every iteration order of maps.
func MapOrder(on bool) {}

// AllocOnly tells the size of the large allocation (of more than 64 Mb) that has to be done.
// The path ends at this allocation as "exact"; an allocation of another large size is a fault.
func AllocOnly(n uint64) {}

// AllocLimit sets the allocation size regarded as out of proportion.
func AllocLimit(n int) {}

// StepLimit bounds the instructions of a path; exceeding it counts as not terminating.
func StepLimit(n int) {}

// IsConst reports whether the executor knows v as a constant (natively true).
func IsConst(v uint64) bool { return true }

// Root is a scratch directory, "/r" under the executor.
func Root() string {
	if cur.root == "" {
		d, err := os.MkdirTemp("", "vsym")
		if err != nil {
			panic(err)
		}
		cur.root = d
	}
	return cur.root
}

// CallMain runs a tool of the repository and gives its exit status.
func CallMain(tool string, args ...string) int {
	if !filepath.IsAbs(tool) {
		tool = filepath.Join(os.Getenv("VSYM_BIN"), tool)
	}
	cmd := exec.Command(tool, args...)
	cmd.Dir = Root()
	cmd.WaitDelay = time.Second
	t := time.AfterFunc(10*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	err := cmd.Run()
	if cmd.ProcessState == nil {
		panic(stop{"cannot run the tool: " + err.Error()})
	}
	return cmd.ProcessState.ExitCode()
}

// CallLimited is CallMain with a limit on open files.
func CallLimited(files int, tool string, args ...string) int {
	return CallMain("/bin/sh", append([]string{"-c", "ulimit -n " + strconv.Itoa(files) + " || exit 99; exec \"$@\"", "sh", filepath.Join(os.Getenv("VSYM_BIN"), tool)}, args...)...)
}

// Held is the number of files in the scratch directory that are open or mapped.
func Held() (n int) {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, d := range ds {
		if p, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && strings.HasPrefix(p, Root()+"/") {
			n++
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, '/'); i >= 0 && strings.HasPrefix(l[i:], Root()+"/") {
			n++
		}
	}
	return
}

// Try runs f and returns the value it panicked with, or nil.
func Try(f func()) (p any) {
	defer func() {
		p = recover()
		if s, ok := p.(stop); ok {
			panic(s)
		}
	}()
	f()
	return nil
}
