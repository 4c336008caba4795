// replay runs harnesses natively on recorded inputs.
//
//	replay CASES.json      runs every case and prints one JSON result per line
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"

	"verif/h/cmds"
	"verif/h/core"
	"verif/h/lua"
	"verif/h/par"
	"verif/sym"
)

type kase struct {
	Harness string               `json:"harness"`
	Tier    int                  `json:"tier"`
	Inputs  map[string]sym.Input `json:"inputs"`
}

type result struct {
	Violations []string `json:"violations,omitempty"`
	Panic      string   `json:"panic,omitempty"`
	Observed   []string `json:"observed,omitempty"`
	AssumeFail bool     `json:"assume_fail,omitempty"`
	Missing    []string `json:"missing,omitempty"`
	Alloc      uint64   `json:"alloc,omitempty"`
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cs []kase
	if err := json.Unmarshal(b, &cs); err != nil {
		// a single case
		var c kase
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		cs = []kase{c}
	}
	out := json.NewEncoder(os.Stdout)
	for _, c := range cs {
		f := core.Fns[c.Harness]
		if f == nil {
			f = lua.Fns[c.Harness]
		}
		if f == nil {
			f = cmds.Fns[c.Harness]
		}
		if f == nil {
			f = par.Fns[c.Harness]
		}
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", c.Harness)
			os.Exit(3)
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		r, p := sym.Run(c.Inputs, c.Tier, f)
		runtime.ReadMemStats(&m1)
		res := result{Violations: r.Violations, Observed: r.Observed, AssumeFail: r.AssumeFail, Missing: r.Missing, Alloc: m1.TotalAlloc - m0.TotalAlloc}
		if p != nil {
			res.Panic = fmt.Sprint(p)
			if e, ok := p.(error); ok {
				res.Panic = e.Error()
			}
			if res.Panic == "" {
				res.Panic = "?"
			}
		}
		out.Encode(res)
	}
}
