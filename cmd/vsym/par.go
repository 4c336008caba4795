package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// overlay replaces package sync by vsync in the sources of the repository, so
// that a native replay follows the schedule. It gives the overlay's file.
func overlay(scratch string) (string, error) {
	rep := map[string]string{}
	err := filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); p != repoDir && (n[0] == '.' || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if s := string(b); strings.Contains(s, `"sync"`) {
			s = strings.Replace(s, `"sync"`, `sync "verif/sym/vsync"`, 1)
			q := filepath.Join(scratch, fmt.Sprintf("overlay%d.go", len(rep)))
			if err := os.WriteFile(q, []byte(s), 0o644); err != nil {
				return err
			}
			rep[p] = q
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(scratch, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

var racer struct {
	sync.Once
	path string
	err  string
}

// races runs a case over and over with the race detector.
func races(scratch string, c kase) (string, bool) {
	racer.Do(func() {
		p := filepath.Join(scratch, "racer")
		cmd := exec.Command("go", "build", "-race", "-o", p, "./cmd/replay")
		cmd.Dir, cmd.Env = verifDir, append(goEnv(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			racer.err = fmt.Sprintf("no race detector: %v %.300s", err, out)
			return
		}
		racer.path = p
	})
	if racer.err != "" {
		return racer.err, false
	}
	var cs []kase
	for i := 0; i < 300; i++ {
		cs = append(cs, c)
	}
	raceRun = true
	defer func() { raceRun = false }()
	_, e := runReplay(racer.path, scratch, cs, 40)
	if strings.Contains(e, "DATA RACE") {
		return "", true
	}
	return "no race natively " + e, false
}

// raceRun is set while cases run with the race detector.
var raceRun bool
