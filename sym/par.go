package sym

import (
	"os"
	"runtime"
	"sync"

	"verif/sym/vsync"
)

type parThread struct {
	resume    chan bool
	op        byte
	key       any
	can, come func() bool
	wait      bool
	done      bool
	pan       any
}

// Par runs the functions as threads and waits for all of them. The executor
// explores every schedule; natively the recorded one is followed, if the code
// is built with vsync, and otherwise they simply run at the same time.
func Par(fs ...func()) {
	if os.Getenv("VSYM_PAR") == "race" {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				<-start
				f()
			}()
		}
		close(start)
		runtime.Gosched()
		wg.Wait()
		return
	}
	yield := make(chan struct{})
	var ths []*parThread
	var now *parThread
	vsync.Point = func(op byte, key any, can, come func() bool) {
		t := now
		if t == nil {
			return
		}
		t.op, t.key, t.can, t.come = op, key, can, come
		yield <- struct{}{}
		if !<-t.resume {
			runtime.Goexit()
		}
		t.can, t.come, t.wait = nil, nil, false
	}
	for _, f := range fs {
		t := &parThread{resume: make(chan bool)}
		ths = append(ths, t)
		go func() {
			defer func() {
				t.pan = recover()
				t.done = true
				yield <- struct{}{}
			}()
			if !<-t.resume {
				runtime.Goexit()
			}
			f()
		}()
	}
	stop := func() {
		now, vsync.Point = nil, nil
		// the others stay where they are: the locks are left behind
	}
	enabled := func(t *parThread) bool {
		if t.can == nil {
			return true
		}
		if !t.can() {
			return false
		}
		if t.op == 'R' {
			for _, u := range ths {
				if u.wait && u.key == t.key {
					return false
				}
			}
		}
		return true
	}
	run := func(t *parThread) {
		now = t
		t.resume <- true
		<-yield
		now = nil
		if t.done && t.pan != nil {
			stop()
			panic(t.pan)
		}
	}
	for _, t := range ths {
		run(t)
	}
	for {
		var can []*parThread
		left := false
		for _, t := range ths {
			if t.done {
				continue
			}
			left = true
			if enabled(t) || t.come != nil && !t.wait && t.come() {
				can = append(can, t)
			}
		}
		if !left {
			break
		}
		if len(can) == 0 {
			stop()
			panic("deadlock")
		}
		k := 0
		if len(can) > 1 {
			k = int(cur.get("sched").V)
			if k >= len(can) {
				stop()
				cur.AssumeFail = true
				panic(stopAt)
			}
		}
		if t := can[k]; enabled(t) {
			run(t)
		} else {
			t.wait = true
		}
	}
	stop()
}

var stopAt = stop{"schedule"}
