package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native builds and runs the harnesses of one package natively.
type Native_ struct {
	set  *PkgSet
	dir  string
	bins map[string]string // "", "race", "plain"
	errs map[string]error
	mu   sync.Mutex
}

type Outcome struct {
	Status string // ok, fail, panic, deadlock, race, diverged, error
	Label  string
	Obs    []string
	Out    string
}

func newNative(set *PkgSet, dir string) *Native_ {
	return &Native_{set: set, dir: dir, bins: map[string]string{}, errs: map[string]error{}}
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

// build compiles a runner: mode "" (instrumented), "race" (instrumented, race
// detector), "plain" (untouched sources).
func (n *Native_) build(mode string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[mode]; ok {
		return b, n.errs[mode]
	}
	d := filepath.Join(n.dir, n.set.hpkg+"-"+mode)
	os.MkdirAll(d, 0o755)
	ov, err := nativeOverlay(n.set.pkgs, n.set.repo, n.set.hdir, n.set.hpkg, d, n.set.hs, mode != "plain")
	bin := filepath.Join(d, "run")
	if err == nil {
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(d, "overlay.json")
		os.WriteFile(of, b, 0o644)
		args := []string{"build", "-overlay", of, "-o", bin}
		if mode == "race" {
			args = append(args, "-race")
		}
		args = append(args, "./internal/verifrun")
		c := exec.Command("go", args...)
		c.Dir = n.set.repo
		c.Env = goEnv()
		out, e := c.CombinedOutput()
		if e != nil {
			err = fmt.Errorf("native build (%s): %v: %s", mode, e, out)
		}
	}
	n.bins[mode], n.errs[mode] = bin, err
	return bin, err
}

// run replays one recorded assignment.
func (n *Native_) run(mode string, harness string, nd []ReplayVal, sched []SchedStep, free bool) Outcome {
	bin, err := n.build(mode)
	if err != nil && mode == "" {
		bin, err = n.build("plain")
	}
	if err != nil {
		return Outcome{Status: "error", Out: err.Error()}
	}
	f, err := os.CreateTemp(n.dir, "replay-*.json")
	if err != nil {
		return Outcome{Status: "error", Out: err.Error()}
	}
	json.NewEncoder(f).Encode(map[string]any{"harness": harness, "nondets": nd, "sched": sched})
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	args := []string{f.Name()}
	if free {
		args = append(args, "free")
	}
	c := exec.CommandContext(ctx, bin, args...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	c.Dir = n.dir
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err = c.Run()
	o := Outcome{Out: tail(so.String()+se.String(), 3000)}
	for _, l := range strings.Split(so.String(), "\n") {
		if r, ok := strings.CutPrefix(l, "VOBS "); ok {
			if s, e := strconv.Unquote(r); e == nil {
				o.Obs = append(o.Obs, s)
			}
		}
		if r, ok := strings.CutPrefix(l, "VFAIL "); ok {
			o.Label = r
		}
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	switch {
	case code == 0:
		o.Status = "ok"
	case code == 10:
		o.Status = "fail"
	case code == 12:
		o.Status = "deadlock"
	case code == 13:
		o.Status = "diverged"
	case code == 66:
		o.Status = "race"
	case code == 2 && strings.Contains(se.String(), "all goroutines are asleep"):
		o.Status = "deadlock"
	case code == 2:
		o.Status = "panic"
	default:
		o.Status = "error"
	}
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// confirm replays a counterexample against the real code; it reports whether
// the violation shows up there.
func (n *Native_) confirm(v *Violation, budget time.Duration) (bool, string) {
	end := time.Now().Add(budget)
	conc := len(v.Sched) > 0
	modes := []string{""}
	if v.Kind == "race" {
		modes = []string{"race"}
	}
	var mu sync.Mutex
	ok, note := false, ""
	hits := func(o Outcome) bool {
		switch v.Kind {
		case "assert":
			return o.Status == "fail" || o.Status == "panic"
		case "panic":
			return o.Status == "panic" || o.Status == "fail"
		case "deadlock":
			return o.Status == "deadlock" || o.Status == "fail" || o.Status == "panic"
		case "race":
			return o.Status == "race" || o.Status == "fail" || o.Status == "panic"
		}
		return false
	}
	tries := 64
	if conc {
		tries = 160
	}
	hist := map[string]int{}
	for _, mode := range modes {
		if _, err := n.build(mode); err != nil && mode == "race" {
			return false, err.Error()
		}
		// first a single attempt, then in parallel
		try := func(i int) {
			free := conc && i%4 == 3
			o := n.run(mode, v.Harness, v.Nondets, v.Sched, free)
			mu.Lock()
			defer mu.Unlock()
			hist[o.Status]++
			if hits(o) && !ok {
				ok = true
				how := "recorded schedule"
				if !conc {
					how = "recorded inputs"
				}
				if free {
					how = "free schedule"
				}
				note = fmt.Sprintf("native replay (%s, attempt %d): %s\n%s", how, i+1, o.Status, o.Out)
			} else if !ok {
				note = fmt.Sprintf("%v last: %s", hist, o.Out)
			}
		}
		try(0)
		var wg sync.WaitGroup
		next := 1
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := next
					next++
					stop := ok || i >= tries || time.Now().After(end)
					mu.Unlock()
					if stop {
						return
					}
					try(i)
				}
			}()
		}
		wg.Wait()
		if ok {
			return true, note
		}
	}
	return false, note
}
