package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif.local/mc/conc"
	"verif.local/mc/conc/plan"
	"verif.local/mc/ex"
	"verif.local/mc/instr"
)

// The exploration of interleavings for C11: the packages are instrumented and
// built with an overlay, then explored by one process per shard.

type schedPhase struct {
	name, rule string
	cfg        plan.Config
	share      float64 // of the time left
}

func schedPhases(thorough bool) []schedPhase {
	by := func(names ...string) (r []int) {
		for _, n := range names {
			found := false
			for i, s := range conc.Scenarios {
				if s.Name == n {
					r = append(r, i)
					found = true
				}
			}
			if !found {
				panic("ex: no scenario " + n)
			}
		}
		return r
	}
	n := len(conc.Scenarios)
	some := by("build Top $", "parse valid", "interpolate ?", "shared query ?", "functions")
	few := by("build Zip $", "parse another", "other functions", "shared query ?")
	if !thorough {
		return []schedPhase{
			{"schedules-1", fmt.Sprintf("every pair of %d scenarios, fresh and warm, all schedules with up to 1 preemption at the first and last occurrence of every statement in each goroutine", n),
				plan.Config{Threads: 2, Bound: 1, Occurrences: 1}, 0.5},
			{"schedules-2", fmt.Sprintf("every pair of %d scenarios, fresh, all schedules with up to 2 preemptions at the first and last occurrence of function entries and of statements which mention package variables or write through selectors", len(some)),
				plan.Config{Threads: 2, Bound: 2, Occurrences: 1, Coarse: true, Cold: true, Pick: some}, 0.5},
			{"schedules-3-threads", fmt.Sprintf("every triple of %d scenarios, fresh, in all orders, with up to 1 preemption at the same places", len(few)),
				plan.Config{Threads: 3, Bound: 1, Occurrences: 1, Coarse: true, Cold: true, Pick: few}, 0.8},
		}
	}
	return []schedPhase{
		{"schedules-1", fmt.Sprintf("every pair of %d scenarios, fresh and warm, all schedules with up to 1 preemption at any statement", n),
			plan.Config{Threads: 2, Bound: 1}, 0.5},
		{"schedules-3-threads", fmt.Sprintf("every triple of %d scenarios, fresh, in all orders, with up to 1 preemption at the first and last occurrence of function entries and of statements which mention package variables or write through selectors", len(some)),
			plan.Config{Threads: 3, Bound: 1, Occurrences: 1, Coarse: true, Cold: true, Pick: some}, 0.3},
		{"schedules-2", fmt.Sprintf("every pair of %d scenarios, fresh, all schedules with up to 2 preemptions at the same places", n),
			plan.Config{Threads: 2, Bound: 2, Occurrences: 1, Coarse: true, Cold: true}, 0.9},
	}
}

func encodeCase(c plan.Case) []int {
	r := []int{0, len(c.Scenarios)}
	if c.Warm {
		r[0] = 1
	}
	r = append(r, c.Scenarios...)
	r = append(r, c.Order...)
	for _, p := range c.Preempt {
		r = append(r, p[0], p[1])
	}
	return r
}

func decodeCase(v []int) (c plan.Case, err error) {
	if len(v) < 2 || len(v) < 2+2*v[1] {
		return c, errors.New("bad schedule")
	}
	n := v[1]
	c.Warm = v[0] == 1
	c.Scenarios = v[2 : 2+n]
	c.Order = v[2+n : 2+2*n]
	for r := v[2+2*n:]; len(r) >= 2; r = r[2:] {
		c.Preempt = append(c.Preempt, [2]int{r[0], r[1]})
	}
	return c, nil
}

func describeCase(c plan.Case) string {
	var s []string
	for k, i := range c.Scenarios {
		s = append(s, fmt.Sprintf("goroutine %d: %s", k, conc.Scenarios[i].Name))
	}
	d := strings.Join(s, "; ")
	if c.Warm {
		d += "; after all of them ran once"
	}
	d += fmt.Sprintf("; started in the order %v", c.Order)
	for _, p := range c.Preempt {
		d += fmt.Sprintf(", at point %d goroutine %d goes on", p[0], p[1])
	}
	return d
}

func src() string {
	if d := os.Getenv("VERIF_SRC"); d != "" {
		return d
	}
	return "/verif"
}

func repo() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// buildSched builds the instrumented explorer.
func buildSched(dir string) (bin string, info *instr.Info, err error) {
	info, err = instr.Generate(repo(), filepath.Join(dir, "overlay"))
	if err != nil {
		return "", nil, fmt.Errorf("instrumenting: %w", err)
	}
	if len(info.Unsupported) > 0 {
		return "", info, fmt.Errorf("not controlled by the scheduler: %s", strings.Join(info.Unsupported, "; "))
	}
	bin = filepath.Join(dir, "c11")
	cmd := exec.Command("go", "build", "-tags", "verifsched", "-overlay", info.Overlay, "-o", bin, "./cmd/c11")
	cmd.Dir = filepath.Join(src(), "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", info, fmt.Errorf("building the instrumented packages: %w: %s", err, head(string(out), 2000))
	}
	return bin, info, nil
}

func runShard(bin string, cfg plan.Config) (*plan.Report, error) {
	b, _ := json.Marshal(cfg)
	cmd := exec.Command(bin, "explore", string(b))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	tail := &tailWriter{}
	cmd.Stderr = tail
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%w: %s", err, head(tail.String(), 3000))
	}
	var r plan.Report
	if err := json.Unmarshal(out, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func exploreSchedules(thorough bool, deadline time.Time) (results []*ex.Result) {
	dir := filepath.Join(root(), "work", fmt.Sprintf("c11-%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	defer os.RemoveAll(dir)
	raceTime := 5.0
	if thorough {
		raceTime = 40
	}
	bin, info, err := buildSched(dir)
	if err != nil {
		fmt.Fprintf(os.Stderr, "C11: interleavings are not explored: %v\n", err)
		results = append(results, &ex.Result{Family: "schedules", Rule: "interleavings of the instrumented packages", Cap: "not explored: " + err.Error()})
	} else {
		for _, p := range schedPhases(thorough) {
			left := time.Until(deadline).Seconds() - raceTime - 45
			r := explorePhase(bin, p, info, left*p.share)
			results = append(results, r)
			if len(r.Violations) > 0 {
				return results
			}
		}
	}
	return append(results, racePass(dir, raceTime))
}

func explorePhase(bin string, p schedPhase, info *instr.Info, seconds float64) *ex.Result {
	start := time.Now()
	res := &ex.Result{Family: p.name, Rule: p.rule, Classes: map[string]int64{}, Exhaustive: true}
	if seconds < 1 {
		seconds = 1
	}
	shards := runtime.NumCPU()
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < shards; i++ {
		cfg := p.cfg
		cfg.Shard, cfg.Shards, cfg.Seconds = i, shards, seconds
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, err := runShard(bin, cfg)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if strings.Contains(err.Error(), "fatal error: ") || strings.Contains(err.Error(), "stack exceeds") {
					res.Violations = append(res.Violations, ex.Violation{Family: p.name, Desc: "shard " + fmt.Sprint(cfg.Shard), Msg: "the process dies: " + err.Error()})
				}
				res.Exhaustive = false
				res.Cap = head(err.Error(), 500)
				fmt.Fprintf(os.Stderr, "C11: shard %d: %v\n", cfg.Shard, err)
				return
			}
			res.Executions += r.Executions
			res.Edges += r.Points
			res.States += r.States
			res.Classes["diverged"] += r.Diverged
			res.Classes["unstable"] += r.Unstable
			if r.MaxSwitches > res.MaxDepth {
				res.MaxDepth = r.MaxSwitches
			}
			if r.Capped {
				res.Exhaustive = false
				res.Cap = "time"
			}
			for _, v := range r.Violations {
				if len(res.Violations) < 3 {
					res.Violations = append(res.Violations, ex.Violation{Family: p.name, Choices: encodeCase(v.Case), Desc: describeCase(v.Case), Msg: v.Msg})
				}
			}
		}()
	}
	wg.Wait()
	res.Rule += fmt.Sprintf(" (%d statements of %d files instrumented, %d package variables initialized anew for each execution)", info.Points, info.Files, info.Vars)
	res.Samples = append(res.Samples, describeCase(plan.Case{Scenarios: []int{0, 1}, Order: []int{0, 1}, Preempt: [][2]int{{100, 1}}}))
	for k, n := range res.Classes {
		if n == 0 {
			delete(res.Classes, k)
		}
	}
	res.Wall = time.Since(start).Seconds()
	return res
}

func replaySchedule(family string, choices []int) int {
	dir := filepath.Join(root(), "work", fmt.Sprintf("c11-%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	if family == "race" {
		r := racePass(dir, 5)
		for _, v := range r.Violations {
			fmt.Println("VIOLATED:", v.Msg)
			return 1
		}
		fmt.Println("holds", r.Cap)
		return 0
	}
	c, err := decodeCase(choices)
	if err == nil {
		var bin string
		bin, _, err = buildSched(dir)
		if err == nil {
			fmt.Printf("case: %s\n", describeCase(c))
			var r *plan.Report
			r, err = runShard(bin, plan.Config{Case: &c, Shards: 1, Seconds: 60})
			if err == nil {
				if len(r.Violations) > 0 {
					fmt.Println("VIOLATED:", r.Violations[0].Msg)
					return 1
				}
				fmt.Println("holds")
				return 0
			}
		}
	}
	fmt.Fprintln(os.Stderr, err)
	return 2
}

// racePass runs the scenarios freely under the race detector.
func racePass(dir string, seconds float64) *ex.Result {
	start := time.Now()
	res := &ex.Result{Family: "race", Rule: "complementary, not exhaustive: all scenarios at once, running freely under the race detector, which sees the unsynchronized accesses a cooperative scheduler can't", Cap: "a complementary pass, not an exploration"}
	bin := filepath.Join(dir, "c11race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, "./cmd/c11race")
	cmd.Dir = filepath.Join(src(), "mc")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		res.Cap = "the race detector isn't available: " + head(string(out), 500)
		return res
	}
	cmd = exec.Command(bin, fmt.Sprint(seconds))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	tail := &tailWriter{}
	cmd.Stderr = tail
	out, err := cmd.Output()
	code := cmd.ProcessState.ExitCode()
	switch {
	case err == nil:
		var rounds, runs int64
		fmt.Sscanf(string(out), "OK %d %d", &rounds, &runs)
		res.ExtraTraces = runs
		res.Rule += fmt.Sprintf(" (%d executions)", runs)
	case code == 66 && strings.Contains(tail.String(), "DATA RACE"):
		res.Violations = append(res.Violations, ex.Violation{Family: "race", Desc: "all scenarios at once", Msg: head(tail.String(), 4000)})
	case code == 5:
		res.Violations = append(res.Violations, ex.Violation{Family: "race", Desc: "all scenarios at once", Msg: string(out)})
	case strings.Contains(tail.String(), "fatal error: "):
		res.Violations = append(res.Violations, ex.Violation{Family: "race", Desc: "all scenarios at once", Msg: head(tail.String(), 4000)})
	default:
		res.Cap = "failed: " + head(tail.String(), 500)
	}
	res.Wall = time.Since(start).Seconds()
	return res
}
