//go:build verifsched

// Command c11 explores the interleavings of pairs and triples of scenarios
// on the instrumented packages. It's built with the overlay of package instr.
//
//	c11 explore CONFIG   (JSON) explores a shard, prints a Report (JSON)
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sync/atomic"
	"time"

	"github.com/qjebbs/go-sqlf/v2/verifsched"
	"verif.local/mc/conc"
	"verif.local/mc/conc/plan"
)

type runner struct {
	cfg  plan.Config
	rep  plan.Report
	solo map[bool][]string // by warm
	seen map[uint64]struct{}
	at   int64
	job  int
	stop time.Time
}

func guard(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = fmt.Sprintf("panic: %v", p)
		}
	}()
	return f()
}

// fresh resets the packages and makes a world; warm: after all the scenarios of the case have run.
func fresh(warm bool, ids []int) *conc.World {
	verifsched.Reset()
	if warm {
		w := conc.NewWorld()
		for _, i := range ids {
			i := i
			guard(func() string { return conc.Scenarios[i].Do(w) })
		}
		return w
	}
	return conc.NewWorld()
}

// run executes one schedule.
func (r *runner) run(c plan.Case, rec bool) (*verifsched.Outcome, string) {
	w := fresh(c.Warm, c.Scenarios)
	n := len(c.Scenarios)
	res := make([]string, n)
	fns := make([]func(), n)
	for k, i := range c.Scenarios {
		k, i := k, i
		fns[k] = func() { res[k] = guard(func() string { return conc.Scenarios[i].Do(w) }) }
	}
	pre := make([]verifsched.Preempt, len(c.Preempt))
	for i, p := range c.Preempt {
		pre[i] = verifsched.Preempt{At: p[0], To: p[1]}
	}
	atomic.AddInt64(&r.at, 1)
	o := verifsched.Run(fns, c.Order, pre, rec)
	if o.Deadlock {
		return o, "deadlock: all goroutines block each other"
	}
	for k, i := range c.Scenarios {
		if res[k] != r.solo[c.Warm][i] {
			return o, fmt.Sprintf("goroutine %d (%s) returns %s, alone it returns %s", k, conc.Scenarios[i].Name, res[k], r.solo[c.Warm][i])
		}
	}
	return o, ""
}

func (r *runner) fail(c plan.Case, msg string) {
	// the same schedule again
	n := 0
	for i := 0; i < 4; i++ {
		if _, again := r.run(c, false); again != "" {
			n++
		}
	}
	if n < 3 {
		r.rep.Unstable++
		return
	}
	r.rep.Violations = append(r.rep.Violations, plan.Violation{Case: c, Msg: msg})
}

// explore runs the case and all cases with more preemptions, after the last one.
func (r *runner) explore(c plan.Case, left int, coarse bool) bool {
	if len(r.rep.Violations) >= 3 {
		return false
	}
	if time.Now().After(r.stop) {
		r.rep.Capped = true
		return false
	}
	o, msg := r.run(c, left > 0)
	r.rep.Executions++
	r.rep.Points += int64(o.Points)
	if o.Diverged {
		r.rep.Diverged++
	}
	if len(c.Preempt) > 0 {
		h := fnv.New64a()
		fmt.Fprint(h, c.Scenarios, c.Warm, c.Order, c.Preempt)
		r.seen[h.Sum64()] = struct{}{}
	}
	if o.Switches > r.rep.MaxSwitches {
		r.rep.MaxSwitches = o.Switches
	}
	if msg != "" {
		r.fail(c, msg)
		return !o.Deadlock
	}
	if left == 0 {
		return true
	}
	trace := append([]verifsched.Step{}, o.Trace...)
	fin := o.Finished
	// the last points of each thread at each site
	count := map[verifsched.Step]int{}
	for _, s := range trace {
		count[s]++
	}
	occ := map[verifsched.Step]int{}
	from := 1
	if n := len(c.Preempt); n > 0 {
		from = c.Preempt[n-1][0] + 1
	}
	for i := 1; i <= len(trace); i++ {
		step := trace[i-1]
		occ[step]++
		if n := occ[step]; r.cfg.Occurrences > 0 && n > r.cfg.Occurrences && n < count[step] {
			continue
		}
		if i < from || coarse && step.Site > 0 {
			continue
		}
		if len(c.Preempt) == 0 {
			// the shard is chosen by the first preemption
			r.job++
			if r.job%r.cfg.Shards != r.cfg.Shard {
				continue
			}
		}
		for t := range c.Scenarios {
			if t == int(step.Thread) || fin[t] < i {
				continue
			}
			d := c
			d.Preempt = append(append([][2]int{}, c.Preempt...), [2]int{i, t})
			if !r.explore(d, left-1, coarse) && (r.rep.Capped || len(r.rep.Violations) >= 3) {
				return false
			}
		}
	}
	return true
}

func main() {
	debug.SetGCPercent(400)
	var cfg plan.Config
	if err := json.Unmarshal([]byte(os.Args[2]), &cfg); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if p := os.Getenv("MC_PROFILE"); p != "" {
		f, _ := os.Create(p)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	r := &runner{cfg: cfg, seen: map[uint64]struct{}{}, stop: time.Now().Add(time.Duration(cfg.Seconds * float64(time.Second)))}
	emit := func() {
		r.rep.States = int64(len(r.seen))
		b, _ := json.Marshal(&r.rep)
		os.Stdout.Write(append(b, '\n'))
	}
	go func() {
		// an execution which doesn't end is blocked by something the scheduler doesn't control
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if at := atomic.LoadInt64(&r.at); at != last {
				last, since = at, time.Now()
			} else if time.Since(since) > 30*time.Second {
				fmt.Fprintln(os.Stderr, "c11: blocked")
				os.Exit(3)
			}
		}
	}()
	// what each scenario returns alone
	r.solo = map[bool][]string{}
	for _, warm := range []bool{false, true} {
		for i := range conc.Scenarios {
			w := fresh(false, nil)
			s := guard(func() string { return conc.Scenarios[i].Do(w) })
			r.solo[warm] = append(r.solo[warm], s)
		}
	}
	if cfg.Case != nil {
		_, msg := r.run(*cfg.Case, false)
		if msg != "" {
			r.rep.Violations = append(r.rep.Violations, plan.Violation{Case: *cfg.Case, Msg: msg})
		}
		r.rep.Executions = 1
		emit()
		return
	}
	pick := cfg.Pick
	if len(pick) == 0 {
		for i := range conc.Scenarios {
			pick = append(pick, i)
		}
	}
	for _, set := range plan.Sets(cfg.Threads, len(pick)) {
		s := make([]int, len(set))
		for i, k := range set {
			s[i] = pick[k]
		}
		for _, warm := range []bool{false, true} {
			if warm && cfg.Cold {
				continue
			}
			for _, ord := range plan.Orders(cfg.Threads) {
				if !r.explore(plan.Case{Scenarios: s, Warm: warm, Order: ord}, cfg.Bound, cfg.Coarse) {
					if r.rep.Capped || len(r.rep.Violations) > 0 {
						emit()
						return
					}
				}
				r.rep.Sets++
			}
		}
	}
	emit()
}
