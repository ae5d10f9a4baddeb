// Package verifsched is a cooperative scheduler: one thread runs at a time,
// it's switched at scheduling points where the plan says so.
package verifsched

import "fmt"

// Preempt is a preemption: at the scheduling point At (counted over the whole
// execution, from 1) the thread To goes on.
type Preempt struct{ At, To int }

// Outcome is what an execution did.
type Outcome struct {
	Points   int    // scheduling points passed
	Trace    []Step // by point-1, if recorded, valid until the next Run
	Finished []int  // by thread: points passed when it ended
	Deadlock bool
	Diverged bool // the plan could not be followed
	Panics   []any
	Switches int
}

// Step is a scheduling point passed.
type Step struct {
	Site   int32 // the place in the source, negative: a coarse one
	Thread int32
}

type thread struct {
	wake    chan struct{}
	done    bool
	blocked func() bool // not nil: blocked while it returns true
}

var (
	active  bool
	points  int
	next    = -1
	plan    []Preempt
	threads []*thread
	order   []int
	cur     int
	out     *Outcome
	record  bool
	buf     []Step
	idle    chan struct{}
	resets  []func()
	// Progress is counted up at switches, for a watchdog.
	Progress int64
)

// OnReset registers a function which initializes a package anew.
func OnReset(f func()) { resets = append(resets, f) }

// Reset initializes all packages anew.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// P is a scheduling point at a place in the source, a coarse one if it's negative.
func P(site int32) {
	if active {
		point(site)
	}
}

func point(site int32) {
	points++
	if record {
		buf = append(buf, Step{site, int32(cur)})
	}
	if points == next {
		switchAt()
	}
}

func switchAt() {
	to := plan[0].To
	advance()
	if to == cur || to >= len(threads) || !runnable(to) {
		out.Diverged = true
		return
	}
	switchTo(to)
}

func advance() {
	plan = plan[1:]
	next = -1
	if len(plan) > 0 {
		next = plan[0].At
	}
}

func runnable(i int) bool {
	t := threads[i]
	if t.done {
		return false
	}
	return t.blocked == nil || !t.blocked()
}

// switchTo lets another thread run until this one is waken again.
func switchTo(i int) {
	me := threads[cur]
	out.Switches++
	Progress++
	cur = i
	threads[i].wake <- struct{}{}
	<-me.wake
}

// Block waits until cond is false, others run meanwhile.
func Block(cond func() bool) {
	if !active {
		if cond() {
			panic("verifsched: blocks forever")
		}
		return
	}
	me := threads[cur]
	for cond() {
		me.blocked = cond
		to := pick()
		if to < 0 {
			out.Deadlock = true
			active = false
			close(idle)
			select {} // abandoned
		}
		switchTo(to)
		me.blocked = nil
	}
}

func pick() int {
	for _, i := range order {
		if i != cur && runnable(i) {
			return i
		}
	}
	return -1
}

// Run runs the threads, starting in the given order, preempted as planned.
func Run(fns []func(), ord []int, pre []Preempt, rec bool) *Outcome {
	out = &Outcome{Finished: make([]int, len(fns)), Panics: make([]any, len(fns))}
	record, buf = rec, buf[:0]
	points, next, plan = 0, -1, pre
	if len(pre) > 0 {
		next = pre[0].At
	}
	order = ord
	threads = make([]*thread, len(fns))
	idle = make(chan struct{})
	for i := range fns {
		threads[i] = &thread{wake: make(chan struct{})}
	}
	for i, f := range fns {
		go func(i int, f func(), t *thread) {
			<-t.wake
			defer func() {
				out.Panics[i] = recover()
				t.done = true
				out.Finished[i] = points
				to := pick()
				if to < 0 {
					for _, x := range threads {
						if !x.done {
							out.Deadlock = true
						}
					}
					active = false
					close(idle)
					return
				}
				Progress++
				cur = to
				threads[to].wake <- struct{}{}
			}()
			f()
		}(i, f, threads[i])
	}
	cur = ord[0]
	active = true
	threads[cur].wake <- struct{}{}
	<-idle
	out.Points, out.Trace = points, buf
	if len(plan) > 0 {
		out.Diverged = true
	}
	return out
}

// Describe describes a plan.
func Describe(ord []int, pre []Preempt) string {
	s := fmt.Sprintf("threads start in order %v", ord)
	for _, p := range pre {
		s += fmt.Sprintf(", at point %d thread %d goes on", p.At, p.To)
	}
	return s
}
