// Package ex is a small stateless model checker: it enumerates every
// execution of a closed, deterministic harness body by enumerating the
// answers to all the choices the body asks for (depth first, in parallel),
// and explores state spaces breadth first. It never samples.
package ex

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Family is one closed exploration: a harness body and what it ranges over.
type Family struct {
	Name string
	Rule string     // the bounded space, in words
	Body func(c *C) // one execution, all nondeterminism taken from c
	// For breadth-first exploration instead of Body: Apply replays the history
	// of operations, judges it, and returns the canonical key of the model state.
	Apply func(c *C, hist []int) (key string)
	Ops   int // number of operations of the alphabet
	Depth int // bound of the length of histories
	// Starts are the histories the search starts from (default: the empty one)
	Starts [][]int
	Serial bool // one worker only
}

// C is one execution.
type C struct {
	Thorough bool
	forced   []int
	choices  []int
	limits   []int
	w        *worker
	steps    int64 // extra model steps reported by the body
	desc     func() string
}

type failure struct{ msg string }
type skip struct{}

// N returns a choice in [0,n).
func (c *C) N(n int) int {
	if n <= 0 {
		panic("ex: choice of nothing")
	}
	i := len(c.choices)
	v := 0
	if i < len(c.forced) {
		v = c.forced[i]
		if v >= n {
			panic(fmt.Sprintf("ex: replay diverged: choice %d is %d of %d", i, v, n))
		}
	}
	c.choices = append(c.choices, v)
	c.limits = append(c.limits, n)
	return v
}

// Bool is a choice of two, false first.
func (c *C) Bool() bool { return c.N(2) == 1 }

// Pick chooses an element, the first one first.
func Pick[T any](c *C, list ...T) T { return list[c.N(len(list))] }

// Seq chooses a sequence of 0..max elements of list, shortest first.
func Seq[T any](c *C, max int, list ...T) []T {
	n := c.N(max + 1)
	r := make([]T, n)
	for i := range r {
		r[i] = list[c.N(len(list))]
	}
	return r
}

// Failf ends the execution as a violation.
func (c *C) Failf(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Skip prunes the execution (it's not counted).
func (c *C) Skip() { panic(skip{}) }

// State records the canonical form of a model state / outcome reached.
func (c *C) State(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.w.states[h.Sum64()] = struct{}{}
}

// Class counts an outcome class.
func (c *C) Class(name string) { c.w.classes[name]++ }

// Steps adds executed model steps beyond the choices made.
func (c *C) Steps(n int) { c.steps += int64(n) }

// Traces adds implementation runs compared with the model beyond the first of this execution.
func (c *C) Traces(n int) { c.w.extraTraces += int64(n) }

// Desc sets how the case is described if it fails or is taken as sample.
func (c *C) Desc(f func() string) { c.desc = f }

// Describe returns the description of the case. It never panics: the cases
// described are chosen by time and place, a flaw of a description must not
// depend on those.
func (c *C) Describe() (d string) {
	if c.desc == nil {
		return ""
	}
	defer func() {
		if e := recover(); e != nil {
			d = fmt.Sprintf("(description failed: %v)", e)
			if describeAll {
				panic(fmt.Sprintf("%v: %v\n%s", c.choices, e, debug.Stack()))
			}
		}
	}()
	return c.desc()
}

// describeAll (for development) describes each execution.
var describeAll = os.Getenv("MC_DESCRIBE") != ""

// Violation is a failed execution.
type Violation struct {
	Family  string `json:"family"`
	Choices []int  `json:"choices"`
	Desc    string `json:"case"`
	Msg     string `json:"message"`
	Reruns  string `json:"reruns,omitempty"`
}

// Result is what an exploration covered.
type Result struct {
	Family      string
	Rule        string
	Executions  int64
	Skipped     int64
	Edges       int64 // edges of the choice tree / transitions
	States      int64
	ExtraTraces int64
	MaxDepth    int
	Classes     map[string]int64
	Exhaustive  bool
	Cap         string
	Samples     []string
	Violations  []Violation
	Wall        float64
}

type worker struct {
	id          int
	states      map[uint64]struct{}
	classes     map[string]int64
	execs       int64
	skipped     int64
	edges       int64
	extraTraces int64
	maxDepth    int
	samples     []string
	started     atomic.Int64
	slot        []byte
}

type task struct {
	prefix []int
	from   int
	lim    int // exclusive bound of the choice at level len(prefix), -1 if unknown
}

// Runner explores families.
type Runner struct {
	Thorough bool
	Workers  int
	Deadline time.Time
	Journal  []byte // optional, SlotSize bytes per worker
	MaxViol  int
	OnHang   func(worker int)
	stop     atomic.Bool
	mu       sync.Mutex
	viols    []Violation
}

// SlotSize is the size of the journal of a worker.
const SlotSize = 4096

func (r *Runner) journal(w *worker, fam int, choices []int) {
	if w.slot == nil {
		return
	}
	n := len(choices)
	if n > (SlotSize-8)/2 {
		n = (SlotSize - 8) / 2
	}
	binary.LittleEndian.PutUint32(w.slot[0:], uint32(fam+1))
	binary.LittleEndian.PutUint32(w.slot[4:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(w.slot[8+2*i:], uint16(choices[i]))
	}
}

// ReadJournal decodes the journal: the cases being executed by the workers.
func ReadJournal(b []byte) (fams []int, choices [][]int) {
	for off := 0; off+SlotSize <= len(b); off += SlotSize {
		s := b[off : off+SlotSize]
		f := binary.LittleEndian.Uint32(s)
		if f == 0 {
			continue
		}
		n := int(binary.LittleEndian.Uint32(s[4:]))
		c := make([]int, n)
		for i := range c {
			c[i] = int(binary.LittleEndian.Uint16(s[8+2*i:]))
		}
		fams = append(fams, int(f)-1)
		choices = append(choices, c)
	}
	return
}

// exec runs one execution and returns it and its failure.
func (r *Runner) exec(f *Family, w *worker, forced []int) (c *C, fail string, skipped bool) {
	c = &C{forced: forced, w: w, Thorough: r.Thorough}
	w.started.Store(time.Now().UnixNano())
	defer func() {
		w.started.Store(0)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case failure:
				fail = e.msg
			case skip:
				skipped = true
			default:
				if s, ok := e.(string); ok && strings.HasPrefix(s, "ex: ") {
					panic(e)
				}
				fail = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
	}()
	f.Body(c)
	return
}

// again executes the case of the choices.
func (r *Runner) again(f *Family, w *worker, choices []int) (*C, string) {
	if f.Apply != nil {
		c, fail, _, _ := r.execKey(f, w, choices)
		return c, fail
	}
	c, fail, _ := r.exec(f, w, choices)
	return c, fail
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-sqlf") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// One executes a single case.
func (r *Runner) One(f *Family, choices []int) (desc, fail string) {
	w := r.newWorker(0)
	done := r.watch([]*worker{w})
	defer close(done)
	c, fail := r.again(f, w, choices)
	d := ""
	func() {
		defer func() { _ = recover() }()
		d = c.Describe()
	}()
	return d, fail
}

func (r *Runner) newWorker(id int) *worker {
	w := &worker{id: id, states: map[uint64]struct{}{}, classes: map[string]int64{}}
	if r.Journal != nil && (id+1)*SlotSize <= len(r.Journal) {
		w.slot = r.Journal[id*SlotSize : (id+1)*SlotSize]
	}
	return w
}

func (r *Runner) violation(f *Family, c *C, msg string) {
	d := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				d = fmt.Sprintf("(description failed: %v)", e)
			}
		}()
		d = c.Describe()
	}()
	// run it again to tell what is reproducible; informational only
	again := 0
	for i := 0; i < 5; i++ {
		_, m := r.again(f, r.newWorker(1<<20), c.choices)
		if m != "" {
			again++
		}
	}
	v := Violation{Family: f.Name, Choices: append([]int{}, c.choices...), Desc: d, Msg: msg, Reruns: fmt.Sprintf("%d of 5 re-runs in the same process failed", again)}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viols = append(r.viols, v)
	if len(r.viols) >= r.MaxViol {
		r.stop.Store(true)
	}
}

// HangLimit is how long a single execution, usually of microseconds, may take.
var HangLimit = 60 * time.Second

// HeapLimit is the limit of the heap, a run away execution is stopped there.
var HeapLimit uint64 = 12 << 30

func (r *Runner) watch(ws []*worker) chan struct{} {
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(250 * time.Millisecond)
		defer t.Stop()
		var ms runtime.MemStats
		for {
			select {
			case <-done:
				return
			case <-t.C:
			}
			now := time.Now().UnixNano()
			runtime.ReadMemStats(&ms)
			for _, w := range ws {
				s := w.started.Load()
				if s != 0 && (time.Duration(now-s) > HangLimit || ms.HeapAlloc > HeapLimit) {
					if r.OnHang != nil {
						r.OnHang(w.id)
					}
					fmt.Fprintf(os.Stderr, "mc: worker %d hangs or runs away (heap %d MB)\n", w.id, ms.HeapAlloc>>20)
					os.Exit(3)
				}
			}
		}
	}()
	return done
}

// Run explores the family.
func (r *Runner) Run(idx int, f *Family) *Result {
	start := time.Now()
	r.stop.Store(false)
	r.viols = nil
	n := r.Workers
	if f.Serial {
		n = 1
	}
	ws := make([]*worker, n)
	for i := range ws {
		ws[i] = r.newWorker(i)
	}
	done := r.watch(ws)
	res := &Result{Family: f.Name, Rule: f.Rule, Classes: map[string]int64{}}
	if f.Apply != nil {
		r.bfs(idx, f, ws, res)
	} else {
		r.dfs(idx, f, ws, res)
	}
	close(done)
	all := map[uint64]struct{}{}
	for _, w := range ws {
		res.Executions += w.execs
		res.Skipped += w.skipped
		res.Edges += w.edges
		res.ExtraTraces += w.extraTraces
		if w.maxDepth > res.MaxDepth {
			res.MaxDepth = w.maxDepth
		}
		for k := range w.states {
			all[k] = struct{}{}
		}
		for k, v := range w.classes {
			res.Classes[k] += v
		}
		res.Samples = append(res.Samples, w.samples...)
		if w.slot != nil {
			binary.LittleEndian.PutUint32(w.slot, 0)
		}
	}
	if len(res.Samples) > 4 {
		res.Samples = res.Samples[:4]
	}
	res.States = int64(len(all))
	sort.Slice(r.viols, func(i, j int) bool {
		a, b := r.viols[i], r.viols[j]
		if len(a.Choices) != len(b.Choices) {
			return len(a.Choices) < len(b.Choices)
		}
		return fmt.Sprint(a.Choices) < fmt.Sprint(b.Choices)
	})
	res.Violations = r.viols
	if len(r.viols) > 0 {
		res.Exhaustive = false
		res.Cap = "stopped at violations"
	}
	res.Wall = time.Since(start).Seconds()
	return res
}

func (w *worker) account(c *C, skipped bool, firstNew int) {
	if skipped {
		w.skipped++
	} else {
		w.execs++
		if describeAll {
			c.Describe()
		}
		// samples: at exponentially growing positions
		if w.id == 0 && len(w.samples) < 4 && (w.execs == 2 || w.execs == 50 || w.execs == 2000 || w.execs == 50000) && c.desc != nil {
			w.samples = append(w.samples, c.Describe())
		}
	}
	w.edges += int64(len(c.choices)-firstNew) + c.steps
	if len(c.choices) > w.maxDepth {
		w.maxDepth = len(c.choices)
	}
}

func (r *Runner) dfs(idx int, f *Family, ws []*worker, res *Result) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []task{{lim: -1}}
	idle := 0
	var hungry atomic.Int32
	finished := false
	var capped atomic.Bool

	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for {
				mu.Lock()
				idle++
				hungry.Store(int32(idle - len(queue)))
				for len(queue) == 0 && !finished {
					if idle == len(ws) {
						finished = true
						cond.Broadcast()
						break
					}
					cond.Wait()
				}
				if finished && len(queue) == 0 {
					mu.Unlock()
					return
				}
				t := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				idle--
				hungry.Store(int32(idle - len(queue)))
				mu.Unlock()

				base := len(t.prefix)
				forced := append([]int{}, t.prefix...)
				if t.lim >= 0 {
					forced = append(forced, t.from)
				}
				baseLim := t.lim
				firstNew := base
				iter := 0
				for {
					if r.stop.Load() {
						break
					}
					iter++
					if iter&63 == 0 && !r.Deadline.IsZero() && time.Now().After(r.Deadline) {
						capped.Store(true)
						r.stop.Store(true)
						break
					}
					r.journal(w, idx, forced)
					c, fail, skipped := r.exec(f, w, forced)
					if len(c.choices) < len(forced) && fail == "" {
						panic("ex: replay diverged: the execution is shorter than its prefix")
					}
					w.account(c, skipped, firstNew)
					if fail != "" {
						r.violation(f, c, fail)
					}
					lims := c.limits
					if baseLim >= 0 && base < len(lims) && baseLim < lims[base] {
						lims[base] = baseLim
					}
					if hungry.Load() > 0 {
						// give away the alternatives of the shallowest open level
						for l := base; l < len(lims); l++ {
							if c.choices[l]+1 < lims[l] {
								mu.Lock()
								queue = append(queue, task{prefix: append([]int{}, c.choices[:l]...), from: c.choices[l] + 1, lim: lims[l]})
								hungry.Store(int32(idle - len(queue)))
								cond.Signal()
								mu.Unlock()
								// levels up to l are exhausted for this worker
								base = l + 1
								baseLim = -1
								break
							}
						}
					}
					l := len(lims) - 1
					for l >= base && c.choices[l]+1 >= lims[l] {
						l--
					}
					if l < base {
						break
					}
					forced = append(forced[:0], c.choices[:l+1]...)
					forced[l]++
					firstNew = l
				}
			}
		}(w)
	}
	wg.Wait()
	res.Exhaustive = !r.stop.Load()
	if capped.Load() {
		res.Cap = "time limit"
	}
}

func (r *Runner) bfs(idx int, f *Family, ws []*worker, res *Result) {
	seen := map[string]struct{}{}
	frontier := f.Starts
	if frontier == nil {
		frontier = [][]int{{}}
	}
	type out struct {
		hist []int
		key  string
	}
	run := func(cands [][]int) []out {
		outs := make([]out, len(cands))
		var next atomic.Int64
		var wg sync.WaitGroup
		for _, w := range ws {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= len(cands) || r.stop.Load() {
						return
					}
					if i&63 == 0 && !r.Deadline.IsZero() && time.Now().After(r.Deadline) {
						res.Cap = "time limit"
						r.stop.Store(true)
						return
					}
					r.journal(w, idx, cands[i])
					cc, fail, skipped, key := r.execKey(f, w, cands[i])
					if len(cc.choices) > w.maxDepth {
						w.maxDepth = len(cc.choices)
					}
					if skipped {
						w.skipped++
						continue
					}
					w.execs++
					w.edges++
					if describeAll {
						cc.Describe()
					}
					if w.id == 0 && len(w.samples) < 4 && (w.execs == 2 || w.execs == 50 || w.execs == 2000 || w.execs == 50000) && cc.desc != nil {
						w.samples = append(w.samples, cc.Describe())
					}
					if fail != "" {
						r.violation(f, cc, fail)
						continue
					}
					outs[i] = out{cands[i], key}
				}
			}(w)
		}
		wg.Wait()
		return outs
	}
	level := [][]int{}
	for _, o := range run(frontier) {
		if o.key == "" {
			continue
		}
		if _, ok := seen[o.key]; !ok {
			seen[o.key] = struct{}{}
			level = append(level, o.hist)
		}
	}
	for d := 0; d < f.Depth && len(level) > 0 && !r.stop.Load(); d++ {
		cands := make([][]int, 0, len(level)*f.Ops)
		for _, h := range level {
			for op := 0; op < f.Ops; op++ {
				nh := make([]int, len(h)+1)
				copy(nh, h)
				nh[len(h)] = op
				cands = append(cands, nh)
			}
		}
		level = level[:0:0]
		for _, o := range run(cands) {
			if o.key == "" {
				continue
			}
			if _, ok := seen[o.key]; !ok {
				seen[o.key] = struct{}{}
				level = append(level, o.hist)
			}
		}
	}
	res.Exhaustive = !r.stop.Load()
}

func (r *Runner) execKey(f *Family, w *worker, hist []int) (c *C, fail string, skipped bool, key string) {
	c = &C{forced: hist, w: w, Thorough: r.Thorough}
	c.choices = append(c.choices, hist...)
	w.started.Store(time.Now().UnixNano())
	defer func() {
		w.started.Store(0)
		if e := recover(); e != nil {
			switch e := e.(type) {
			case failure:
				fail = e.msg
			case skip:
				skipped = true
			default:
				if s, ok := e.(string); ok && strings.HasPrefix(s, "ex: ") {
					panic(e)
				}
				fail = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}
	}()
	key = f.Apply(c, hist)
	c.State(key)
	return
}
