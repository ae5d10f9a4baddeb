// Command mc explores the executions of the properties of go-sqlf.
//
//	mc run ID TIER       supervise a child which explores, exit 0 or 1
//	mc child ID TIER J   explore (J: journal file)
//	mc one ID TIER FAMILY CHOICES   execute one case
//	mc replay FILE       execute the case of a replay file
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/mc/ex"
	"verif.local/mc/props"
)

func root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	log.SetOutput(io.Discard) // of builders in debug mode
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(4 << 30) // collect garbage more often from there on
	a := os.Args[1:]
	if len(a) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|child|one|replay ...")
		os.Exit(2)
	}
	switch a[0] {
	case "run":
		os.Exit(supervise(a[1], a[2]))
	case "child":
		os.Exit(child(a[1], a[2], a[3]))
	case "one":
		os.Exit(one(a[1], a[2], a[3], a[4]))
	case "replay":
		b, err := os.ReadFile(a[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(one(r.Property, r.Tier, r.Family, joinInts(r.Choices)))
	}
}

type replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	ex.Violation
	How string `json:"how_to_replay"`
}

func get(id string) *props.Check {
	c := props.All[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "mc: no check for %q\n", id)
		os.Exit(2)
	}
	return c
}

func joinInts(v []int) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = strconv.Itoa(x)
	}
	return strings.Join(s, ",")
}

func splitInts(s string) []int {
	if s == "" {
		return nil
	}
	var r []int
	for _, x := range strings.Split(s, ",") {
		n, _ := strconv.Atoi(x)
		r = append(r, n)
	}
	return r
}

// report writes the replay file and prints the VIOLATION line.
func report(id, tier string, v ex.Violation) {
	dir := filepath.Join(root(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	var path string
	for i := 1; ; i++ {
		path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		if _, err := os.Stat(path); err != nil {
			break
		}
	}
	b, _ := json.MarshalIndent(replay{Property: id, Tier: tier, Violation: v, How: "./check.sh replay " + path}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	fmt.Printf("  family:  %s\n  case:    %s\n  failure: %s\n", v.Family, indent(v.Desc), indent(v.Msg))
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n           ") }

func one(id, tier, fam, choices string) int {
	if id == "C11" && (strings.HasPrefix(fam, "schedules") || fam == "race") {
		return replaySchedule(fam, splitInts(choices))
	}
	r := &ex.Runner{Thorough: tier == "thorough", MaxViol: 1}
	for _, f := range get(id).Families(tier == "thorough") {
		if f.Name != fam {
			continue
		}
		desc, fail := r.One(f, splitInts(choices))
		fmt.Printf("family: %s\ncase:   %s\n", f.Name, desc)
		if fail != "" {
			fmt.Printf("VIOLATED: %s\n", fail)
			return 1
		}
		fmt.Println("holds")
		return 0
	}
	fmt.Fprintf(os.Stderr, "mc: no family %q\n", fam)
	return 2
}

func supervise(id, tier string) int {
	get(id)
	work := filepath.Join(root(), "work")
	_ = os.MkdirAll(work, 0o755)
	journal := filepath.Join(work, fmt.Sprintf("journal-%s-%d", id, os.Getpid()))
	defer os.Remove(journal)
	crashes := 0
	for {
		if err := os.WriteFile(journal, make([]byte, ex.SlotSize*64), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmd := exec.Command(os.Args[0], "child", id, tier, journal)
		cmd.Stdout = os.Stdout
		tail := &tailWriter{}
		cmd.Stderr = tail
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err == nil && code == 0 {
			fmt.Fprint(os.Stderr, tail.String())
			return 0
		}
		if code == 1 {
			fmt.Fprint(os.Stderr, tail.String())
			return 1
		}
		// the process died while executing some case: find out which
		fmt.Fprint(os.Stderr, tail.String())
		crashes++
		b, _ := os.ReadFile(journal)
		fams, choices := ex.ReadJournal(b)
		list := get(id).Families(tier == "thorough")
		for i := range fams {
			if fams[i] >= len(list) {
				continue
			}
			f := list[fams[i]]
			c := exec.Command(os.Args[0], "one", id, tier, f.Name, joinInts(choices[i]))
			out, _ := c.CombinedOutput()
			if rc := c.ProcessState.ExitCode(); rc != 0 {
				desc := head(string(out), 1500)
				msg := "the process dies (fatal error, exhausted memory or stack) or hangs in this case"
				if rc == 1 {
					msg = "the process died while exploring; this case fails"
				}
				report(id, tier, ex.Violation{Family: f.Name, Choices: choices[i], Desc: desc, Msg: msg})
				return 1
			}
		}
		if crashes >= 2 {
			if strings.Contains(tail.String(), "panic: ex: ") || strings.Contains(tail.String(), "mc: no ") {
				return 2 // an error of the harness
			}
			report(id, tier, ex.Violation{Family: "(process)", Msg: "the process exploring dies repeatedly: " + head(tail.String(), 3000)})
			return 1
		}
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type tailWriter struct{ b []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	if len(t.b) < 80000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailWriter) String() string { return head(string(t.b), 80000) }

func child(id, tier, journal string) int {
	check := get(id)
	thorough := tier == "thorough"
	start := time.Now()
	limit := 200 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	deadline := start.Add(limit)
	if p := os.Getenv("MC_PROFILE"); p != "" {
		if f, err := os.Create(p); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	r := &ex.Runner{Thorough: thorough, Workers: workers, MaxViol: 3}
	if f, err := os.OpenFile(journal, os.O_RDWR, 0); err == nil {
		if m, err := syscall.Mmap(int(f.Fd()), 0, ex.SlotSize*64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			r.Journal = m
		}
	}
	fams := check.Families(thorough)
	only := os.Getenv("MC_FAMILY")
	var results []*ex.Result
	for i, f := range fams {
		if only != "" && f.Name != only {
			continue
		}
		left := time.Until(deadline)
		// every family gets at least its share of the time left
		share := left / time.Duration(len(fams)-i) * 2
		if share > left {
			share = left
		}
		r.Deadline = time.Now().Add(share)
		res := r.Run(i, f)
		results = append(results, res)
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%-28s execs=%d edges=%d states=%d depth=%d %.2fs exhaustive=%v %v\n", f.Name, res.Executions, res.Edges, res.States, res.MaxDepth, res.Wall, res.Exhaustive, res.Classes)
		}
		if len(res.Violations) > 0 {
			break
		}
	}
	if id == "C11" && only == "" {
		ok := true
		for _, r := range results {
			ok = ok && len(r.Violations) == 0
		}
		if ok {
			for _, res := range exploreSchedules(thorough, deadline) {
				results = append(results, res)
				if os.Getenv("MC_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%-28s execs=%d points=%d states=%d switches=%d %.2fs exhaustive=%v %v %s\n", res.Family, res.Executions, res.Edges, res.States, res.MaxDepth, res.Wall, res.Exhaustive, res.Classes, res.Cap)
				}
			}
		}
	}
	if v := os.Getenv("MC_VERBOSE"); v != "" {
		for _, r := range results {
			for _, s := range r.Samples {
				fmt.Fprintf(os.Stderr, "  sample %s: %s\n", r.Family, s)
			}
		}
	}
	viols := 0
	for _, res := range results {
		for _, v := range res.Violations {
			viols++
			report(id, tier, v)
		}
	}
	if err := evidence(check, tier, results, time.Since(start), viols); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if viols > 0 {
		return 1
	}
	var execs, states int64
	for _, res := range results {
		execs += res.Executions
		states += res.States
	}
	fmt.Printf("%s %s: held in all %d executions of %d families, %d distinct outcomes, %.1fs\n", id, tier, execs, len(results), states, time.Since(start).Seconds())
	return 0
}

func evidence(check *props.Check, tier string, results []*ex.Result, wall time.Duration, viols int) error {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var execs, traces, edges, states, skipped int64
	exhaustive := true
	classes := map[string]int64{}
	var fams []map[string]any
	var samples []any
	rules := []string{}
	for _, r := range results {
		execs += r.Executions
		traces += r.Executions + r.ExtraTraces
		edges += r.Edges
		states += r.States
		skipped += r.Skipped
		exhaustive = exhaustive && (r.Exhaustive || r.Family == "race")
		for k, v := range r.Classes {
			classes[k] += v
		}
		m := map[string]any{
			"family": r.Family, "space": r.Rule, "executions": r.Executions, "distinct_outcomes": r.States,
			"choice_tree_edges": r.Edges, "longest_choice_sequence": r.MaxDepth, "complete": r.Exhaustive, "wall_s": round(r.Wall),
		}
		if r.Cap != "" {
			m["cap"] = r.Cap
		}
		if r.Skipped > 0 {
			m["pruned_as_outside_of_the_space"] = r.Skipped
		}
		fams = append(fams, m)
		rules = append(rules, r.Family+": "+r.Rule)
		for _, s := range r.Samples {
			samples = append(samples, map[string]any{"family": r.Family, "case": s})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{
		"samples": samples, "exhaustive": exhaustive, "families": fams, "outcome_classes": classes,
	}
	if check.Level == "fault_enumeration" {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = states
		cov["rule"] = strings.Join(rules, "; ") + ". Distinct and non-trivial: executions with a different canonical outcome (the shape of the case, the position of the fault and the result observed)."
	} else {
		cov["states"] = states
		cov["transitions"] = edges
		cov["traces_validated_against_impl"] = traces
		cov["explanation"] = "states: distinct canonical states/outcomes of the reference model reached; transitions: edges of the tree of choices (or of the state graph) taken; traces: complete executions of the real code compared with the reference model"
	}
	e := map[string]any{
		"property": check.ID, "tier": tier, "seed": seed, "level": check.Level,
		"coverage": cov, "assumptions": check.Assumptions, "wall_s": round(wall.Seconds()), "violations": viols,
	}
	if check.Assumptions == nil {
		e["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(root(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, check.ID+".json"), append(b, '\n'), 0o644)
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }
