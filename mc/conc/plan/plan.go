// Package plan is what the parent and the shards of the exploration of
// interleavings exchange.
package plan

// Case is one schedule of some scenarios.
type Case struct {
	Scenarios []int    `json:"scenarios"`
	Warm      bool     `json:"warm"`
	Order     []int    `json:"order"`
	Preempt   [][2]int `json:"preempt"` // point, thread which goes on
}

// Config is the work of a shard.
type Config struct {
	Threads, Bound int
	Coarse         bool
	Pick           []int // the scenarios, all if empty
	Cold           bool  // only with fresh packages
	Occurrences    int   // preempt only at the first ones and the last one of each place in each goroutine, 0: at all
	Shard, Shards  int
	Seconds        float64
	Case           *Case // only this one
}

// Violation is a failing case.
type Violation struct {
	Case Case
	Msg  string
}

// Report is the result of a shard.
type Report struct {
	Executions, Points, States int64
	Diverged, Unstable         int64
	Sets                       int
	MaxSwitches                int
	Capped                     bool
	Violations                 []Violation
}

// Sets are all multisets of n of k scenarios.
func Sets(n, k int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, s := range Sets(n-1, k) {
		from := 0
		if len(s) > 0 {
			from = s[len(s)-1]
		}
		for i := from; i < k; i++ {
			r = append(r, append(append([]int{}, s...), i))
		}
	}
	return r
}

// Orders are all permutations of n.
func Orders(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, o := range Orders(n - 1) {
		for i := 0; i <= len(o); i++ {
			x := append(append(append([]int{}, o[:i]...), n-1), o[i:]...)
			r = append(r, x)
		}
	}
	return r
}
