// Package props holds the checks: for every property the families of
// executions to explore and the oracle judging each of them.
package props

import "verif.local/mc/ex"

// Check is the check of a property.
type Check struct {
	ID          string
	Level       string // level of the evidence
	Assumptions []string
	// Families returns what's explored in the tier
	Families func(thorough bool) []*ex.Family
}

// All are the checks by id.
var All = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "model_checking"
	}
	All[c.ID] = c
}

// choose returns q in the quick tier, t in the thorough tier.
func choose[T any](thorough bool, q, t T) T {
	if thorough {
		return t
	}
	return q
}
