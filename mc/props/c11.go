package props

import (
	"fmt"

	"verif.local/mc/conc"
	"verif.local/mc/ex"
)

// nest is a run of scenarios started inside the callbacks of others.
type nest struct {
	c     *ex.C
	w     *conc.World
	solo  []string
	left  int // scenarios which may still be started
	depth int
	desc  string
}

func (n *nest) run(i int, where string) {
	n.desc += fmt.Sprintf("%s%s", where, conc.Scenarios[i].Name)
	n.depth++
	got := conc.Scenarios[i].Do(n.w)
	n.depth--
	if got != n.solo[i] {
		n.c.Failf("%s returns %s, alone it returns %s", conc.Scenarios[i].Name, got, n.solo[i])
	}
}

func init() {
	register(&Check{ID: "C11", Assumptions: []string{
		"Memory is sequentially consistent under the scheduler; unsynchronized accesses are the business of the complementary pass with the race detector.",
		"Nobody edits an object while others build it. Contexts of one root are used by one goroutine.",
		"Statements are atomic but for increments of and appends to shared variables. Standard library calls are atomic.",
		"Where the tree uses channels or goroutines of its own, interleavings are not explored (exhaustive: false).",
	}, Families: func(thorough bool) []*ex.Family {
		var solo []string
		for _, s := range conc.Scenarios {
			solo = append(solo, guarded(s))
		}
		return []*ex.Family{
			{Name: "nested", Serial: true, Rule: fmt.Sprintf("each of %d scenarios with up to %d others started inside of any of its callbacks or of theirs (custom builders, registered functions, driver values, scan destinations), on shared objects", len(conc.Scenarios), choose(thorough, 2, 3)),
				Body: func(c *ex.C) {
					n := &nest{c: c, w: conc.NewWorld(), solo: solo, left: choose(thorough, 2, 3)}
					c.Desc(func() string { return n.desc })
					n.w.Hook = func(place string) {
						if n.left == 0 {
							return
						}
						k := c.N(len(conc.Scenarios) + 1)
						if k == 0 {
							return
						}
						n.left--
						n.run(k-1, fmt.Sprintf(" [in %s: ", place))
						n.desc += "]"
					}
					i := c.N(len(conc.Scenarios))
					n.run(i, "")
					// and once more, undisturbed
					n.left = 0
					n.run(i, "; then ")
					c.State(n.desc)
					c.Class(fmt.Sprint("as alone, nested ", choose(thorough, 2, 3)-n.left))
				}},
			{Name: "sequences", Serial: true, Rule: "all sequences of 3 scenarios on shared objects",
				Body: func(c *ex.C) {
					n := &nest{c: c, w: conc.NewWorld(), solo: solo}
					c.Desc(func() string { return n.desc })
					for k := 0; k < 3; k++ {
						n.run(c.N(len(conc.Scenarios)), "; ")
					}
					c.State(n.desc)
					c.Class("as alone")
				}},
		}
	}})
}

func guarded(s conc.Scenario) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprint("panic: ", p)
		}
	}()
	return s.Do(conc.NewWorld())
}
