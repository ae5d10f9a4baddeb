package props

import (
	"fmt"
	"strings"

	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// treeGen generates fragment trees from choices.
type treeGen struct {
	c      *ex.C
	next   int
	dollar bool // style used in the templates
	shared bool // some args may be equal
	// bounds by depth, 0 is the root
	pieces   []int
	maxArgs  []int
	maxFrags []int
	leaves   func(g *treeGen) any
	affixes  bool
	exact    bool // supply what's referenced by number, choose only what's needed for joins
	extras   []string
}

func (g *treeGen) value() any {
	if g.shared && g.c.Bool() {
		return "s"
	}
	g.next++
	return g.next
}

// frag generates a fragment at the depth.
func (g *treeGen) frag(depth int) *ref.Frag {
	c := g.c
	f := &ref.Frag{}
	nA, nF := 0, 0
	if !g.exact {
		nA, nF = c.N(g.maxArgs[depth]+1), c.N(g.maxFrags[depth]+1)
	}
	bind := func(i int) string {
		if g.dollar {
			return fmt.Sprintf("$%d", i)
		}
		return "?"
	}
	var alpha []string
	alpha = append(alpha, "x")
	mA, mF := g.maxArgs[depth], g.maxFrags[depth]
	for i := 1; i <= mA; i++ {
		alpha = append(alpha, bind(i), fmt.Sprintf("#arg%d", i))
		if !g.dollar && i == 1 {
			// ? numbers itself
			mA2 := mA
			for k := 2; k <= mA2; k++ {
				alpha = append(alpha, fmt.Sprintf("#arg%d", k))
			}
			break
		}
	}
	for i := 1; i <= mF; i++ {
		alpha = append(alpha, fmt.Sprintf("#f%d", i))
	}
	if mA > 0 {
		alpha = append(alpha, "#join('#arg', ',')")
	}
	if mF > 0 {
		alpha = append(alpha, "#join('#fragment', ';')")
	}
	if mA > 0 && mF > 0 {
		alpha = append(alpha, "#join('#f=#arg', '&')", "#join('#arg=#f', '&')")
	}
	alpha = append(alpha, g.extras...)
	n := c.N(g.pieces[depth] + 1)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, alpha[c.N(len(alpha))])
	}
	f.Raw = strings.Join(ps, " ")
	if g.exact {
		q := 0
		for _, p := range ps {
			switch {
			case p == "?":
				q++
				nA = max(nA, q)
			case p[0] == '$':
				nA = max(nA, int(p[1]-'0'))
			case strings.HasPrefix(p, "#arg"):
				nA = max(nA, int(p[4]-'0'))
			case p[0] == '#' && p[1] == 'f':
				nF = max(nF, int(p[2]-'0'))
			}
		}
		if strings.Contains(f.Raw, "'#arg") || strings.Contains(f.Raw, "=#arg") {
			nA += c.N(max(mA-nA, 0) + 1)
		}
		if strings.Contains(f.Raw, "'#f") || strings.Contains(f.Raw, "=#f") {
			nF += c.N(max(mF-nF, 0) + 1)
		}
	}
	for i := 0; i < nA; i++ {
		f.Args = append(f.Args, g.value())
	}
	for i := 0; i < nF; i++ {
		if depth+1 < len(g.pieces) {
			if k := c.N(3); k == 0 {
				f.Items = append(f.Items, g.frag(depth+1))
				continue
			} else if k == 1 && i > 0 {
				f.Items = append(f.Items, f.Items[0]) // shared
				continue
			}
		}
		f.Items = append(f.Items, g.leaves(g))
	}
	if g.affixes {
		f.Prefix = ex.Pick(c, "", "P")
		f.Suffix = ex.Pick(c, "", "S")
	}
	return f
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// standard leaves
func leafItems(g *treeGen) any {
	switch g.c.N(6) {
	case 0:
		return &ref.Frag{Raw: "y"}
	case 1:
		return &ref.Frag{Raw: "z=?", Args: []any{g.value()}}
	case 2:
		return &ref.Frag{}
	case 3:
		return argItem{[]any{g.value(), g.value()}}
	case 4:
		return &ref.Frag{Raw: "$2$1", Args: []any{g.value(), g.value()}, Prefix: "p"}
	}
	return (*ref.Frag)(nil)
}

func fewLeaves(g *treeGen) any {
	switch g.c.N(3) {
	case 0:
		return &ref.Frag{Raw: "z=?", Args: []any{g.value()}}
	case 1:
		return &ref.Frag{Raw: "y"}
	}
	return &ref.Frag{Raw: " "}
}
