package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// styles reads the two independent choices: the style of the templates and of the build.
func styles(c *ex.C) (tmpl, build bool) { return c.Bool(), c.Bool() }

func treeFamily(name, rule string, mk func(c *ex.C) *treeGen) *ex.Family {
	return &ex.Family{Name: name, Rule: rule, Body: func(c *ex.C) {
		g := mk(c)
		g.c = c
		var build bool
		g.dollar, build = styles(c)
		f := g.frag(0)
		c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
		note(c, buildFrag(c, f, build, true))
	}}
}

// wide sweeps sizes: n args or fragments, referenced in every way.
func wideFamily(thorough bool) *ex.Family {
	n := choose(thorough, 131, 1100)
	return &ex.Family{Name: "wide", Rule: fmt.Sprintf("0..%d args and fragments referenced by each kind of list, and nested lists", n-1), Body: func(c *ex.C) {
		kind := c.N(9)
		build := c.Bool()
		k := c.N(n)
		f := &ref.Frag{}
		var ps []string
		for i := 1; i <= k; i++ {
			f.Args = append(f.Args, i)
			switch kind {
			case 0:
				ps = append(ps, "?")
			case 1:
				ps = append(ps, fmt.Sprintf("$%d", i))
			case 2:
				ps = append(ps, fmt.Sprintf("$%d", k+1-i)) // reversed
			case 3:
				ps = append(ps, fmt.Sprintf("#arg%d", i))
			case 5, 6, 7:
				f.Args = nil
				f.Items = append(f.Items, &ref.Frag{Raw: "a=?", Args: []any{i}})
			case 8:
				f.Items = append(f.Items, &ref.Frag{Raw: "a=?", Args: []any{-i / 2}})
			}
		}
		switch kind {
		case 4:
			ps = append(ps, "#join('#arg', ', ')")
		case 5:
			ps = append(ps, "#join('#f', ', ')")
		case 6:
			for i := 1; i <= k; i++ {
				ps = append(ps, fmt.Sprintf("#f%d", i))
			}
		case 7:
			if k > 0 {
				ps = append(ps, fmt.Sprintf("#join('#f', ', ', 1, %d)", (k+1)/2), fmt.Sprintf("#join('#f', ' ', %d)", k/2+1))
			}
		case 8:
			ps = append(ps, "#join('#arg=#f', ', ')")
		}
		f.Raw = strings.Join(ps, ",")
		c.Desc(func() string { return fmt.Sprintf("%s build of kind %d with %d items", styleName(build), kind, k) })
		note(c, buildFrag(c, f, build, true))
	}}
}

func deepFamily(thorough bool) *ex.Family {
	n := choose(thorough, 65, 400)
	return &ex.Family{Name: "deep", Rule: fmt.Sprintf("fragments nested 0..%d deep by 4 kinds of references, args at each level before or after", n-1), Body: func(c *ex.C) {
		kind := c.N(4)
		after := c.Bool()
		build := c.Bool()
		k := c.N(n)
		f := &ref.Frag{Raw: "z=?", Args: []any{0}}
		for i := 1; i <= k; i++ {
			p := []string{"(#f1)", "#fragment(1)", "#join('(#f)', ',')", "#join('#f$1', ',')"}[kind]
			if kind == 3 {
				f = &ref.Frag{Raw: p, Args: []any{i}, Items: []any{f}}
				continue
			}
			if after {
				p += " b=$1"
			} else {
				p = "b=$1 " + p
			}
			f = &ref.Frag{Raw: p, Args: []any{i}, Items: []any{f}}
		}
		c.Desc(func() string { return fmt.Sprintf("%s build of %d levels of kind %d", styleName(build), k, kind) })
		note(c, buildFrag(c, f, build, true))
	}}
}

func init() {
	register(&Check{ID: "C03", Assumptions: []string{
		"Result not specified (only no panic): whether an item referenced by index only inside a #join template with no iteration counts as used.",
	}, Families: func(thorough bool) []*ex.Family {
		return []*ex.Family{
			treeFamily("flat", "all fragments of up to 3 (thorough 4) pieces over every kind of reference to up to 2 args and 2 leaf items, args fresh or shared, both styles of templates and builds", func(c *ex.C) *treeGen {
				return &treeGen{shared: true, exact: true, pieces: []int{choose(thorough, 3, 4)}, maxArgs: []int{2}, maxFrags: []int{2}, leaves: fewLeaves}
			}),
			treeFamily("two-levels", "all trees of two levels, up to 2 pieces each, over every kind of reference", func(c *ex.C) *treeGen {
				return &treeGen{exact: true, pieces: []int{2, choose(thorough, 1, 2)}, maxArgs: []int{1, 2}, maxFrags: []int{2, 1}, leaves: fewLeaves}
			}),
			treeFamily("custom-items", "all fragments of up to 2 (thorough 3) pieces over all kinds of leaf items including custom builders committing args, shared items, nil and empty fragments", func(c *ex.C) *treeGen {
				return &treeGen{shared: choose(thorough, false, true), exact: true, pieces: []int{choose(thorough, 2, 3)}, maxArgs: []int{1}, maxFrags: []int{2}, leaves: leafItems, extras: []string{"#join('#f;#f', ',')", "#join('#f,$1', ';')", "#join('#f', '&', 2)"}}
			}),
			&ex.Family{Name: "zips", Rule: "#join templates of up to 3 (thorough 4) references to args and fragments, by function or by index, over lists of 0..3 args and 0..3 fragments, followed by another reference", Body: func(c *ex.C) {
				tmplDollar, build := styles(c)
				n := 1 + c.N(choose(thorough, 3, 4))
				bind := "?"
				if tmplDollar {
					bind = "$1"
				}
				t := ""
				for i := 0; i < n; i++ {
					t += ex.Pick(c, "#arg ", "#f ", bind+" ", "#arg1 ", "#f1 ", "x ")
				}
				f := &ref.Frag{Raw: "#join('" + t + "', ', ')" + ex.Pick(c, "", " #arg1", " #f1", " #join('#arg', ';')")}
				for i := c.N(4); i > 0; i-- {
					f.Args = append(f.Args, i)
				}
				for i := c.N(4); i > 0; i-- {
					f.Items = append(f.Items, &ref.Frag{Raw: "a=?", Args: []any{i + choose(i%2 == 0, 0, 10)}})
				}
				c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
				note(c, buildFrag(c, f, build, true))
			}},
			wideFamily(thorough), deepFamily(thorough),
		}
	}})

	register(&Check{ID: "C04", Families: mergeFamilies, Assumptions: []string{
		"Equal means == on interface values; values for which == panics are never equal to anything.",
	}})

	register(&Check{ID: "C05", Families: func(thorough bool) []*ex.Family {
		return []*ex.Family{
			treeFamily("flat", "all fragments of up to 2 (thorough 3) pieces with every supply of 0..2 args and 0..2 items, over all kinds of leaf items", func(c *ex.C) *treeGen {
				return &treeGen{pieces: []int{choose(thorough, 2, 3)}, maxArgs: []int{2}, maxFrags: []int{2}, leaves: leafItems}
			}),
			treeFamily("affixes", "all trees of up to two levels with every combination of prefix and suffix and with empty and blank items", func(c *ex.C) *treeGen {
				return &treeGen{exact: true, affixes: true, pieces: []int{2, 1}, maxArgs: []int{0, 1}, maxFrags: []int{choose(thorough, 1, 2), 1}, leaves: fewLeaves, extras: []string{" ", "\t"}}
			}),
			treeFamily("three-levels", "all trees of three levels with one or two pieces per fragment", func(c *ex.C) *treeGen {
				return &treeGen{exact: true, pieces: []int{1, 2, 1}, maxArgs: []int{choose(thorough, 0, 1), 1, 1}, maxFrags: []int{choose(thorough, 1, 2), 1, 1}, leaves: fewLeaves}
			}),
			&ex.Family{Name: "scopes", Rule: "chains of three fragments, each referencing bind variables, args and fragments by index 1..2 before and after its child, each with 1..2 args and items of its own", Body: func(c *ex.C) {
				dollar, build := styles(c)
				var mk func(level int) *ref.Frag
				mk = func(level int) *ref.Frag {
					nA := 1 + c.N(2)
					f := &ref.Frag{}
					for i := 0; i < nA; i++ {
						f.Args = append(f.Args, fmt.Sprintf("L%dA%d", level, i))
					}
					pre, post := "", ""
					for i := 1; i <= nA; i++ {
						b := "?"
						if dollar {
							b = fmt.Sprintf("$%d", nA+1-i)
						}
						if c.Bool() {
							b = fmt.Sprintf("#arg%d", i)
						}
						if c.Bool() {
							pre += b + " "
						} else {
							post += " " + b
						}
					}
					f.Raw = pre + "#f1" + post
					if level == 2 {
						f.Items = []any{&ref.Frag{Raw: "leaf ?", Args: []any{"leaf"}}}
					} else {
						f.Items = []any{mk(level + 1)}
					}
					if c.Bool() {
						f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprintf("side%d", level)})
						f.Raw += " #f2"
					}
					return f
				}
				f := mk(choose(thorough, 1, 0))
				c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
				note(c, buildFrag(c, f, build, true))
			}},
			&ex.Family{Name: "blanks", Rule: "items of every Unicode white space character and 6 other invisible ones at the ends, with prefix and suffix, referenced alone and in #join", Body: func(c *ex.C) {
				sp := ex.Pick(c, "", " ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2009", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "\u200b", "\ufeff", "\x00", "\x1f", "\u180e", "\u2060")
				core := ex.Pick(c, "", "x", "x"+sp+"y")
				item := &ref.Frag{Raw: sp + core + sp, Prefix: ex.Pick(c, "", "P", " "), Suffix: ex.Pick(c, "", "S", sp)}
				f := &ref.Frag{Raw: ex.Pick(c, "#f1", "#join('#f', ',')", "[#f1]", " #f1#f1 "), Items: []any{item}, Prefix: ex.Pick(c, "", "Q"), Suffix: ex.Pick(c, "", "R")}
				if c.Bool() && strings.Contains(f.Raw, "join") {
					f.Items = append(f.Items, item, &ref.Frag{Raw: "z"})
				}
				c.Desc(func() string { return f.Show() })
				note(c, buildFrag(c, f, c.Bool(), true))
			}},
			&ex.Family{Name: "contexts", Rule: "all pairs of fragments of up to 2 and 1 (thorough 2 and 2) pieces built in 3 orders with one shared context", Body: func(c *ex.C) {
				dollar := c.Bool()
				g := &treeGen{c: c, pieces: []int{2}, maxArgs: []int{1}, maxFrags: []int{1}, leaves: fewLeaves, exact: true, dollar: c.Bool()}
				a := g.frag(0)
				g.pieces[0] = choose(thorough, 1, 2)
				b := g.frag(0)
				order := ex.Pick(c, []*ref.Frag{a, b}, []*ref.Frag{a, b, a}, []*ref.Frag{a, a})
				c.Desc(func() string {
					return fmt.Sprintf("%s context: build %s, %s (%d)", styleName(dollar), a.Show(), b.Show(), len(order))
				})
				im := &ref.Impl{}
				ctx := sqlf.NewContext(ref.Style(dollar))
				e := &ref.Eval{Dollar: dollar}
				for i, f := range order {
					want, werr := e.Build(f)
					got, err := im.Fragment(f).BuildFragment(ctx)
					if e.Unspec {
						return
					}
					if werr != nil || err != nil {
						if (werr == nil) != (err == nil) || got != "" {
							c.Failf("build %d: %q (%v), want %q (%v)", i, got, err, want, werr)
						}
						return
					}
					if got != want || !SameValues(ctx.Args(), e.Args) {
						c.Failf("build %d: %q %v, want %q %v", i, got, ctx.Args(), want, e.Args)
					}
					c.State(want)
				}
			}},
			foreignFamily(thorough), wideFamily(thorough), deepFamily(thorough),
		}
	}})

	register(&Check{ID: "C06", Families: joinFamilies, Assumptions: []string{
		"A range start or end of zero or less counts as not given. Fractional indexes are not specified.",
	}})
	register(&Check{ID: "C07", Families: usageFamilies, Assumptions: []string{
		"Whether an item referenced by index only inside a #join template with no iteration counts as used is not specified.",
	}})
	_ = errors.New
}

type named int
type namedStr string
type pair struct{ A, B any }
type small struct{ X int }

var ptrA, ptrB = new(int), new(int)
var sharedMap = map[string]int{}
var sharedSlice = []byte("x")
var tNow = time.Unix(1700000000, 0)

// lookAlikes are values which may be confused with each other.
func lookAlikes() []any {
	return []any{
		1, int64(1), "1", true, 1.0, named(1), uint8(1), namedStr("1"), nil, 0, "", false, 0.0, math.Copysign(0, -1), math.NaN(),
		sharedSlice, []byte("x"), "x", 'x', (*int)(nil), (*string)(nil), ptrA, ptrB, small{1}, pair{1, nil}, pair{sharedSlice, 1}, sharedMap, [1]int{1}, [2]any{1, "1"}, [1]any{sharedSlice},
		tNow, tNow.UTC(), float32(1), float32(0), float32(math.Copysign(0, -1)), complex(1, 0), "$1", "?", errors.New("1"), sql1, []any(nil), int32(1), uint(1), uint64(1), uintptr(1),
	}
}

var sql1 = &small{1}

func mergeFamilies(thorough bool) []*ex.Family {
	vals := lookAlikes()
	commit := func(c *ex.C, seq []any, how int) {
		c.Desc(func() string { return fmt.Sprintf("%s referenced in way %d", ref.ShowValues(seq), how) })
		dollar := how != 5
		switch how {
		case 0, 5: // commit directly
			ctx := sqlf.NewContext(ref.Style(dollar))
			e := &ref.Eval{Dollar: dollar}
			for i, v := range seq {
				got, want := ctx.CommitArg(v), e.Commit(v)
				if got != want || !SameValues(ctx.Args(), e.Args) {
					c.Failf("commit %d returns %q, args are %s; want %q %s", i, got, ref.ShowValues(ctx.Args()), want, ref.ShowValues(e.Args))
				}
			}
			c.State(fmt.Sprintf("%T", seq) + ref.ShowValues(e.Args))
			return
		}
		f := &ref.Frag{}
		switch how {
		case 1:
			f.Args = seq
			f.Raw = strings.Repeat("? ", len(seq))
		case 2:
			f.Args = seq
			f.Raw = "#join('#arg', ',')"
		case 3:
			for _, v := range seq {
				f.Items = append(f.Items, &ref.Frag{Raw: "$1", Args: []any{v}})
			}
			f.Raw = "#join('#f', ',')"
		case 4:
			f.Args = seq
			for i := range seq {
				f.Raw += fmt.Sprintf("#arg%d $%d ", i+1, len(seq)-i)
			}
		}
		note(c, buildFrag(c, f, true, true))
	}
	n := choose(thorough, 2, 3)
	return []*ex.Family{
		{Name: "look-alikes", Rule: fmt.Sprintf("all sequences of 1..%d of %d values, most of which look alike, committed in 6 ways", n, len(vals)), Body: func(c *ex.C) {
			how := c.N(6)
			k := 1 + c.N(n)
			var seq []any
			for i := 0; i < k; i++ {
				seq = append(seq, vals[c.N(len(vals))])
			}
			commit(c, seq, how)
		}},
		{Name: "triples", Rule: "all sequences of 3 (thorough 4) of 10 of them", Body: func(c *ex.C) {
			how := c.N(6)
			var seq []any
			for i := 0; i < choose(thorough, 3, 4); i++ {
				seq = append(seq, ex.Pick[any](c, 1, int64(1), "1", 1.0, nil, sharedSlice, math.NaN(), ptrA, (*int)(nil), pair{sharedSlice, 1}, true))
			}
			commit(c, seq, how)
		}},
		{Name: "patterns", Rule: "all equality patterns (set partitions) of 1..8 (thorough 10) args", Body: func(c *ex.C) {
			how := c.N(5)
			k := 1 + c.N(choose(thorough, 8, 10))
			var seq []any
			top := 0
			for i := 0; i < k; i++ {
				v := c.N(top + 1)
				if v == top {
					top++
				}
				seq = append(seq, fmt.Sprint("v", v))
			}
			commit(c, seq, how)
		}},
		{Name: "numbers", Rule: "lists of 0..130 (thorough 1100) different args, then a repetition of each", Body: func(c *ex.C) {
			how := c.N(5)
			k := 1 + c.N(choose(thorough, 130, 1100))
			var seq []any
			for i := 0; i < k; i++ {
				seq = append(seq, i*7)
			}
			if !thorough || k <= 130 {
				seq = append(seq, seq[c.N(k)], k/2*7)
			} else {
				seq = append(seq, seq[k-1], k/2*7)
			}
			commit(c, seq, how)
		}},
		{Name: "mixed-references", Rule: "the same values referenced by bind variables, #arg, nested fragments, custom builders and #join in all sequences of up to 4 references", Body: func(c *ex.C) {
			f := &ref.Frag{Args: []any{"a", []byte("u"), 3}}
			used := "$1$2$3"
			raw := ""
			for i := 1 + c.N(choose(thorough, 3, 4)); i > 0; i-- {
				switch c.N(7) {
				case 0:
					raw += " $1"
				case 1:
					raw += " $3"
				case 2:
					raw += " #arg2"
				case 3:
					raw += " #join('#arg', ';')"
				case 4:
					f.Items = append(f.Items, &ref.Frag{Raw: "n=?", Args: []any{"a"}})
					raw += fmt.Sprintf(" #f%d", len(f.Items))
				case 5:
					f.Items = append(f.Items, argItem{[]any{3, "new", "a"}})
					raw += fmt.Sprintf(" #f%d", len(f.Items))
				case 6:
					raw += " #join('#arg=#f', ';', 1, 1)"
					if len(f.Items) == 0 {
						f.Items = append(f.Items, &ref.Frag{Raw: "n=?", Args: []any{3}})
					}
				}
			}
			if c.Bool() {
				f.Raw = raw + used
			} else {
				f.Raw = used + raw
			}
			build := c.Bool()
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, true))
		}},
		{Name: "dropped", Rule: "args whose first reference is in the dropped item where a #join ends, for all kinds of values, then referenced again", Body: func(c *ex.C) {
			v := vals[c.N(len(vals))]
			w := vals[c.N(len(vals))]
			f := &ref.Frag{Raw: "#join('" + ex.Pick(c, "$2 #f", "#arg2 #f", "#arg #f", "#f3 #f", "$2 $1 #f") + "', ',', 1) " + ex.Pick(c, "$1 $2 #f2 #f3", "#f2 $2 $1 #f3", "#f3 $1 #f2 $2"), Args: []any{v, w},
				Items: []any{&ref.Frag{Raw: "x"}, &ref.Frag{Raw: "y?", Args: []any{ex.Pick(c, v, w, 42)}}, &ref.Frag{Raw: "z?", Args: []any{w}}}}
			build := c.Bool()
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, true))
		}},
	}
}

func joinFamilies(thorough bool) []*ex.Family {
	return []*ex.Family{
		{Name: "ranges", Rule: "templates, 0..4 (thorough 6) items, every from and to in -1..n+2 or absent, separators, both functions", Body: func(c *ex.C) {
			t := ex.Pick(c, "#f", "#arg", "#fragment", "(#f)", "#f=#arg", "#f #f", "x#arg,?", "#f1#f", "", "x", "#f1", "#nope", "#join", "#f#nope", "?", "$0#f", "#f(1)#arg", "#arg #arg1")
			sep := ex.Pick(c, ",", "", " AND ", "?", "#f1")
			nF := c.N(choose(thorough, 5, 7))
			nA := nF
			if strings.Contains(t, "arg") && strings.Contains(t, "f") {
				nA = c.N(choose(thorough, 5, 7))
			}
			f := &ref.Frag{}
			rng := ""
			m := max(nA, nF)
			switch c.N(4) {
			case 1:
				rng = fmt.Sprintf(", %d", c.N(m+4)-1)
			case 2:
				rng = fmt.Sprintf(", %d, %d", c.N(m+4)-1, c.N(m+4)-1)
			case 3:
				rng = ex.Pick(c, ", 1, 2, 3", ", 'x'", ", 1, null", ", true", ", 1000000000000", ", 1, 99999999999999999999", ", 2, 1")
			}
			f.Raw = fmt.Sprintf("#join('%s', '%s'%s)", t, sep, rng)
			rest := c.Bool() // reference the rest too, so that nothing is unused
			for i := 1; i <= nF; i++ {
				f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprintf("F%d", i)})
				if rest && (strings.Contains(t, "f")) {
					f.Raw += fmt.Sprintf(" #f%d", i)
				}
			}
			for i := 1; i <= nA; i++ {
				f.Args = append(f.Args, fmt.Sprint("A", i))
				if rest && (strings.Contains(t, "arg") || strings.Contains(t, "?")) {
					f.Raw += fmt.Sprintf(" #arg%d", i)
				}
			}
			if !strings.Contains(t, "f") && c.Bool() {
				f.Items = nil
			}
			if !strings.Contains(t, "arg") && !strings.Contains(t, "?") {
				f.Args = nil
			}
			build := c.Bool()
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, false))
		}},
		{Name: "empties", Rule: "all patterns of empty, blank, nil and non-empty items in lists of up to 5 (thorough 7), 4 templates, all ranges", Body: func(c *ex.C) {
			n := c.N(choose(thorough, 5, 8))
			f := &ref.Frag{}
			rest := ""
			for i := 1; i <= n; i++ {
				switch c.N(4) {
				case 0:
					f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprintf("F%d", i)})
				case 1:
					f.Items = append(f.Items, &ref.Frag{})
				case 2:
					f.Items = append(f.Items, (*ref.Frag)(nil))
				case 3:
					f.Items = append(f.Items, textItem{" "})
				}
				rest += fmt.Sprintf("#f%d", i)
			}
			rng := ""
			if c.Bool() {
				rng = fmt.Sprintf(", %d", 1+c.N(n+1))
				if c.Bool() {
					rng += fmt.Sprintf(", %d", 1+c.N(n+1))
				}
			}
			f.Raw = "#join('" + ex.Pick(c, "#f", "(#f)", "#f#f", " #f ") + "', ','" + rng + ") " + rest
			c.Desc(func() string { return f.Show() })
			note(c, buildFrag(c, f, c.Bool(), false))
		}},
		{Name: "failing-items", Rule: "lists of 1..4 (thorough 5) items with a failing one at every position: 9 kinds of failures (among them every way an invalid index appears inside of the item), 8 templates, all ranges", Body: func(c *ex.C) {
			n := 1 + c.N(choose(thorough, 4, 5))
			bad := c.N(n + 1)
			f := &ref.Frag{}
			for i := 0; i < n; i++ {
				if i != bad {
					f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprintf("F%d", i+1)})
				} else {
					f.Items = append(f.Items, failingItem(c))
				}
				f.Args = append(f.Args, i)
			}
			rng := ""
			if c.Bool() {
				rng = fmt.Sprintf(", %d", 1+c.N(n+1))
				if c.Bool() {
					rng += fmt.Sprintf(", %d", 1+c.N(n+1))
				}
			}
			t := ex.Pick(c, "#f", "#f=#arg", "#arg=#f", "#arg#f1", "#f#f", "#f2#arg", "#f(9)#arg", "$9#f")
			f.Raw = "#join('" + t + "', ','" + rng + ")"
			if c.Bool() {
				for i := 1; i <= n; i++ {
					f.Raw += fmt.Sprintf(" #arg%d", i)
				}
			} else if !strings.Contains(t, "arg") {
				f.Args = nil
			}
			build := c.Bool()
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, false))
		}},
		{Name: "templates", Rule: "all join templates of up to 4 (thorough 5) symbols over 14 symbols, on lists of 0..2 args and 0..2 fragments", Body: func(c *ex.C) {
			t := symbols(c, choose(thorough, 4, 5), []string{"#f", "#arg", "x", "?", "$1", "#f1", "#arg(2)", "''q#f''", "\"#f\"", " ", "#join(''#arg'','''')", "#nope", "#", "??"})
			f := &ref.Frag{Raw: "#join('" + t + "', ',')"}
			for i := c.N(3); i > 0; i-- {
				f.Args = append(f.Args, fmt.Sprint("A", i))
			}
			for i := c.N(3); i > 0; i-- {
				f.Items = append(f.Items, &ref.Frag{Raw: "b?", Args: []any{i}})
			}
			build := c.Bool()
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, false))
		}},
		{Name: "nested-joins", Rule: "joins in joins: lists of lists of up to 3x3 with empty ones, ranges in the inner lists", Body: func(c *ex.C) {
			f := &ref.Frag{Raw: "#join('#f', ';')"}
			for i := c.N(4); i > 0; i-- {
				in := &ref.Frag{Raw: "#join('" + ex.Pick(c, "#arg", "#f") + "', ','" + ex.Pick(c, "", ", 2", ", 1, 2") + ")"}
				for k := c.N(4); k > 0; k-- {
					if strings.Contains(in.Raw, "#arg") {
						in.Args = append(in.Args, k)
					} else {
						in.Items = append(in.Items, &ref.Frag{Raw: fmt.Sprint("i", k)})
					}
				}
				f.Items = append(f.Items, in)
			}
			build := c.Bool()
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, true))
		}},
		customJoinFamily(thorough),
		signaturesFamily(thorough),
		narrowFamily(thorough),
	}
}

// failingItem is an item failing in one of many ways.
func failingItem(c *ex.C) any {
	switch c.N(9) {
	case 0:
		return errItem{errors.New("boom")}
	case 1:
		return errItem{sqlf.ErrInvalidIndex}
	case 2:
		return errItem{fmt.Errorf("wrapped: %w", sqlf.ErrInvalidIndex)}
	case 3:
		return &ref.Frag{Raw: "#f1"}
	case 4:
		return &ref.Frag{Raw: "a #arg2", Args: []any{1}}
	case 5:
		return &ref.Frag{Raw: "$2", Args: []any{1}}
	case 6:
		return &ref.Frag{Raw: "x", Args: []any{1}} // unused
	case 7:
		return &ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: "#join('#f', ',', 3)"}}}
	}
	return panicItem{"oops"}
}

func usageFamilies(thorough bool) []*ex.Family {
	wrapAt := func(c *ex.C, f *ref.Frag, depth int) *ref.Frag {
		for i := 0; i < depth; i++ {
			switch c.N(3) {
			case 0:
				f = &ref.Frag{Raw: "(#f1)", Items: []any{f}}
			case 1:
				f = &ref.Frag{Raw: "#join('#f', ',')", Items: []any{&ref.Frag{Raw: "a"}, f}}
			case 2:
				f = &ref.Frag{Raw: "$1 #f1", Args: []any{"w"}, Items: []any{f}}
			}
		}
		return f
	}
	return []*ex.Family{
		foreignFamily(thorough),
		{Name: "subsets", Rule: "0..3 args and 0..3 fragments, all sequences of up to 3 (thorough 4) references of every kind to them", Body: func(c *ex.C) {
			dollar, build := styles(c)
			f := &ref.Frag{}
			nA, nF := c.N(4), c.N(4)
			for i := 0; i < nA; i++ {
				f.Args = append(f.Args, i)
			}
			for i := 0; i < nF; i++ {
				f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprint("F", i)})
			}
			refs := []string{"x", "?", "#arg1", "#arg2", "#arg3", "#f1", "#f2", "#f3", "#join('#arg', ',')", "#join('#f', ',')", "#join('#f', ',', 2)", "#join('#arg', ',', 1, 2)", "#join('#f=#arg', ',')", "#join('#arg#f', ',', 2)", "#join('#f#f1', ',', 2, 3)"}
			if dollar {
				refs[1] = "$1"
				refs = append(refs, "$2", "$3")
			}
			n := c.N(choose(thorough, 4, 5))
			for i := 0; i < n; i++ {
				f.Raw += refs[c.N(len(refs))] + " "
			}
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, true))
		}},
		{Name: "zips", Rule: "lists of 0..4 (thorough 6) args and 0..4 (6) fragments zipped by all templates of 1..3 functions, with all ranges, and each list also referenced at one index", Body: func(c *ex.C) {
			build := c.Bool()
			f := &ref.Frag{}
			k := choose(thorough, 5, 7)
			nA, nF := c.N(k), c.N(k)
			for i := 0; i < nA; i++ {
				f.Args = append(f.Args, i)
			}
			for i := 0; i < nF; i++ {
				f.Items = append(f.Items, &ref.Frag{Raw: "a?", Args: []any{100 + i}})
			}
			t := ""
			for i := 1 + c.N(3); i > 0; i-- {
				t += ex.Pick(c, "#f ", "#arg ", "#fragment;")
			}
			rng := ""
			switch c.N(3) {
			case 1:
				rng = fmt.Sprintf(", %d", c.N(k)+1)
			case 2:
				rng = fmt.Sprintf(", %d, %d", 1+c.N(2), c.N(k)+1)
			}
			f.Raw = "#join('" + t + "', ','" + rng + ")"
			if i := c.N(nA + 1); i > 0 {
				f.Raw += fmt.Sprintf(" #arg%d", i)
			}
			if i := c.N(nF + 1); i > 0 {
				f.Raw = fmt.Sprintf("#f%d ", i) + f.Raw
			}
			c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
			note(c, buildFrag(c, f, build, true))
		}},
		{Name: "unused-at-depth", Rule: "an unused arg or item, or an invalid reference, in a fragment 0..3 (thorough 5) levels deep under every sequence of 3 kinds of references", Body: func(c *ex.C) {
			build := c.Bool()
			f := &ref.Frag{Raw: "$1 #f1", Args: []any{1, 2}, Items: []any{&ref.Frag{Raw: "y"}, &ref.Frag{Raw: "z"}}}
			bad := c.N(10)
			switch bad {
			case 0:
			case 1:
				f.Args = f.Args[:1]
			case 2:
				f.Items = f.Items[:1]
			default:
				f.Raw = "$1 #f1 $2 #f2 " + []string{"", "$3", "#arg3", "#f3", "#f0", "#arg(-1)", "#join('#f', ',', 4)"}[bad-3]
			}
			if bad >= 1 && bad <= 2 {
				// one of the two lists is still unused
			}
			if bad == 9 {
				f.Raw = "x"
			}
			g := wrapAt(c, f, c.N(choose(thorough, 4, 6)))
			c.Desc(func() string { return styleName(build) + " build of " + g.Show() })
			r := buildFrag(c, g, build, true)
			if (bad == 3) != (r.Err == nil) {
				c.Failf("ex: the model is wrong: %v", r.Err)
			}
			note(c, r)
		}},
		{Name: "out-of-range", Rule: "0..3 args and fragments (all referenced), and a further reference of 8 kinds with an index at every boundary: -1, 0, n+1, n+2, around powers of two up to 2^64 and beyond", Body: func(c *ex.C) {
			n := c.N(4)
			build := c.Bool()
			idx := ex.Pick(c, "0", fmt.Sprint(n+1), fmt.Sprint(n+2), "127", "128", "255", "256", "257", "32768", "65536", "65537", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "-1", "-2147483648", "1e1")
			way := ex.Pick(c, "$", "#arg", "#f", "#arg(", "#f(", "#fragment(", "#join('#f', ',', ", "#join('#arg', ',', 1, ", "#join('#f#arg', ',', ")
			raw := way + idx
			if strings.Contains(way, "(") {
				raw += ")"
			} else if idx[0] == '-' || strings.Contains(idx, "e") {
				c.Skip()
			}
			if (idx[0] == '-' || idx == "0" || idx == "1e1") && strings.Contains(way, "join") {
				c.Skip() // not given, not an index
			}
			f := &sqlf.Fragment{}
			for i := 1; i <= n; i++ {
				f.Args = append(f.Args, i)
				f.Fragments = append(f.Fragments, sqlf.F("y"))
				f.Raw += fmt.Sprintf("#arg%d #f%d ", i, i)
			}
			f.Raw += raw
			g := f
			if c.Bool() {
				g = sqlf.Ff("#join('#f', ',')", sqlf.F("a"), f, sqlf.F("b"))
			}
			c.Desc(func() string {
				return fmt.Sprintf("%s build of %q with %d args and fragments", styleName(build), f.Raw, n)
			})
			q, args, err := g.BuildQuery(ref.Style(build))
			if err == nil {
				c.Failf("built to %q %v", q, args)
			}
			if q != "" || args != nil {
				c.Failf("query %q and args %v on error", q, args)
			}
			c.State(raw + fmt.Sprint(n))
		}},
		{Name: "wide", Rule: "lists of 1..130 (thorough 600) args or fragments with exactly one not referenced, at every position", Body: func(c *ex.C) {
			kind := c.N(4)
			n := 1 + c.N(choose(thorough, 130, 600))
			miss := c.N(n+1) + 1
			f := &ref.Frag{}
			var ps []string
			for i := 1; i <= n; i++ {
				if kind < 2 {
					f.Args = append(f.Args, i)
				} else {
					f.Items = append(f.Items, &ref.Frag{Raw: "y"})
				}
				if i != miss && kind%2 == 0 {
					ps = append(ps, fmt.Sprintf("#%s%d", []string{"arg", "", "f"}[kind], i))
				}
			}
			if kind%2 == 1 {
				fn := []string{"", "#arg", "", "#f"}[kind]
				if miss > 1 {
					ps = append(ps, fmt.Sprintf("#join('%s', ',', 1, %d)", fn, min(miss-1, n)))
				}
				if miss < n {
					ps = append(ps, fmt.Sprintf("#join('%s', ',', %d)", fn, miss+1))
				}
			}
			f.Raw = strings.Join(ps, ",")
			c.Desc(func() string { return fmt.Sprintf("%d items, %d not referenced, kind %d", n, miss, kind) })
			im := &ref.Impl{}
			_, _, err := im.Fragment(f).BuildQuery(ref.Style(c.Bool()))
			if (err != nil) != (miss <= n) {
				c.Failf("error is %v", err)
			}
			c.State(fmt.Sprint(kind, n, miss))
		}},
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// customJoinFamily joins with registered functions ending at any index.
func customJoinFamily(thorough bool) *ex.Family {
	return &ex.Family{Name: "custom-functions", Rule: "#join over registered functions with 0..3 items of their own (plain index error, wrapped index error, other error at the end, value at 0), zipped with #arg and #f, all ranges", Body: func(c *ex.C) {
		n := c.N(4)
		kind := c.N(6)
		boom := errors.New("boom")
		fn := func(i int) (string, error) {
			if i == 0 && kind == 3 {
				return "zero", nil
			}
			if i < 1 || i > n {
				switch kind {
				case 1:
					return "", fmt.Errorf("wrapped %d: %w", i, sqlf.ErrInvalidIndex)
				case 2:
					if i > 0 {
						return "", boom
					}
				case 4:
					if i == 0 {
						return "", boom
					}
				}
				return "", sqlf.ErrInvalidIndex
			}
			return fmt.Sprintf("C%d", i), nil
		}
		var impl any = fn
		if kind == 5 {
			impl = func(ctx *sqlf.Context, i int64) (string, error) {
				s, err := fn(int(i))
				if err == nil {
					s += ctx.CommitArg("c" + s)
				}
				return s, err
			}
		}
		model := &ref.Fn{Params: numberParam, Join: kind != 3 && kind != 4, Do: func(e *ref.Eval, sc *ref.Scope, args []any) (string, error) {
			i, _ := isNumber(args[0])
			s, err := fn(int(i))
			if err == nil && kind == 5 {
				s += e.Commit("c" + s)
			}
			return s, err
		}}
		t := ex.Pick(c, "#custom", "#custom=#arg", "#arg=#custom", "#custom#custom", "#custom1#arg", "#custom#custom(2)", "#f=#arg=#custom", "#arg#custom#f#f", "#custom=#f")
		nA, nF := 0, 0
		if strings.Contains(t, "arg") {
			nA = c.N(4)
		}
		if strings.Contains(t, "#f") {
			nF = c.N(4)
		}
		f := &ref.Frag{}
		rest := ""
		for i := 1; i <= nA; i++ {
			f.Args = append(f.Args, fmt.Sprint("A", i))
			rest += fmt.Sprintf(" #arg%d", i)
		}
		for i := 1; i <= nF; i++ {
			f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprint("F", i)})
			rest = fmt.Sprintf(" #f%d", i) + rest
		}
		if nA > 0 && nF > 0 {
			switch c.N(3) {
			case 1:
				rest = rest[strings.Index(rest, " #arg"):]
			case 2:
				rest = rest[:strings.Index(rest, " #arg")]
			}
		}
		rng := ""
		switch c.N(3) {
		case 1:
			rng = fmt.Sprintf(", %d", c.N(5))
		case 2:
			rng = fmt.Sprintf(", %d, %d", c.N(5), c.N(5))
		}
		if rng == "" && kind == 2 {
			// ends with an error
		}
		f.Raw = "#join('" + t + "', ','" + rng + ")" + ex.Pick(c, "", rest)
		dollar := c.Bool()
		c.Desc(func() string {
			return fmt.Sprintf("%s build of %s, kind %d with %d items", styleName(dollar), f.Show(), kind, n)
		})
		e := &ref.Eval{Dollar: dollar, Funcs: map[string]*ref.Fn{"custom": model}}
		want, werr := e.Build(f)
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(dollar)), sqlf.FuncMap{"custom": impl})
		if err != nil {
			c.Failf("registering: %v", err)
		}
		got, err := (&ref.Impl{}).Fragment(f).BuildFragment(ctx)
		if e.Unspec {
			return
		}
		r := ref.Result{Query: want, Args: e.Args, Err: werr}
		if err == nil {
			compare(c, "build", got, ctx.Args(), nil, r)
		} else {
			compare(c, "build", got, nil, err, r)
			if werr != nil && errors.Is(werr, boom) && !errors.Is(err, boom) {
				c.Failf("the error of the function is lost: %v", err)
			}
		}
		note(c, r)
	}}
}

type (
	joinInt   int
	joinUint8 uint8
	joinFloat float64
)

// signaturesFamily joins with functions of every signature.
func signaturesFamily(thorough bool) *ex.Family {
	types := []reflect.Type{}
	for _, v := range []any{0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), 0.0, joinInt(0), joinUint8(0), joinFloat(0), "", false} {
		types = append(types, reflect.TypeOf(v))
	}
	str, err := reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()
	outs := [][]reflect.Type{{str, err}, {str}, {}}
	return &ex.Family{Name: "signatures", Rule: "registered functions with every list of up to 2 parameters of 17 types, variadic or not, a context first or not, and each kind of results, with 0..2 items, in #join alone and zipped with #f, all ranges: accepted exactly if they take one number and return a string and an error", Body: func(c *ex.C) {
		var in []reflect.Type
		ctxFirst := c.Bool()
		if ctxFirst {
			in = append(in, reflect.TypeOf((*sqlf.Context)(nil)))
		}
		n := c.N(3)
		for i := 0; i < n; i++ {
			in = append(in, types[c.N(len(types))])
		}
		variadic := n > 0 && c.Bool()
		good := n == 1 && in[len(in)-1].Kind() != reflect.String && in[len(in)-1].Kind() != reflect.Bool
		if variadic {
			in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
		}
		out := outs[c.N(len(outs))]
		good = good && len(out) == 2
		items := c.N(3)
		t := ex.Pick(c, "#custom", "#custom=#f", "#f#custom")
		from, to := 0, 0
		rng := ""
		switch c.N(3) {
		case 1:
			from = 1 + c.N(3)
			rng = fmt.Sprintf(", %d", from)
		case 2:
			from, to = 1+c.N(2), 1+c.N(3)
			rng = fmt.Sprintf(", %d, %d", from, to)
		}
		typ := reflect.FuncOf(in, out, variadic)
		c.Desc(func() string { return fmt.Sprintf("#join('%s', ','%s) with %s of %d items", t, rng, typ, items) })
		fn := reflect.MakeFunc(typ, func(args []reflect.Value) []reflect.Value {
			i := -1
			if ctxFirst {
				args = args[1:]
			}
			if len(args) > 0 {
				v := args[0]
				if v.Kind() == reflect.Slice && v.Len() > 0 {
					v = v.Index(0)
				}
				if v.CanConvert(reflect.TypeOf(0)) && v.Kind() != reflect.String {
					i = int(v.Convert(reflect.TypeOf(0)).Int())
				}
			}
			s, e := reflect.ValueOf(fmt.Sprint("C", i)), reflect.Zero(err)
			if i < 1 || i > items {
				s, e = reflect.ValueOf(""), reflect.ValueOf(&sqlf.ErrInvalidIndex).Elem()
			}
			return []reflect.Value{s, e}[:len(out)]
		})
		f := sqlf.Ff("#join('"+t+"', ','"+rng+")", nil...)
		var fs []string
		if strings.Contains(t, "#f") {
			f.AppendFragments(sqlf.F("F1"), sqlf.F("F2")).Raw += " #f1#f2"
			fs = []string{"F1", "F2"}
		}
		ctx, e := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"custom": fn.Interface()})
		if e != nil {
			c.Failf("registering %s: %v", typ, e)
		}
		got, e := f.BuildFragment(ctx)
		if !good {
			if e == nil {
				c.Failf("%s is accepted, built to %q", typ, got)
			}
			c.Class("refused")
			return
		}
		n = items
		if fs != nil && n > len(fs) {
			n = len(fs)
		}
		start, end := from, n
		if start == 0 {
			start = 1
		}
		bad := from > n
		if to > 0 {
			bad = bad || to < from || to > n
			end = to
		}
		if bad {
			if e == nil || got != "" {
				c.Failf("built to %q, %v, want an error", got, e)
			}
			c.Class("error")
			return
		}
		var l []string
		for i := start; i <= end; i++ {
			l = append(l, strings.NewReplacer("#custom", fmt.Sprint("C", i), "#f", fmt.Sprint("F", i)).Replace(t))
		}
		want := strings.Join(l, ",")
		if fs != nil {
			want = strings.TrimSpace(want + " F1F2")
		}
		if e != nil || got != want {
			c.Failf("built to %q, %v, want %q", got, e, want)
		}
		c.Class("ok")
		c.State(want)
	}}
}

// narrowFamily joins with functions which can't take every index.
func narrowFamily(thorough bool) *ex.Family {
	return &ex.Family{Name: "narrow", Rule: "registered functions with a parameter of 8 or 16 bits, signed or not, or of 64, with numbers of items and ranges around the limits of their types: an index the parameter can't hold does not exist", Body: func(c *ex.C) {
		typ := []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(joinUint8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint32(0))}[c.N(7)]
		limits := []int{0, 1, 44, 126, 127, 128, 129, 254, 255, 256, 257, 300, 383, 384}
		large := []int{0, 1, 44, 32767, 32768, 65535, 65536, 65536 + 44}
		switch {
		case typ.Bits() == 16:
			limits = large
		case typ.Bits() > 16:
			limits = append([]int{4294967296, 4294967297, 4294967295}, limits...)
		}
		items := limits[c.N(len(limits))]
		if items > 1<<17 {
			items = 3
		}
		// functions with a wrapping sense of their own would find any index
		negative := c.Bool()
		variadic := items < 200 && c.Bool()
		from, to := 0, 0
		rng := ""
		switch c.N(3) {
		case 1:
			from = limits[c.N(len(limits))]
			rng = fmt.Sprintf(", %d", from)
		case 2:
			from, to = limits[c.N(len(limits))], limits[c.N(len(limits))]
			rng = fmt.Sprintf(", %d, %d", from, to)
		}
		c.Desc(func() string {
			return fmt.Sprintf("#join('#custom', ','%s) with a function of %s, %d items, negative ones %v", rng, typ, items, negative)
		})
		str, er := reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()
		in := typ
		if variadic {
			in = reflect.SliceOf(typ)
		}
		fn := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{in}, []reflect.Type{str, er}, variadic), func(args []reflect.Value) []reflect.Value {
			if variadic {
				args[0] = args[0].Index(0)
			}
			i := args[0].Convert(reflect.TypeOf(0)).Int()
			if i == 0 || i > int64(items) || i < 0 && !negative {
				return []reflect.Value{reflect.ValueOf(""), reflect.ValueOf(&sqlf.ErrInvalidIndex).Elem()}
			}
			return []reflect.Value{reflect.ValueOf(fmt.Sprint("C", i)), reflect.Zero(er)}
		})
		ctx, e := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"custom": fn.Interface()})
		if e != nil {
			c.Failf("registering %s: %v", typ, e)
		}
		got, e := sqlf.F("#join('#custom', ','" + rng + ")").BuildFragment(ctx)
		n := items
		limit := map[reflect.Kind]int{reflect.Int8: 127, reflect.Uint8: 255, reflect.Int16: 32767, reflect.Uint16: 65535}[typ.Kind()]
		if limit > 0 && n > limit {
			n = limit
		}
		start, end := from, n
		if start == 0 {
			start = 1
		}
		bad := from > n
		if to > 0 {
			bad = bad || to < from || to > n
			end = to
		}
		if bad {
			if e == nil || got != "" {
				c.Failf("built to %.80q, %v, want an error", got, e)
			}
			c.Class("error")
			return
		}
		b := new(strings.Builder)
		for i := start; i <= end; i++ {
			if i > start {
				b.WriteByte(',')
			}
			fmt.Fprint(b, "C", i)
		}
		if e != nil || got != b.String() {
			c.Failf("built to %.80q (%d bytes), %v, want %.80q (%d bytes)", got, len(got), e, b.String(), b.Len())
		}
		c.Class("ok")
		c.State(rng + typ.String())
	}}
}
