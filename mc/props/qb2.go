package props

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

func cteName(i int) string { return fmt.Sprintf("c%d", i) }

func init() {
	register(&Check{ID: "C17", Assumptions: []string{
		"Unspecified: several CTEs of one name. CTEs whose body builds to nothing are left out.",
		"Dependencies are the ones declared with With, and of tables in FROM (documented), not references in the text or bodies.",
	}, Families: func(thorough bool) []*ex.Family {
		max := choose(thorough, 3, 4)
		use := func(c *ex.C, q *ref.Query, n int) {
			// the tables: any of the CTEs or a plain table, with or without alias
			tbl := func(alias string) ref.Tbl {
				i := c.N(n + 1)
				t := ref.Tbl{Name: "plain"}
				if i < n {
					t.Name = cteName(i)
				}
				if c.Bool() {
					t.Alias = alias
				}
				return t
			}
			f := tbl("a0")
			q.Ops = append(q.Ops, ref.Op{Do: "From", Tbl: f}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C(f.Applied(), "id")}})
			switch c.N(4) {
			case 1:
				q.Ops = append(q.Ops, ref.Op{Do: "LeftJoin", Tbl: tbl("a1")})
			case 2:
				q.Ops = append(q.Ops, ref.Op{Do: "Distinct"}, ref.Op{Do: "LeftJoinOptional", Tbl: tbl("a1")})
			case 3:
				t := tbl("a1")
				q.Ops = append(q.Ops, ref.Op{Do: "Distinct"}, ref.Op{Do: "LeftJoinOptional", Tbl: t}, place(1, ref.C(t.Applied(), "x")))
			}
		}
		decl := func(c *ex.C, q *ref.Query, n int, body func(i int) any) {
			for i := 0; i < n; i++ {
				var deps []string
				for j := 0; j < n; j++ {
					if c.Bool() {
						deps = append(deps, cteName(j))
					}
				}
				q.Ops = append(q.Ops, ref.Op{Do: "With", Str: cteName(i), Items: []any{body(i)}, Deps: deps})
			}
		}
		return []*ex.Family{
			{Name: "graphs", Rule: fmt.Sprintf("all dependency graphs over up to %d CTEs (cycles and loops included), 3 of them with each from table and each kind of join, 4 with each from table", max),
				Body: func(c *ex.C) {
					n := c.N(max + 1)
					q := &ref.Query{}
					v := &vals{}
					decl(c, q, n, func(i int) any { return &ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}} })
					if n < 4 {
						use(c, q, n)
					} else {
						t := ref.Tbl{Name: cteName(c.N(n)), Alias: ex.Pick(c, "", "a")}
						q.Ops = append(q.Ops, ref.Op{Do: "From", Tbl: t}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}})
					}
					judgeQuery(c, q, false)
				}},
			{Name: "bodies", Rule: "up to 2 CTEs with each of 6 kinds of body (fragment, builder, empty, nil, nil pointers, nested CTEs), declared first or last, with unknown dependencies first or last",
				Body: func(c *ex.C) {
					n := 1 + c.N(2)
					q := &ref.Query{}
					v := &vals{}
					decl(c, q, n, func(i int) any {
						switch c.N(7) {
						case 0:
							return &ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}}
						case 1:
							return ref.Q(ref.Op{Do: "From", Tbl: ref.Tbl{Name: "t"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("t", "x")}}, ref.Op{Do: "Where", Frag: eq(ref.C("t", "y"), v.next())})
						case 2:
							return &ref.Frag{Raw: "#join('#f', ' ')", Items: []any{&ref.Frag{}}}
						case 3:
							return nil
						case 4:
							return (*ref.Frag)(nil)
						case 5:
							return (*ref.Query)(nil)
						}
						return ref.Q(ref.Op{Do: "With", Str: "c1", Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}}}},
							ref.Op{Do: "From", Tbl: ref.Tbl{Name: "c1", Alias: "x"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("x", "x")}}, ref.Op{Do: "With", Str: "c0", Items: []any{&ref.Frag{Raw: "never"}}})
					})
					switch c.N(3) {
					case 1:
						q.Ops[0].Deps = append(q.Ops[0].Deps, "nowhere", "a0", "plain")
					case 2:
						q.Ops[0].Deps = append([]string{"nowhere", "", "plain"}, q.Ops[0].Deps...)
					}
					use(c, q, n)
					if c.Bool() { // declarations last
						q.Ops = append(q.Ops[n:], q.Ops[:n]...)
					}
					judgeQuery(c, q)
				}},
			{Name: "replaced", Rule: "2 CTEs of all dependency graphs, all sequences of up to 2 (thorough 3) From and join calls, after From or not, with their names as name or alias",
				Body: func(c *ex.C) {
					q := &ref.Query{}
					v := &vals{}
					decl(c, q, 2, func(i int) any { return &ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}} })
					q.Ops = append(q.Ops, ref.Op{Do: "Distinct"}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}})
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "From", Tbl: ref.Tbl{Name: "p", Alias: "main_"}})
					}
					for n := 1 + c.N(choose(thorough, 2, 3)); n > 0; n-- {
						q.Ops = append(q.Ops, ref.Op{Do: ex.Pick(c, "From", "LeftJoinOptional", "CrossJoin"),
							Tbl: ref.Tbl{Name: ex.Pick(c, "c0", "c1", "p"), Alias: ex.Pick(c, "", "c0", "c1", "z")}})
					}
					if c.Bool() {
						q.Ops = append(q.Ops, place(1, ref.C("z", "x")))
					}
					judgeQuery(c, q, true)
				}},
			{Name: "chains", Rule: "chains and cycles of 1..40 CTEs, declared forwards or backwards, used at each position",
				Body: func(c *ex.C) {
					n := 1 + c.N(40)
					q := &ref.Query{}
					cycle, back := c.Bool(), c.Bool()
					for k := 0; k < n; k++ {
						i := k
						if back {
							i = n - 1 - k
						}
						var deps []string
						if i+1 < n {
							deps = append(deps, cteName(i+1))
						} else if cycle {
							deps = append(deps, cteName(0))
						}
						q.Ops = append(q.Ops, ref.Op{Do: "With", Str: cteName(i), Items: []any{&ref.Frag{Raw: fmt.Sprintf("SELECT %d", i)}}, Deps: deps})
					}
					use := c.N(n)
					q.Ops = append(q.Ops, ref.Op{Do: "From", Tbl: ref.Tbl{Name: cteName(use), Alias: "x"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}})
					judgeQuery(c, q, true)
				}},
		}
	}})
}

// stepwise makes the calls one by one and, if asked to, builds after each of
// them: a build must tell the state of the history so far.
func stepwise(c *ex.C, q *ref.Query, buildAt func(i int) bool) {
	c.Desc(func() string { return q.Show() + ", built in between" })
	im := &ref.Impl{}
	b := sqlb.NewQueryBuilder()
	st := &ref.State{}
	var last ref.Result
	for i, o := range q.Ops {
		o.Apply(im, b)
		st.ApplyOp(o)
		if i < len(q.Ops)-1 && !buildAt(i) {
			continue
		}
		for k := 0; k < 2; k++ {
			dollar := (i+k)%2 == 0
			want := st.Result(dollar)
			c.Steps(want.Steps)
			query, args, err := b.BuildQuery(ref.Style(dollar))
			compare(c, fmt.Sprintf("after %d calls, %s", i+1, styleName(dollar)), query, args, err, want)
			c.Traces(1)
			last = want
		}
	}
	note(c, last)
}

func validityOps() []ref.Op {
	one := ref.X(&ref.Frag{Raw: "1"})
	ops := []ref.Op{
		{Do: "Select", Cols: []*ref.Col{one}},
		{Do: "From", Tbl: tFoo},
		{Do: "Distinct"},
		{Do: "Select", Cols: []*ref.Col{ref.C("f", "x")}},
		{Do: "Select", Cols: []*ref.Col{ref.C("b", "x"), one}},
		{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{})}},
		{Do: "Select", Cols: []*ref.Col{ref.C("", "")}},
		{Do: "Select"},
		{Do: "From", Tbl: ref.Tbl{Name: "foo"}},
		{Do: "From", Tbl: ref.Tbl{Alias: "f"}},
		{Do: "From", Tbl: ref.Tbl{}},
		{Do: "From", Tbl: tBar2},
		{Do: "InnerJoin", Tbl: tBar, On: on(ref.C("b", "x"), ref.C("f", "x"))},
		{Do: "LeftJoinOptional", Tbl: tBar, On: on(ref.C("b", "x"), ref.C("gone", "x"))},
		{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "c"}, On: on(ref.C("b", "x"), ref.C("c", "x"))},
		{Do: "RightJoin", Tbl: ref.Tbl{Alias: "b"}, On: &ref.Frag{Raw: "1"}},
		{Do: "CrossJoin", Tbl: ref.Tbl{}},
		{Do: "FullJoin", Tbl: ref.Tbl{Name: "other", Alias: "f"}},
		{Do: "LeftJoin", Tbl: ref.Tbl{Name: "foo"}},
		{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "o")}, Order: 6},
		{Do: "OrderBy", Cols: []*ref.Col{ref.C("b", "o")}, Order: 3},
		{Do: "OrderBy", Cols: []*ref.Col{ref.C("", "o")}, Order: 1 << 40},
		{Do: "GroupBy", Cols: []*ref.Col{ref.C("", "g"), ref.X(&ref.Frag{Raw: "#f1", Items: []any{ref.C("b", "g")}})}},
		{Do: "Where", Frag: &ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: "#f1", Items: []any{ref.TblItem{T: tBar, Aliased: true}}}}}},
		{Do: "Where2", Cols: []*ref.Col{ref.C("foo", "x")}, Str: "=", Val: 1},
		{Do: "Where", Frag: &ref.Frag{Raw: "#f1", Items: []any{ref.TblItem{T: ref.Tbl{Name: "gone"}}}}},
		{Do: "Where", Frag: &ref.Frag{Raw: "#f1 $2", Items: []any{ref.C("f", "x")}, Args: []any{1}}},
		{Do: "WhereIn", Cols: []*ref.Col{ref.C("c", "x")}, Val: []int{1}},
		{Do: "Union", Items: []any{ref.Q(ref.Op{Do: "From", Tbl: tFoo})}},
		{Do: "Union", Items: []any{ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{one}})}},
		{Do: "Union", Items: []any{ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{one}}, ref.Op{Do: "From", Tbl: tBar}), nil}},
		{Do: "With", Str: "foo", Items: []any{ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "x")}}, ref.Op{Do: "From", Tbl: tBar})}},
		{Do: "With", Str: "bar", Items: []any{ref.Q()}},
	}
	return ops
}

func init() {
	register(&Check{ID: "C18", Assumptions: []string{
		"References in the ON condition of a trimmed join are not rendered, they need no declared table.",
		"Sub-queries are judged by their own FROM clause; tables in fragments used as CTE or union belong to those.",
	}, Families: func(thorough bool) []*ex.Family {
		ops := validityOps()
		depth := choose(thorough, 3, 4)
		starts := [][]int{{}, {0, 1}, {3, 1, 2}, {0, 12, 20}, {1, 2, 13, 14, 0}}
		return []*ex.Family{
			{Name: "histories", Rule: fmt.Sprintf("every history of up to %d of %d calls, valid and invalid, after each of %d beginnings, built after every call or only at the end", depth, len(ops), len(starts)),
				Body: func(c *ex.C) {
					q := &ref.Query{}
					for _, i := range starts[c.N(len(starts))] {
						q.Ops = append(q.Ops, ops[i])
					}
					n := len(q.Ops)
					for k := c.N(depth + 1); k > 0; k-- {
						q.Ops = append(q.Ops, ops[c.N(len(ops))])
					}
					if len(q.Ops) == 0 {
						judgeQuery(c, q)
						return
					}
					always := c.Bool()
					stepwise(c, q, func(i int) bool { return always && i >= n-1 })
				}},
			{Name: "nested", Rule: "every history of up to 2 of the calls after Select and From, or alone, as CTE, union, sub-query of a condition, column, group, order, ON or fragment of a valid query, built twice",
				Body: func(c *ex.C) {
					inner := &ref.Query{}
					if c.Bool() {
						inner.Ops = append(inner.Ops, ops[0], ops[1])
					}
					for k := c.N(choose(thorough, 3, 4)); k > 0; k-- {
						inner.Ops = append(inner.Ops, ops[c.N(len(ops))])
					}
					fr := &ref.Frag{Raw: "(#f1)", Items: []any{inner}}
					q := ref.Q(ops[0], ops[1])
					switch c.N(9) {
					case 0:
						q.Ops = append(q.Ops, ref.Op{Do: "With", Str: "foo", Items: []any{inner}})
					case 1:
						q.Ops = append(q.Ops, ref.Op{Do: "With", Str: "unused", Items: []any{inner}})
					case 2:
						q.Ops = append(q.Ops, ref.Op{Do: "Union", Items: []any{inner}})
					case 3:
						q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: fr})
					case 4:
						q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(fr)}})
					case 5:
						q.Ops = append(q.Ops, ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.X(fr)}})
					case 6:
						q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(fr)}})
					case 7:
						q.Ops = append(q.Ops, ref.Op{Do: "LeftJoin", Tbl: tBaz, On: fr})
					case 8:
						q.Ops = append(q.Ops, ref.Op{Do: "LeftJoinOptional", Tbl: tBaz, On: fr}, ref.Op{Do: "Distinct"})
					}
					stepwise(c, q, func(int) bool { return false })
				}},
			{Name: "references", Rule: fmt.Sprintf("each of %d ways to refer to each of 6 tables in each of %d places, with 7 FROM clauses, DISTINCT or not", mentions, places),
				Body: func(c *ex.C) {
					q := ref.Q(ops[0])
					q.Ops = append(q.Ops, place(c.N(places), mention(c.N(mentions), ex.Pick(c, "f", "foo", "b", "bar", "baz", "base_f"))))
					for _, o := range ex.Pick(c, []ref.Op{{Do: "From", Tbl: tFoo}}, []ref.Op{{Do: "From", Tbl: ref.Tbl{Name: "foo"}}},
						[]ref.Op{{Do: "From", Tbl: tBar}, {Do: "From", Tbl: tFoo}}, []ref.Op{{Do: "LeftJoin", Tbl: tBar}, {Do: "From", Tbl: tFoo}},
						[]ref.Op{{Do: "From", Tbl: tFoo}, {Do: "LeftJoinOptional", Tbl: tBar}}, []ref.Op{{Do: "From", Tbl: tFoo}, {Do: "LeftJoinOptional", Tbl: tBaz}, {Do: "CrossJoin", Tbl: ref.Tbl{Name: "bar"}}},
						[]ref.Op{{Do: "With", Str: "b", Items: []any{&ref.Frag{Raw: "SELECT 1"}}}, {Do: "From", Tbl: tFoo}}) {
						q.Ops = append(q.Ops, o)
					}
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					stepwise(c, q, func(int) bool { return false })
				}},
			{Name: "orders", Rule: "every order 0..300 and 6 huge ones",
				Body: func(c *ex.C) {
					n := uint64(c.N(307))
					if n > 300 {
						n = []uint64{1 << 31, 1<<31 - 1, 1 << 32, 1 << 63, 1<<64 - 1, 1<<32 + 3}[n-301]
					}
					q := ref.Q(ops[0], ops[1], ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "o")}, Order: sqlb.Order(n)})
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					stepwise(c, q, func(int) bool { return false })
				}},
			{Name: "states", Rule: "all states of the builder model reachable with 3 (thorough 4) of the calls from 3 beginnings",
				Ops: len(ops), Depth: choose(thorough, 3, 4), Starts: [][]int{{0, 1}, {0, 12}, {2, 13, 0, 1}},
				Apply: func(c *ex.C, hist []int) string {
					q := &ref.Query{}
					for _, i := range hist {
						q.Ops = append(q.Ops, ops[i])
					}
					stepwise(c, q, func(int) bool { return false })
					return q.State().Key()
				}},
		}
	}})

	register(&Check{ID: "C19", Assumptions: []string{"Unspecified: an ordering column that builds to nothing.", "The generated aliases are _order_1, _order_2, ..."}, Families: func(thorough bool) []*ex.Family {
		dirs := []sqlb.Order{0, 1, 2, 3, 4, 5}
		col := func(c *ex.C, v *vals, earlier []*ref.Col) *ref.Col {
			n := 6
			if len(earlier) > 0 {
				n++
			}
			switch c.N(n) {
			case 6: // the same column again
				return earlier[0]
			case 0:
				return ref.C("f", "a")
			case 1:
				return ref.C("b", "x")
			case 2:
				return ref.X(&ref.Frag{Raw: "o(?, #f1)", Args: []any{v.next()}, Items: []any{ref.C("f", "y")}})
			case 3:
				return &ref.Col{Table: "f", Name: "an", Anon: true}
			case 4:
				return ref.X(&ref.Frag{Raw: "$1::text", Args: []any{"s"}})
			}
			return ref.X(&ref.Frag{Raw: "#f1", Prefix: "P", Suffix: "S", Items: []any{ref.Q(ref.Op{Do: "From", Tbl: tBaz}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("baz", "n")}}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("baz", "i")}}, ref.Op{Do: "Distinct"})}})
		}
		return []*ex.Family{
			{Name: "orders", Rule: fmt.Sprintf("all lists of up to %d ordering columns of 6 kinds or the same as the first with each of the 6 directions, 3 selections, DISTINCT or not, Distinct called first or last", choose(thorough, 3, 4)),
				Body: func(c *ex.C) {
					v := &vals{}
					q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: tBar, On: on(ref.C("b", "i"), ref.C("f", "i"))})
					d := c.N(3)
					if d == 1 {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					n := c.N(choose(thorough, 3, 4) + 1)
					var cols []*ref.Col
					for i := 0; i < n; i++ {
						dir := c.N(6)
						cols = append(cols, col(c, v, cols))
						q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: cols[i:], Order: dirs[dir]})
					}
					sel := []*ref.Col{ref.C("f", "a")}
					nSel := 2
					if n > 0 {
						nSel++
					}
					switch c.N(nSel) {
					case 1:
						sel = append(sel, ref.X(&ref.Frag{Raw: "?", Args: []any{v.next()}}))
					case 2: // an ordering column is selected too
						sel = append(sel, cols[n-1])
					}
					q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: sel})
					if d == 2 {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					judgeQuery(c, q, c.Bool())
				}},
			{Name: "repeated", Rule: "histories of up to 5 OrderBy, Distinct, Select, GroupBy and Limit calls, built after every call",
				Body: func(c *ex.C) {
					v := &vals{}
					q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: tBar, On: on(ref.C("b", "i"), ref.C("f", "i"))}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "a")}})
					for n := c.N(choose(thorough, 5, 6)); n > 0; n-- {
						switch c.N(8) {
						case 0:
							q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "a")}, Order: 4})
						case 1:
							q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("b", "x")}, Order: 0})
						case 2:
							q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "o($1)", Args: []any{v.next()}})}, Order: 2})
						case 3:
							q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
						case 4:
							q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "s($1)", Args: []any{v.next()}}), ref.C("f", "a")}})
						case 5:
							q.Ops = append(q.Ops, ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.C("f", "g")}})
						case 6:
							q.Ops = append(q.Ops, ref.Op{Do: "Limit", N: 3})
						case 7:
							q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: eq(ref.C("f", "g"), v.next())})
						}
					}
					stepwise(c, q, func(i int) bool { return i >= 2 })
				}},
			{Name: "many", Rule: "1..60 ordering columns, DISTINCT or not, in nested use or not",
				Body: func(c *ex.C) {
					q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "a")}})
					for n := c.N(60); n >= 0; n-- {
						q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", fmt.Sprintf("o%d", n))}, Order: dirs[n%6]})
					}
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					if c.Bool() {
						q = ref.Q(ref.Op{Do: "From", Tbl: tBar}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("b", "a")}}, ref.Op{Do: "Union", Items: []any{q, q}},
							ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("b", "o")}}, ref.Op{Do: "Distinct"})
					}
					stepwise(c, q, func(int) bool { return false })
				}},
		}
	}})

	register(&Check{ID: "C20", Assumptions: []string{
		"Names are identifiers: no template syntax ($, ?, #) outside of quotes, no leading or trailing white space.",
	}, Families: func(thorough bool) []*ex.Family {
		names := []string{"t", "", "users", "\"My Table\"", "`q?`", "s.t", "tä", "T", "[x]", "\"a#f1\"", "a b", "*", "日本", "t t", "x AS y", "\xff", "id", "t.id", "t.", ".t", "tt", "users.id"}
		judge := func(c *ex.C, t ref.Tbl, name string) {
			c.Desc(func() string { return fmt.Sprintf("table %q AS %q, column %q", t.Name, t.Alias, name) })
			judgeNames(c, t, name)
		}
		return []*ex.Family{
			{Name: "names", Rule: fmt.Sprintf("every table name, alias and column name of %d, in every form and use", len(names)),
				Body: func(c *ex.C) {
					judge(c, ref.Tbl{Name: names[c.N(len(names))], Alias: names[c.N(len(names))]}, names[c.N(len(names))])
				}},
			{Name: "code-points", Rule: "every code point below 0x3000 (thorough 0x20000) in a table, alias and column name",
				Body: func(c *ex.C) {
					r := rune(c.N(choose(thorough, 0x3000, 0x20000)))
					if r >= 0xD800 && r < 0xE000 || strings.ContainsRune("$?#'\"`", r) {
						c.Skip()
					}
					s := string(r)
					switch c.N(3) {
					case 0:
						judge(c, ref.Tbl{Name: "t" + s + "u"}, "c")
					case 1:
						judge(c, ref.Tbl{Name: "t", Alias: "a" + s + "u"}, "c"+s+"d")
					case 2:
						judge(c, ref.Tbl{Name: "n" + s + "t", Alias: "\"" + s + "\""}, "\""+s+"\"")
					}
				}},
			{Name: "references", Rule: fmt.Sprintf("each of %d forms of reference to an aliased and an unaliased table in each of %d places keeps its optional join, and no other", mentions, places),
				Body: func(c *ex.C) {
					t := ex.Pick(c, ref.Tbl{Name: "base_x", Alias: "x"}, ref.Tbl{Name: "x"}, ref.Tbl{Name: "x", Alias: "y"}, ref.Tbl{Name: "z", Alias: "base_x"})
					other := ex.Pick(c, ref.Tbl{Name: "x", Alias: "other"}, ref.Tbl{Name: "base_x", Alias: "o"}, ref.Tbl{Name: "other"})
					q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: t, On: &ref.Frag{Raw: "1"}}, ref.Op{Do: "LeftJoinOptional", Tbl: other, On: &ref.Frag{Raw: "2"}},
						ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "3"})}}, place(c.N(places), mention(c.N(mentions), "x")))
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					judgeQuery(c, q)
				}},
		}
	}})
}

// judgeNames checks all the forms of the names.
func judgeNames(c *ex.C, t ref.Tbl, name string) {
	name2 := "second"
	impl := t.Impl()
	applied := t.Applied()
	// other ways to the same
	for _, before := range []string{"zzz", "", t.Name, t.Alias} {
		b := sqlb.NewTableAliased(sqlb.Table(t.Name), sqlb.Table(before))
		if w := b.WithAlias(sqlb.Table(t.Alias)); w != impl {
			c.Failf("WithAlias makes %+v of %+v, want %+v", w, b, impl)
		}
		if string(b.Name) != t.Name || string(b.Alias) != before {
			c.Failf("WithAlias or NewTableAliased changes a table to %+v", b)
		}
	}
	if got := string(impl.AppliedName()); got != applied {
		c.Failf("applied name is %q, want %q", got, applied)
	}
	if got := impl.Names(); len(got) != 2 || string(got[0]) != t.Name || string(got[1]) != t.Alias {
		c.Failf("Names() is %q", got)
	}
	build := func(what string, f sqlf.FragmentBuilder, want string) {
		c.Traces(1)
		got, err := f.BuildFragment(sqlf.NewContext(ref.Style(true)))
		if err != nil || got != want {
			c.Failf("%s renders as %q (%v), want %q", what, got, err, want)
		}
		q, args, err := sqlf.Ff("<#f1>", f).BuildQuery(ref.Style(false))
		if err != nil || q != "<"+want+">" || len(args) > 0 {
			c.Failf("%s renders as %q (%v) in a fragment, want <%s>", what, q, err, want)
		}
	}
	build("the table", sqlb.Table(t.Name), t.Name)
	build("the aliased table", impl, applied)
	full := func(tbl, n string) string {
		if n == "" || tbl == "" {
			return n
		}
		return tbl + "." + n
	}
	check := func(what string, cols []*sqlb.Column, wants ...string) {
		if len(cols) != len(wants) {
			c.Failf("%s: %d columns, want %d", what, len(cols), len(wants))
		}
		for i, col := range cols {
			build(fmt.Sprintf("%s %d", what, i+1), col, wants[i])
		}
	}
	one := func(col *sqlb.Column) []*sqlb.Column { return []*sqlb.Column{col} }
	check("Table.Column", one(sqlb.Table(t.Name).Column(name)), full(t.Name, name))
	check("Table.AnonymousColumn", one(sqlb.Table(t.Name).AnonymousColumn(name)), name)
	check("Column", one(impl.Column(name)), full(applied, name))
	check("AnonymousColumn", one(impl.AnonymousColumn(name)), name)
	check("Columns", impl.Columns(name, name2, name), full(applied, name), full(applied, name2), full(applied, name))
	check("AnonymousColumns", impl.AnonymousColumns(name2, name), name2, name)
	check("Table.Columns", sqlb.Table(t.Alias).Columns(name2, name), full(t.Alias, name2), full(t.Alias, name))
	check("Table.AnonymousColumns", sqlb.Table(t.Name).AnonymousColumns(name, name, name2), name, name, name2)
	check("no Columns", impl.Columns())
	check("no AnonymousColumns", sqlb.Table("x").AnonymousColumns())
	check("ExprColumns", sqlb.ExprColumns(sqlf.Ff("(#f1)", impl.Column(name)), sqlf.F("2")), "("+full(applied, name)+")", "2")
	c.State(fmt.Sprintf("%s|%s|%s", t.Name, t.Alias, name))
	if t.Name == "" {
		q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}}, ref.Op{Do: "From", Tbl: t})
		if _, _, err := q.ToImpl(&ref.Impl{}).(*sqlb.QueryBuilder).BuildQuery(ref.Style(true)); err == nil {
			c.Failf("no error for an empty table name")
		}
		c.Class("empty table name")
		return
	}
	// in FROM and JOIN, and as reference
	q := ref.Q(ref.Op{Do: "From", Tbl: t}, ref.Op{Do: "Select", Cols: []*ref.Col{{Table: applied, Name: name, ViaAlias: true}, ref.X(&ref.Frag{Raw: "0"})}})
	judgeQuery0(c, q, false, true)
	join := ref.Q(ref.Op{Do: "From", Tbl: ref.Tbl{Name: "main_"}}, ref.Op{Do: "LeftJoinOptional", Tbl: t, On: &ref.Frag{Raw: "1"}}, ref.Op{Do: "Distinct"},
		ref.Op{Do: "Select", Cols: []*ref.Col{{Table: applied, Name: name, Anon: c.Bool()}, ref.X(&ref.Frag{Raw: "0"})}})
	judgeQuery0(c, join, false, false)
}
