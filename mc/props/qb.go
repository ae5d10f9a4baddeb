package props

import (
	"fmt"
	"strings"

	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// judgeQuery builds a new builder of the history in both styles, and in the model.
func judgeQuery(c *ex.C, q *ref.Query, styles ...bool) ref.Result {
	return judgeQuery0(c, q, true, styles...)
}

// judgeQuery0 is judgeQuery, align tells that there is no $ or ? in the text.
func judgeQuery0(c *ex.C, q *ref.Query, align bool, styles ...bool) ref.Result {
	c.Desc(q.Show)
	if relate {
		r := judgeRelations(c, func() builder { return (&ref.Impl{}).Builder(q) })
		note(c, r)
		return r
	}
	if len(styles) == 0 {
		styles = []bool{false, true}
	}
	var want ref.Result
	for i, dollar := range styles {
		if i > 0 {
			c.Traces(1)
		}
		im := &ref.Impl{}
		want = q.Result(dollar)
		c.Steps(want.Steps)
		query, args, err := im.Builder(q).BuildQuery(ref.Style(dollar))
		compare(c, styleName(dollar), query, args, err, want)
		if err == nil && !want.Unspec && align {
			if dollar {
				checkPlaceholders(c, query, args)
			} else {
				checkQuestions(c, query, args)
			}
		}
	}
	note(c, want)
	return want
}

// vals hands out fresh values.
type vals struct{ n int }

func (v *vals) next() int { v.n++; return v.n }

var (
	tFoo  = ref.Tbl{Name: "foo", Alias: "f"}
	tBar  = ref.Tbl{Name: "bar", Alias: "b"}
	tBaz  = ref.Tbl{Name: "baz"}
	tBar2 = ref.Tbl{Name: "bar2", Alias: "b"}
)

func on(a, b *ref.Col) *ref.Frag { return &ref.Frag{Raw: "#f1=#f2", Items: []any{a, b}} }

func eq(col *ref.Col, v any) *ref.Frag {
	return &ref.Frag{Raw: "#f1=?", Items: []any{col}, Args: []any{v}}
}

// historyOps is the alphabet of builder calls.
func historyOps(v *vals) []func() ref.Op {
	fid, bid := ref.C("f", "id"), ref.C("b", "id")
	op := func(o ref.Op) func() ref.Op { return func() ref.Op { return o } }
	sub := func(val any) *ref.Query {
		return ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("s", "id")}}, ref.Op{Do: "From", Tbl: ref.Tbl{Name: "sub", Alias: "s"}},
			ref.Op{Do: "Where", Frag: eq(ref.C("s", "v"), val)})
	}
	return []func() ref.Op{
		op(ref.Op{Do: "Distinct"}),
		op(ref.Op{Do: "Select", Cols: []*ref.Col{fid}}),
		func() ref.Op {
			return ref.Op{Do: "Select", Cols: []*ref.Col{bid, ref.X(&ref.Frag{Raw: "g(#f1,?)", Items: []any{fid}, Args: []any{v.next()}})}}
		},
		op(ref.Op{Do: "Select"}),
		op(ref.Op{Do: "From", Tbl: tFoo}),
		op(ref.Op{Do: "From", Tbl: tBaz}),
		op(ref.Op{Do: "From", Tbl: ref.Tbl{Name: "foo2", Alias: "f"}}),
		op(ref.Op{Do: "From", Tbl: tBar2}),
		op(ref.Op{Do: "InnerJoin", Tbl: tBar, On: on(bid, fid)}),
		op(ref.Op{Do: "LeftJoin", Tbl: tBar2, On: &ref.Frag{Raw: "#f1=#f2", Prefix: "ON", Items: []any{bid, fid}}}),
		op(ref.Op{Do: "LeftJoinOptional", Tbl: tBar, On: on(bid, fid)}),
		op(ref.Op{Do: "LeftJoinOptional", Tbl: tBaz, On: on(ref.C("baz", "bid"), bid)}),
		func() ref.Op { return ref.Op{Do: "RightJoin", Tbl: tBaz, On: eq(ref.C("baz", "v"), v.next())} },
		op(ref.Op{Do: "FullJoin", Tbl: tBaz}),
		op(ref.Op{Do: "CrossJoin", Tbl: ref.Tbl{Name: "qux"}}),
		op(ref.Op{Do: "InnerJoin", Tbl: ref.Tbl{Name: "x", Alias: "f"}, On: &ref.Frag{Raw: "1=1"}}),
		op(ref.Op{Do: "Where"}),
		func() ref.Op { return ref.Op{Do: "Where", Frag: eq(fid, v.next())} },
		func() ref.Op {
			return ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "(#f1 OR #f2)", Items: []any{eq(bid, v.next()), eq(fid, "s")}}}
		},
		op(ref.Op{Do: "Where", Frag: &ref.Frag{Raw: " "}}),
		func() ref.Op { return ref.Op{Do: "Where2", Cols: []*ref.Col{fid}, Str: " >= ", Val: v.next()} },
		func() ref.Op {
			return ref.Op{Do: "WhereIn", Cols: []*ref.Col{fid}, Val: []int{v.next(), v.next()}}
		},
		op(ref.Op{Do: "WhereNotIn", Cols: []*ref.Col{bid}, Val: []string{"s"}}),
		op(ref.Op{Do: "GroupBy", Cols: []*ref.Col{fid}}),
		op(ref.Op{Do: "GroupBy", Cols: []*ref.Col{bid, ref.C("f", "g")}}),
		op(ref.Op{Do: "GroupBy"}),
		op(ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "o")}, Order: 0}),
		func() ref.Op {
			return ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(eq(bid, v.next()))}, Order: 5}
		},
		op(ref.Op{Do: "Limit", N: 10}), op(ref.Op{Do: "Limit", N: 20}), op(ref.Op{Do: "Limit", N: 0}), op(ref.Op{Do: "Limit", N: -1}),
		op(ref.Op{Do: "Offset", N: 5}), op(ref.Op{Do: "Offset", N: -3}),
		func() ref.Op { return ref.Op{Do: "Union", Items: []any{sub(v.next())}} },
		func() ref.Op {
			return ref.Op{Do: "Union", Items: []any{nil, &ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}}, &ref.Frag{Raw: ""}, &ref.Frag{Raw: "SELECT 2"}}}
		},
		op(ref.Op{Do: "Union"}),
		func() ref.Op {
			return ref.Op{Do: "With", Str: "foo", Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}}}, Deps: []string{"cte"}}
		},
		func() ref.Op { return ref.Op{Do: "With", Str: "cte", Items: []any{sub("s")}} },
		op(ref.Op{Do: "With", Str: "baz", Items: []any{&ref.Frag{Raw: "SELECT 3"}}, Deps: []string{"foo", "bar"}}),
		func() ref.Op {
			return ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("baz", "w")}, Str: "=", Val: v.next()}
		},
		op(ref.Op{Do: "OrderBy", Cols: []*ref.Col{fid}, Order: 3}),
		op(ref.Op{Do: "Debug"}),
	}
}

// historyStarts are histories to go on from.
var historyStarts = [][]int{
	{},
	{1, 4},
	{0, 1, 4},
	{4, 10, 11, 1},
	{2, 10, 4, 0},
	{1, 4, 37, 38, 8, 12, 17, 23, 27, 28, 32, 34},
	{0, 1, 4, 37, 10, 12, 17, 23, 27, 28, 32, 34},
}

func history(h []int) *ref.Query {
	v := &vals{}
	ops := historyOps(v)
	q := &ref.Query{}
	for _, i := range h {
		q.Ops = append(q.Ops, ops[i]())
	}
	return q
}

func distinctTimes(c *ex.C, n int) {
	if n > 9 {
		n = 9
	}
	c.Class(fmt.Sprintf("%d calls", n))
}

func init() {
	nOps := len(historyOps(&vals{}))
	register(&Check{ID: "C14", Assumptions: []string{
		"Text in the table names, aliases and columns has no template syntax.",
		"Unspecified: several CTEs of one name, an ordering column that builds to nothing.",
		"The keywords are the ones the builder writes today ('With', 'AS', '_order_N').",
	}, Families: func(thorough bool) []*ex.Family {
		depth := choose(thorough, 3, 4)
		return []*ex.Family{
			{Name: "histories", Rule: fmt.Sprintf("every history of up to %d of %d calls after each of %d beginnings, built in both styles", depth, nOps, choose(thorough, len(historyStarts), 4)),
				Body: func(c *ex.C) {
					starts := historyStarts
					if thorough {
						starts = [][]int{{}, {1, 4}, {0, 2, 10, 4}, {0, 1, 4, 37, 10, 12, 17, 23, 27, 28, 32, 34}}
					}
					h := append([]int{}, starts[c.N(len(starts))]...)
					for n := c.N(depth + 1); n > 0; n-- {
						h = append(h, c.N(nOps))
					}
					judgeQuery(c, history(h))
				}},
			{Name: "states", Rule: fmt.Sprintf("all states of the builder model reachable with %d calls from 2 beginnings, the implementation judged in each", choose(thorough, 4, 5)),
				Ops: nOps, Depth: choose(thorough, 3, 4), Starts: [][]int{{1, 4, 10}, {0, 4, 11, 10, 1, 26}},
				Apply: func(c *ex.C, hist []int) string {
					q := history(hist)
					judgeQuery(c, q)
					return q.State().Key()
				}},
			{Name: "clause-orders", Rule: fmt.Sprintf("every ordered selection of up to %d of 11 calls to different clauses, after or before Select and From", choose(thorough, 5, 7)),
				Body: func(c *ex.C) {
					pool := []int{0, 8, 11, 17, 24, 27, 28, 32, 34, 37, 38}
					var h []int
					first := c.Bool()
					if first {
						h = append(h, 2, 4)
					}
					for n := c.N(choose(thorough, 6, 8)); n > 0; n-- {
						i := c.N(len(pool))
						h = append(h, pool[i])
						pool = append(append([]int{}, pool[:i]...), pool[i+1:]...)
					}
					if !first {
						h = append(h, 4, 2)
					}
					judgeQuery(c, history(h))
				}},
			{Name: "limits", Rule: "all sequences of up to 4 Limit and Offset calls with 8 values",
				Body: func(c *ex.C) {
					q := history([]int{1, 4})
					for n := c.N(5); n > 0; n-- {
						q.Ops = append(q.Ops, ref.Op{Do: ex.Pick(c, "Limit", "Offset"), N: ex.Pick[int64](c, 0, 1, -1, 10, 1<<31, 1<<62, 1<<63-1, -1<<63)})
					}
					judgeQuery(c, q)
				}},
			{Name: "long", Rule: "0..40 (thorough 200) repetitions of each kind of call",
				Body: func(c *ex.C) {
					v := &vals{}
					ops := historyOps(v)
					q := &ref.Query{}
					for _, i := range []int{4, 1, 8} {
						q.Ops = append(q.Ops, ops[i]())
					}
					i := c.N(9)
					n := c.N(choose(thorough, 41, 201))
					for k := 0; k < n; k++ {
						switch i {
						case 0:
							q.Ops = append(q.Ops, ops[17]())
						case 1:
							q.Ops = append(q.Ops, ops[26]())
						case 2:
							q.Ops = append(q.Ops, ops[24]())
						case 3:
							q.Ops = append(q.Ops, ops[34]())
						case 4:
							q.Ops = append(q.Ops, ref.Op{Do: "LeftJoin", Tbl: ref.Tbl{Name: "t", Alias: fmt.Sprintf("t%d", k)}, On: eq(ref.C(fmt.Sprintf("t%d", k), "id"), v.next())})
						case 5:
							q.Ops = append(q.Ops, ref.Op{Do: "With", Str: fmt.Sprintf("c%d", k), Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}}}})
							q.Ops = append(q.Ops, ref.Op{Do: "InnerJoin", Tbl: ref.Tbl{Name: fmt.Sprintf("c%d", k)}})
						case 6:
							if k == 0 {
								q.Ops = append(q.Ops, ref.Op{Do: "Select"})
							}
							o := &q.Ops[3]
							o.Cols = append(o.Cols, ref.C("f", fmt.Sprintf("c%d", k)))
						case 7:
							q.Ops = append(q.Ops, ops[27]())
							if k == 0 {
								q.Ops = append(q.Ops, ops[0]())
							}
						case 8:
							q.Ops = append(q.Ops, ref.Op{Do: "LeftJoin", Tbl: tBar, On: eq(ref.C("b", "id"), v.next())})
						}
					}
					judgeQuery(c, q)
				}},
		}
	}})
}

// slot is an optional part with args: nothing, a fresh arg, a shared arg, ...
func slotFrag(c *ex.C, v *vals, n int, raw string) (*ref.Frag, bool) {
	switch c.N(n) {
	case 0:
		return nil, false
	case 1:
		return &ref.Frag{Raw: strings.ReplaceAll(raw, "@", "$1"), Args: []any{v.next()}}, true
	case 2:
		return &ref.Frag{Raw: strings.ReplaceAll(raw, "@", "?+#f1"), Args: []any{"s"}, Items: []any{&ref.Frag{Raw: "?", Args: []any{v.next()}}}}, true
	}
	return &ref.Frag{Raw: strings.ReplaceAll(raw, "@", "$2-$1"), Args: []any{v.next(), "s"}}, true
}

func argPlacements(c *ex.C, v *vals, few int, nested func() any) *ref.Query {
	q := &ref.Query{}
	add := func(o ref.Op) { q.Ops = append(q.Ops, o) }
	add(ref.Op{Do: "From", Tbl: tFoo})
	if f, ok := slotFrag(c, v, few, "SELECT @"); ok {
		var b any = f
		if nested != nil {
			b = nested()
		}
		add(ref.Op{Do: "With", Str: "foo", Items: []any{b}, Deps: []string{"dep"}})
	}
	if f, ok := slotFrag(c, v, 2, "SELECT @ FROM unused"); ok {
		add(ref.Op{Do: "With", Str: "unused", Items: []any{f}})
		add(ref.Op{Do: "With", Str: "dep", Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{v.next()}}}})
	}
	if f, ok := slotFrag(c, v, few, "f.id=@"); ok {
		add(ref.Op{Do: "Where", Frag: f})
	}
	cols := []*ref.Col{ref.C("f", "id")}
	if f, ok := slotFrag(c, v, few+1, "g(@)"); ok {
		cols = append([]*ref.Col{ref.X(f)}, cols...)
	}
	add(ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "o")}})
	if f, ok := slotFrag(c, v, few+1, "o(@)"); ok {
		add(ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(f)}, Order: 3})
	}
	if f, ok := slotFrag(c, v, few, "b.x=@"); ok {
		add(ref.Op{Do: "InnerJoin", Tbl: tBar, On: f})
	}
	if f, ok := slotFrag(c, v, few, "baz.x=@"); ok {
		add(ref.Op{Do: "LeftJoinOptional", Tbl: tBaz, On: f})
	}
	switch c.N(few) {
	case 1:
		add(ref.Op{Do: "WhereIn", Cols: []*ref.Col{cols[0]}, Val: []any{v.next(), "s"}})
	case 2:
		add(ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "w")}, Str: "<", Val: v.next()})
	}
	if f, ok := slotFrag(c, v, few, "h(@)"); ok {
		add(ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.X(f)}})
	}
	if f, ok := slotFrag(c, v, few, "SELECT @"); ok {
		var b any = f
		if nested != nil {
			b = nested()
		}
		add(ref.Op{Do: "Union", Items: []any{b, &ref.Frag{Raw: "SELECT ?", Args: []any{"s"}}}})
	}
	add(ref.Op{Do: "Select", Cols: cols})
	if c.Bool() {
		add(ref.Op{Do: "Distinct"})
	}
	return q
}

func init() {
	register(&Check{ID: "C15", Assumptions: []string{"Args are distinguishable values (numbers counted up) and one shared string."}, Families: func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "placements", Rule: "every placement of nothing, one or two args (one of them shared) over 11 parts of a query, with and without DISTINCT",
				Body: func(c *ex.C) {
					judgeQuery(c, argPlacements(c, &vals{}, choose(thorough, 2, 3), nil), c.Bool())
				}},
			{Name: "nested", Rule: "the same with nested builders as CTE and union, and as sub-query of a condition or column of an outer builder or fragment",
				Body: func(c *ex.C) {
					v := &vals{}
					inner := argPlacements(c, v, 2, nil)
					var q *ref.Query
					dollar := c.Bool()
					switch c.N(4) {
					case 0: // in a fragment
						f := &ref.Frag{Raw: "?;#f1;$2", Args: []any{v.next(), "s"}, Items: []any{inner}}
						if c.Bool() {
							f.Raw = "$2;#f1;#f1;$1"
						} else {
							f.Raw = "$1;#f1;$2"
						}
						c.Desc(f.Show)
						note(c, buildFrag(c, f, dollar, true))
						return
					case 1: // as condition
						q = ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "?", Args: []any{v.next()}})}}, ref.Op{Do: "From", Tbl: tFoo},
							ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "x=? AND id IN (#f1)", Args: []any{v.next()}, Items: []any{inner}}}, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "z")}, Str: "=", Val: "s"})
					case 2: // as column and order
						q = ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "(#f1) AS a", Items: []any{inner}})}}, ref.Op{Do: "From", Tbl: tFoo},
							ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "z")}, Str: "=", Val: v.next()}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "(#f1)", Items: []any{inner}})}})
						if c.Bool() {
							q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
						}
					case 3: // everywhere else
						q = ref.Q(ref.Op{Do: "With", Str: "foo", Items: []any{inner}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "From", Tbl: tFoo},
							ref.Op{Do: "LeftJoin", Tbl: tBar, On: &ref.Frag{Raw: "b.id IN (#f1) AND ?", Items: []any{inner}, Args: []any{v.next()}}},
							ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "(#f1)", Items: []any{inner}})}},
							ref.Op{Do: "Union", Items: []any{inner, inner}})
					}
					judgeQuery(c, q, dollar)
				}},
			{Name: "two-levels", Rule: "every placement over an outer query, its CTE and union being one of 4 builders",
				Body: func(c *ex.C) {
					v := &vals{}
					judgeQuery(c, argPlacements(c, v, 2, func() any {
						h := ex.Pick(c, []int{1, 4, 17}, []int{0, 2, 4, 8, 27}, []int{2, 4, 8, 12, 37, 17, 34})
						ops := historyOps(v)
						q := &ref.Query{}
						for _, i := range h {
							q.Ops = append(q.Ops, ops[i]())
						}
						return q
					}), c.Bool())
				}},
		}
	}})
}

// mention makes an item of kind k referring to the table.
const mentions = 9

func mention(k int, t string) any {
	switch k {
	case 0:
		return ref.C(t, "m")
	case 1:
		return &ref.Col{Table: t, Name: "m", Anon: true}
	case 2:
		return &ref.Col{Table: t, Name: "m", ViaAlias: true}
	case 3:
		return ref.TblItem{T: ref.Tbl{Name: "base_" + t, Alias: t}, Aliased: true}
	case 4:
		return ref.TblItem{T: ref.Tbl{Name: t}}
	case 5:
		return ref.X(&ref.Frag{Raw: "e(#f1)", Items: []any{ref.C(t, "m")}})
	case 6:
		return ref.X(&ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: "#f1", Items: []any{ref.X(&ref.Frag{Raw: "#f1.x", Items: []any{ref.TblItem{T: ref.Tbl{Name: t}}}})}}}})
	case 7:
		return &ref.Frag{Raw: "#join('#f', '+')", Items: []any{&ref.Frag{Raw: "1"}, ref.C(t, "m")}}
	case 8:
		return &ref.Col{Table: t, Name: "m", Anon: true, ViaAlias: true}
	}
	panic("ex: mention")
}

// places puts an item into a clause.
const places = 8

func place(p int, it any) ref.Op {
	asCol := func() *ref.Col {
		if c, ok := it.(*ref.Col); ok {
			return c
		}
		return ref.X(&ref.Frag{Raw: "#f1", Items: []any{it}})
	}
	switch p {
	case 0:
		return ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"}), asCol()}}
	case 1:
		return ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "#f1", Items: []any{it}}}
	case 2:
		return ref.Op{Do: "GroupBy", Cols: []*ref.Col{asCol()}}
	case 3:
		return ref.Op{Do: "OrderBy", Cols: []*ref.Col{asCol()}, Order: 3}
	case 4:
		return ref.Op{Do: "Where2", Cols: []*ref.Col{asCol()}, Str: "=", Val: 1}
	case 5:
		return ref.Op{Do: "WhereIn", Cols: []*ref.Col{asCol()}, Val: []int{1, 2}}
	case 6:
		return ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "a OR #f1", Items: []any{&ref.Frag{Raw: "(#f1)", Items: []any{&ref.Frag{Raw: "#f1", Items: []any{it}}}}}}}
	case 7:
		return ref.Op{Do: "WhereNotIn", Cols: []*ref.Col{asCol()}, Val: 1}
	}
	panic("ex: place")
}

func init() {
	register(&Check{ID: "C16", Assumptions: []string{
		"A table is referred to by column and table values; names written in the text of a fragment are no reference (documented).",
		"Sub-queries and unions have their own FROM clause.",
	}, Families: func(thorough bool) []*ex.Family {
		names := []string{"f", "j1", "j2", "j3", "j4"}
		n := choose(thorough, 3, 4)
		return []*ex.Family{
			{Name: "graphs", Rule: fmt.Sprintf("all graphs of references between the ON conditions of up to %d joins, each optional or not, each table mentioned nowhere or in one of the clauses, DISTINCT or not", n),
				Body: func(c *ex.C) {
					n := 1 + c.N(n)
					distinct := c.Bool() // reduce by symmetry: nothing is trimmed without
					q := ref.Q(ref.Op{Do: "From", Tbl: ref.Tbl{Name: "from", Alias: "f"}})
					sel := []*ref.Col{ref.C("f", "id")}
					var more []ref.Op
					for j := 1; j <= n; j++ {
						o := ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "t", Alias: names[j]}, On: &ref.Frag{Raw: "x"}}
						if c.Bool() {
							o.Do = "InnerJoin"
						}
						for k := 1; k <= n; k++ {
							if c.Bool() {
								o.On.Items = append(o.On.Items, ref.C(names[k], "id"))
								o.On.Raw = fmt.Sprintf("%s #f%d", o.On.Raw, len(o.On.Items))
							}
						}
						q.Ops = append(q.Ops, o)
						places := 3
						if n == 4 {
							places = 2
						}
						switch c.N(places) {
						case 1:
							more = append(more, place(1+j%3, ref.C(names[j], "m")))
						case 2:
							sel = append(sel, ref.C(names[j], "s"))
						}
					}
					if distinct {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: sel})
					q.Ops = append(q.Ops, more...)
					judgeQuery(c, q, true)
				}},
			{Name: "references", Rule: fmt.Sprintf("each of %d ways to refer to a table in each of %d places or in ON, chained over 0..3 optional joins, before or after the joins are declared, with each join redeclared or not", mentions, places),
				Body: func(c *ex.C) {
					k, p := c.N(mentions), c.N(places+1)
					chain := 1 + c.N(3)
					q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
					var joins []ref.Op
					for j := 1; j <= chain; j++ {
						o := ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "t", Alias: names[j]}, On: &ref.Frag{Raw: "#f1", Items: []any{mention(0, names[j])}}}
						if j < chain {
							o.On = &ref.Frag{Raw: "#f1", Items: []any{mention(k, names[j+1])}}
						}
						joins = append(joins, o)
					}
					if c.Bool() { // reverse declaration order
						for i, j := 0, len(joins)-1; i < j; i, j = i+1, j-1 {
							joins[i], joins[j] = joins[j], joins[i]
						}
					}
					var m ref.Op
					if p < places {
						m = place(p, mention(k, "j1"))
					} else {
						m = ref.Op{Do: ex.Pick(c, "InnerJoin", "LeftJoinOptional"), Tbl: ref.Tbl{Name: "last"}, On: &ref.Frag{Raw: "#f1", Items: []any{mention(k, "j1")}}}
					}
					re := c.N(chain + 1)
					redecl := ref.Op{}
					if re > 0 {
						redecl = ref.Op{Do: ex.Pick(c, "LeftJoinOptional", "LeftJoin"), Tbl: ref.Tbl{Name: "again", Alias: names[re]}, On: &ref.Frag{Raw: "again"}}
					}
					first := c.Bool()
					if first {
						q.Ops = append(q.Ops, m)
					}
					q.Ops = append(q.Ops, joins...)
					if re > 0 {
						q.Ops = append(q.Ops, redecl)
					}
					if !first {
						q.Ops = append(q.Ops, m)
					}
					q.Ops = append(q.Ops, ref.Op{Do: "From", Tbl: ref.Tbl{Name: "from", Alias: "f"}})
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					judgeQuery(c, q, true)
				}},
			{Name: "same-names", Rule: fmt.Sprintf("up to %d joins of tables of equal name or alias, each mentioned or not", choose(thorough, 2, 3)),
				Body: func(c *ex.C) {
					q := ref.Q(ref.Op{Do: "From", Tbl: ex.Pick(c, ref.Tbl{Name: "t", Alias: "f"}, ref.Tbl{Name: "t"})}, ref.Op{Do: "Distinct"},
						ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}})
					for n := 1 + c.N(choose(thorough, 2, 3)); n > 0; n-- {
						q.Ops = append(q.Ops, ref.Op{Do: ex.Pick(c, "LeftJoinOptional", "LeftJoin"), Tbl: ex.Pick(c, ref.Tbl{Name: "t", Alias: "a"}, ref.Tbl{Name: "t", Alias: "b"}, ref.Tbl{Name: "a", Alias: "t"}, ref.Tbl{Name: "a"}, ref.Tbl{Name: "f", Alias: "b"}),
							On: ex.Pick(c, nil, &ref.Frag{Raw: "#f1", Items: []any{ref.C("a", "x")}}, &ref.Frag{Raw: "#f1", Items: []any{ref.C("b", "x")}})})
					}
					for n := c.N(3); n > 0; n-- {
						q.Ops = append(q.Ops, place(1, mention(ex.Pick(c, 0, 3), ex.Pick(c, "t", "a", "b", "f"))))
					}
					judgeQuery(c, q, true)
				}},
			{Name: "histories", Rule: "all states of the builder model reachable with 3 (thorough 4) join, From, Distinct and reference calls, judged in each",
				Ops: len(joinOps()), Depth: choose(thorough, 3, 4), Starts: [][]int{{0, 1, 2}, {1, 0}, {0, 1, 2, 3, 6}},
				Apply: func(c *ex.C, hist []int) string {
					q := &ref.Query{}
					for _, i := range hist {
						q.Ops = append(q.Ops, joinOps()[i])
					}
					judgeQuery(c, q, false)
					return q.State().Key()
				}},
		}
	}})
}

func joinOps() []ref.Op {
	ops := []ref.Op{
		{Do: "From", Tbl: tFoo}, {Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}}, {Do: "Distinct"},
	}
	for _, a := range []string{"b", "c", "d"} {
		for _, o := range []string{"b", "c", "d", "f"} {
			if a == o {
				continue
			}
			ops = append(ops, ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "t" + a, Alias: a}, On: on(ref.C(a, "x"), ref.C(o, "x"))})
		}
		ops = append(ops, ref.Op{Do: "InnerJoin", Tbl: ref.Tbl{Name: "n" + a, Alias: a}, On: on(ref.C(a, "x"), ref.C("b", "x"))})
		for _, p := range []int{0, 1, 2, 3} {
			ops = append(ops, place(p, ref.C(a, "m")))
		}
	}
	return append(ops, ref.Op{Do: "From", Tbl: ref.Tbl{Name: "foo", Alias: "g"}})
}
