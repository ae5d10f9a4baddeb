package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// neighbours are items a fragment may hold beside one which refers to a table.
const neighbours = 11

func neighbour(k int) any {
	switch k {
	case 0:
		return nil
	case 1:
		return (*ref.Frag)(nil)
	case 2:
		return textItem{"custom"}
	case 3:
		return ref.TblItem{T: tFoo, Aliased: true}
	case 4:
		return ref.TblItem{T: ref.Tbl{Name: "f"}}
	case 5:
		return ref.C("f", "n")
	case 6:
		return &ref.Frag{Raw: "no items"}
	case 7:
		return ref.Q(ref.Op{Do: "From", Tbl: tBaz}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("baz", "n")}})
	case 8:
		return ref.X(&ref.Frag{Raw: "expr"})
	case 9:
		return &ref.Frag{Raw: "#f2", Items: []any{nil, ref.TblItem{T: ref.Tbl{Name: "f"}}}}
	case 10:
		return (*ref.Query)(nil)
	}
	panic("ex: neighbour")
}

// joinKinds are the methods which join a table.
var joinKinds = []string{"InnerJoin", "LeftJoin", "LeftJoinOptional", "RightJoin", "FullJoin", "CrossJoin"}

func init() {
	beside := func(tables ...string) *ex.Family {
		return &ex.Family{Name: "beside", Rule: fmt.Sprintf("each of %d ways to refer to each of %d tables, as the first, second or last of three items of a fragment, the other two of %d kinds, in each of %d places or in ON, DISTINCT or not", mentions, len(tables), neighbours, places),
			Body: func(c *ex.C) {
				t := tables[c.N(len(tables))]
				it := mention(c.N(mentions), t)
				a, b := neighbour(c.N(neighbours)), neighbour(c.N(neighbours))
				f := &ref.Frag{Raw: "#f1 #f2 #f3", Items: [][]any{{it, a, b}, {a, it, b}, {a, b, it}}[c.N(3)]}
				q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: tBar, On: &ref.Frag{Raw: "1"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "2"})}})
				switch p := c.N(places + 2); {
				case p < places:
					q.Ops = append(q.Ops, place(p, f))
				case p == places:
					q.Ops = append(q.Ops, ref.Op{Do: "InnerJoin", Tbl: ref.Tbl{Name: "last"}, On: f})
				default:
					q.Ops = append(q.Ops, ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "last"}, On: f}, place(c.N(3), ref.C("last", "x")))
				}
				if c.Bool() {
					q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
				}
				judgeQuery(c, q, true)
			}}
	}
	joins := func(thorough bool) *ex.Family {
		return &ex.Family{Name: "join-kinds", Rule: "up to two joins by each of the 6 methods, the ON condition one of 9 kinds, the second perhaps of the table of the first again, before or after From, DISTINCT or not, their tables referred to or not",
			Body: func(c *ex.C) {
				v := &vals{}
				join := func(t ref.Tbl, other string) ref.Op {
					o := ref.Op{Do: joinKinds[c.N(len(joinKinds))], Tbl: t}
					if o.Do == "CrossJoin" {
						return o
					}
					switch c.N(9) {
					case 0:
					case 1:
						o.On = &ref.Frag{}
					case 2:
						o.On = &ref.Frag{Raw: "x"}
					case 3:
						o.On = on(ref.C(t.Applied(), "i"), ref.C(other, "i"))
					case 4:
						o.On = eq(ref.C(other, "i"), v.next())
					case 5:
						o.On = &ref.Frag{Raw: "x = ?", Args: []any{v.next()}, Prefix: "ON"}
					case 6:
						o.On = &ref.Frag{Raw: "#join('#f', ' AND ')", Items: []any{eq(ref.C(t.Applied(), "i"), v.next()), on(ref.C("f", "k"), ref.C(t.Applied(), "k"))}, Prefix: "(", Suffix: ")"}
					case 7:
						o.On = &ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{}}}
					case 8:
						o.On = &ref.Frag{Raw: "#f1 IN (#f2)", Items: []any{ref.C(t.Applied(), "i"), ref.Q(ref.Op{Do: "From", Tbl: tBaz}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("baz", "n")}})}}
					}
					return o
				}
				from := ref.Op{Do: "From", Tbl: tFoo}
				js := []ref.Op{join(tBar, "f")}
				switch c.N(3) {
				case 1:
					js = append(js, join(tBaz, "b"))
				case 2:
					js = append(js, join(ref.Tbl{Name: "again", Alias: tBar.Alias}, "f"))
				}
				q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
				if c.Bool() {
					q.Ops = append(append(q.Ops, from), js...)
				} else {
					q.Ops = append(append(q.Ops, js...), from)
				}
				if c.Bool() {
					q.Ops = append(q.Ops, place(1, ref.C("b", "m")))
				}
				if c.Bool() {
					q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
				}
				judgeQuery(c, q, c.Bool())
			}}
	}
	for _, id := range []string{"C14", "C16"} {
		extend(id, func(thorough bool) []*ex.Family { return []*ex.Family{joins(thorough)} })
	}
	extend("C16", func(bool) []*ex.Family { return []*ex.Family{beside("b", "last")} })
	extend("C18", func(bool) []*ex.Family { return []*ex.Family{beside("b", "undeclared", "bar")} })
	extend("C20", func(bool) []*ex.Family { return []*ex.Family{beside("b", "f")} })
}

// tree makes a list of lists and what it holds.
func tree(c *ex.C, depth int) any {
	k := 2
	if depth > 0 {
		k = 7
	}
	list := func() []any {
		l := []any{}
		for n := c.N(3); n > 0; n-- {
			l = append(l, tree(c, depth-1))
		}
		return l
	}
	switch c.N(k) {
	case 0:
		return nil
	case 1:
		return 1
	case 2, 3:
		return list()
	case 4:
		l := list()
		return &l
	case 5:
		return [1]any{tree(c, depth-1)}
	}
	return [][]any{list()}
}

func init() {
	extend("C22", func(thorough bool) []*ex.Family {
		depth := 2
		if thorough {
			depth = 3
		}
		return []*ex.Family{{Name: "trees", Rule: fmt.Sprintf("up to 2 arguments which are nil, 1, lists of up to two, pointers to such lists, arrays of one or lists of lists, of the same, %d levels deep", depth),
			Body: func(c *ex.C) {
				var args, want []any
				c.Desc(func() string { return ref.ShowValues(args) })
				n, d := 1, depth
				if c.Bool() {
					n, d = 2, 1
				}
				for i := 0; i < n; i++ {
					a := tree(c, d)
					args = append(args, a)
					switch l := a.(type) {
					case []any:
						want = append(want, l...)
					case *[]any:
						want = append(want, *l...)
					case [1]any:
						want = append(want, l[0])
					case [][]any:
						want = append(want, l[0])
					default:
						want = append(want, a)
					}
				}
				judgeFlat(c, args, want)
				c.Traces(1)
				c.State(ref.ShowValues(args))
			}}}
	})
	extend("C21", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "early-and-late-times", Rule: "times of 12 years, 3 days, 4 times of day, 11 fractions of a second in 6 zones and 3 formats, as value, pointer and driver value",
			Body: func(c *ex.C) {
				zone := ex.Pick(c, time.UTC, time.Local, time.FixedZone("", 3600), time.FixedZone("neg", -45296), time.FixedZone("'", 1), time.FixedZone("x", -1))
				y := ex.Pick(c, -1, 0, 1, 2, 999, 1582, 1969, 1970, 2038, 2262, 9999, 10000)
				mo, d := time.January, 1
				switch c.N(3) {
				case 1:
					mo, d = time.February, 29
				case 2:
					mo, d = time.December, 31
				}
				h, m, s := 0, 0, 0
				switch c.N(4) {
				case 1:
					s = 1
				case 2:
					h, m, s = 23, 59, 59
				case 3:
					h = 12
				}
				ns := ex.Pick(c, 0, 1, 499, 500, 999, 1000, 999999, 1000000, 999999499, 999999500, 999999999)
				t := time.Date(y, mo, d, h, m, s, ns, zone)
				f := time.RFC3339
				var opts []util.InterpolateOption
				if k := c.N(3); k > 0 {
					f = []string{time.RFC3339Nano, "2006-01-02 15:04:05.000000'MST"}[k-1]
					opts = append(opts, util.WithTimeFormat(f))
				}
				c.Desc(func() string { return t.Format(time.RFC3339Nano) + " as " + f })
				want := quoted(t.Round(time.Microsecond).Format(f))
				if t.IsZero() {
					want = "'0000-00-00'"
				}
				var v any = t
				switch c.N(3) {
				case 1:
					v = valuerT{t}
				case 2:
					v = valuerT{valuerT{t}}
				}
				judgeInterp(c, "?", []lit{{v: v, want: want}}, opts...)
				c.Traces(1)
			}}}
	})
}

// repeated joins lists some items of which are equal, by separators which mean
// something in SQL.
func repeated(thorough bool) *ex.Family {
	seps := []string{" AND ", " OR ", ", ", ",", "", " ", " UNION ", " and ", "\n", ";", " || ", "+", " UNION ALL ", "x", "?"}
	tmpls := []string{"#arg", "#f", "a = #arg", "#f = #arg", "(#f)", "#arg #arg", "#f OR #f", " #f", "TRUE"}
	n := 3
	if thorough {
		n = 4
	}
	return &ex.Family{Name: "repeated", Rule: fmt.Sprintf("lists of up to %d args or items, or as many of both, each one of 4 args and 7 fragments, equal ones among them, joined by each of %d separators, with or without blanks around, with %d templates, the list once or twice, in both styles", n, len(seps), len(tmpls)),
		Body: func(c *ex.C) {
			tm := tmpls[c.N(len(tmpls))]
			sep := seps[c.N(len(seps))]
			f := &ref.Frag{}
			// #f only is of fragments, #arg only of args
			hasF, hasA := strings.Contains(tm, "#f"), strings.Contains(tm, "#arg")
			l := c.N(n + 1)
			for i := 0; i < l; i++ {
				if hasA {
					f.Args = append(f.Args, []any{1, 2, "1", nil}[c.N(4)])
				}
				if hasF {
					var it any
					switch k := c.N(7); k {
					case 0:
						it = &ref.Frag{Raw: "a"}
					case 1:
						it = &ref.Frag{Raw: "b"}
					case 2:
						it = &ref.Frag{Raw: "$1", Args: []any{1}}
					case 3:
						it = &ref.Frag{Raw: "?", Args: []any{"?"}}
					case 4:
						it = nil
					case 5:
						it = &ref.Frag{Raw: " a"}
					case 6:
						it = &ref.Frag{Raw: "1 = 1 OR 0"}
					}
					f.Items = append(f.Items, it)
				}
				if hasA && hasF && i == n-2 {
					break // pairs
				}
			}
			call := "#join('" + tm + "', '" + sep + "')"
			f.Raw = ex.Pick(c, call, "("+call+") "+call, call+" WHERE "+call)
			c.Desc(func() string { return f.Show() })
			note(c, buildFrag(c, f, c.Bool(), false))
		}}
}

func init() {
	for _, id := range []string{"C06"} {
		extend(id, func(thorough bool) []*ex.Family { return []*ex.Family{repeated(thorough)} })
	}
}

// claims are tables whose names and aliases claim the identifiers of others.
func claims(thorough bool) *ex.Family {
	names, aliases := []string{"foo", "f", "bar"}, []string{"", "foo", "f", "bar"}
	methods := []string{"From", "InnerJoin", "LeftJoinOptional"}
	if thorough {
		methods = append([]string{"From"}, joinKinds...)
	}
	return &ex.Family{Name: "claims", Rule: fmt.Sprintf("sequences of one to three of %d calls: From and joins (%d methods) of tables of 3 names and each of them or none as alias, an identifier of them selected or none, DISTINCT or not", len(names)*len(aliases)*len(methods), len(methods)-1),
		Body: func(c *ex.C) {
			q := ref.Q()
			for n := 1 + c.N(3); n > 0; n-- {
				o := ref.Op{Do: methods[c.N(len(methods))], Tbl: ref.Tbl{Name: names[c.N(3)], Alias: aliases[c.N(4)]}}
				if o.Do != "From" && o.Do != "CrossJoin" {
					o.On = &ref.Frag{Raw: "1"}
				}
				q.Ops = append(q.Ops, o)
			}
			switch k := c.N(4); k {
			case 3:
				q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}})
			default:
				q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C(names[k], "x")}})
			}
			if c.Bool() {
				q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
			}
			judgeQuery(c, q, c.Bool())
		}}
}

func init() {
	for _, id := range []string{"C18", "C14"} {
		extend(id, func(thorough bool) []*ex.Family { return []*ex.Family{claims(thorough)} })
	}
	extend("C10", func(thorough bool) []*ex.Family { return []*ex.Family{inside(), keeping(thorough)} })
}

// buildFunc is a custom builder.
type buildFunc func(ctx *sqlf.Context) (string, error)

func (f buildFunc) BuildFragment(ctx *sqlf.Context) (string, error) { return f(ctx) }

// inside derives contexts in the course of a build.
func inside() *ex.Family {
	names := []string{"x", "cb", "join", "arg", "f", "fragment"}
	type form struct {
		fn   func(tag string) any
		call string
		want string // what it builds to
	}
	forms := []form{
		{func(t string) any { return func() string { return t } }, "#%s()", "%s"},
		{func(t string) any { return func(i int) string { return fmt.Sprint(t, i) } }, "#%s7", "%s7"},
		{func(t string) any {
			return func(i int) (string, error) { return fmt.Sprint(t, i), listEnd(i, 2) }
		}, "#%s(2)", "%s2"},
		{func(t string) any { return func(a ...int) string { return fmt.Sprint(t, len(a)) } }, "#%s(1, 2, 3)", "%s3"},
		{func(t string) any {
			return func(a, b string, i ...int) (string, error) { return fmt.Sprint(t, a, b, len(i)), nil }
		}, "#%s('a', 'b', 1, 2)", "%sab2"},
		{func(t string) any {
			return func(ctx *sqlf.Context, a, b string, i ...int) (string, error) {
				return fmt.Sprint(t, a, b, len(i)), nil
			}
		}, "#%s('a', 'b')", "%sab0"},
	}
	return &ex.Family{Name: "derived-inside", Rule: fmt.Sprintf("a custom builder or function derives a context from the one it gets, registering one of %d names, perhaps of a built-in function, in one of %d forms, and once more with one of them, and builds fragments in these, in its own and in the first again, at depth 1..3: each resolves by its own context", len(names), len(forms)),
		Body: func(c *ex.C) {
			n1, n2 := names[c.N(len(names))], names[c.N(len(names))]
			f1, f2 := forms[c.N(len(forms))], forms[c.N(len(forms))]
			depth, asFunc, dollar := c.N(3), c.Bool(), c.Bool()
			c.Desc(func() string {
				return fmt.Sprintf("#%s as %s, then #%s as %s, at depth %d, in a function: %v", n1, f1.call, n2, f2.call, depth, asFunc)
			})
			raw := func(n string, f form) string { return fmt.Sprintf(f.call, n) }
			n := 0
			expect := func(ctx *sqlf.Context, what, raw, want string) {
				n++
				w := want
				if dollar {
					w += fmt.Sprint(" $", n+1)
				} else {
					w += " ?"
				}
				var err error
				got := ""
				if n%2 == 0 {
					got, err = sqlf.Fa(raw+" ?", n).BuildFragment(ctx)
				} else {
					got, err = sqlf.Ff(raw+" #f1", sqlf.Fa("$1", n)).BuildFragment(ctx)
					if n1 == "f" && what != "outer" || n2 == "f" && what == "second" {
						// #f1 is the function registered
						got, err = sqlf.Fa(raw+" $1", n).BuildFragment(ctx)
					}
				}
				if err != nil || got != w {
					c.Failf("%s in the %s context builds to %q (%v), want %q", raw, what, got, err, w)
				}
			}
			work := func(ctx *sqlf.Context) (string, error) {
				c1, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{n1: f1.fn("one")})
				if err != nil {
					c.Failf("registering fails: %v", err)
				}
				c2, err := sqlf.ContextWithFuncs(c1, sqlf.FuncMap{n2: f2.fn("two")})
				if err != nil {
					c.Failf("registering fails: %v", err)
				}
				expect(c1, "first", raw(n1, f1), fmt.Sprintf(f1.want, "one"))
				expect(c2, "second", raw(n2, f2), fmt.Sprintf(f2.want, "two"))
				if n1 != n2 {
					expect(c2, "second", raw(n1, f1), fmt.Sprintf(f1.want, "one"))
				}
				expect(ctx, "outer", "#cb2", "outer2")
				expect(c1, "first", raw(n1, f1), fmt.Sprintf(f1.want, "one"))
				for what, ctx := range map[string]*sqlf.Context{"outer": ctx, "first": c1} {
					if what == "first" && n1 == "x" || n2 != "x" && (what == "first" || n1 != "x") {
						continue
					}
					if got, err := sqlf.F("#x()").BuildFragment(ctx); err == nil {
						c.Failf("#x in the %s context builds to %q, want an error", what, got)
					}
				}
				return "done", nil
			}
			root := sqlf.NewContext(ref.Style(dollar))
			base, err := sqlf.ContextWithFuncs(root, sqlf.FuncMap{
				"cb":   func(i int) (string, error) { return fmt.Sprint("outer", i), listEnd(i, 2) },
				"work": func(ctx *sqlf.Context, i int) (string, error) { return work(ctx) },
			})
			if err != nil {
				c.Failf("registering fails: %v", err)
			}
			f := sqlf.Ff("#f1", buildFunc(work))
			if asFunc {
				f = sqlf.F("#work1")
			}
			for i := 0; i < depth; i++ {
				f = sqlf.Ff("#f1", f)
			}
			f = sqlf.Ff("#arg1 #f1 #join('#arg', ',') #join('#cb', '+')", f).WithArgs("a")
			got, err := f.BuildFragment(base)
			w := "? done ? outer1+outer2"
			if dollar {
				w = "$1 done $1 outer1+outer2"
			}
			if err != nil || got != w {
				c.Failf("built to %q (%v), want %q", got, err, w)
			}
			want := []any{"a"}
			for i := 1; i <= n; i++ {
				want = append(want, i)
			}
			if !dollar {
				want = append(want, "a")
			}
			if !SameValues(root.Args(), want) {
				c.Failf("the args are %s, want %s", ref.ShowValues(root.Args()), ref.ShowValues(want))
			}
			c.Class("ok")
			c.State(fmt.Sprint(got, n))
		}}
}

// keeping takes the args of the context at every point of a build, those
// which #join drops with its last item included.
func keeping(thorough bool) *ex.Family {
	n := 3
	if thorough {
		n = 5
	}
	return &ex.Family{Name: "keeping", Rule: fmt.Sprintf("custom functions take the args of the context at every point of #join templates of up to 3 of #arg, #f and these, on lists of up to %d args and items, one or two joins: what was taken does not change later", n),
		Body: func(c *ex.C) {
			parts := []string{"#arg", "#f", "#keep", "$1"}
			tm := "#keep"
			for i := c.N(3); i >= 0; i-- {
				tm += parts[c.N(len(parts))]
			}
			type taken struct {
				got, copy []any
			}
			var all []taken
			keep := func(ctx *sqlf.Context, i int) (string, error) {
				if i < 1 || i > 100 {
					return "", sqlf.ErrInvalidIndex
				}
				a := ctx.Args()
				all = append(all, taken{a, append([]any{}, a...)})
				return "k", nil
			}
			nArgs, nItems := c.N(n+1), c.N(n+1)
			f := sqlf.F(fmt.Sprintf("#join('%s', ',')%s ?", tm, ex.Pick(c, "", " #join('"+tm+"#keep', ',')")))
			f.Raw = strings.ReplaceAll(f.Raw, "?", "#join('#arg', ',') #join('#f', ',')")
			for i := 0; i < nArgs; i++ {
				f.AppendArgs(i)
			}
			for i := 0; i < nItems; i++ {
				f.AppendFragments(sqlf.Fa("?", "item"))
			}
			dollar := c.Bool()
			c.Desc(func() string { return fmt.Sprintf("%+v, Dollar: %v", *f, dollar) })
			if !strings.Contains(tm, "#arg") && !strings.Contains(tm, "#f") {
				c.Skip() // no end
			}
			root := sqlf.NewContext(ref.Style(dollar))
			ctx, err := sqlf.ContextWithFuncs(root, sqlf.FuncMap{"keep": keep})
			if err != nil {
				c.Failf("registering fails: %v", err)
			}
			got, err := f.BuildFragment(ctx)
			for i := 0; i < 3; i++ {
				root.CommitArg(fmt.Sprint("later", i))
			}
			for i, t := range all {
				if !SameValues(t.got, t.copy) {
					c.Failf("the args taken as %s at point %d are %s now", ref.ShowValues(t.copy), i, ref.ShowValues(t.got))
				}
				if cap(t.got) > len(t.got) {
					_ = append(t.got, "mine")
				}
			}
			for _, a := range root.Args() {
				if a == "mine" {
					c.Failf("appending to the args taken writes to the context")
				}
			}
			c.State(fmt.Sprint(got, err))
		}}
}

// conditions are the helpers which make conditions, with args of all kinds.
func conditions() *ex.Family {
	ops := []string{"=", " = ", "<>", " <> ", "!=", " LIKE ", " IS ", " IS NOT ", " IN ", ">", "<=", "", " ", "-", "--\n", "x"}
	return &ex.Family{Name: "conditions", Rule: fmt.Sprintf("Where2 with %d operators, WhereIn and WhereNotIn with lists of 0..2, with every value of the catalogue of C21, of 3 kinds of columns, alone, twice, or with another condition before or behind, DISTINCT or not", len(ops)),
		Body: func(c *ex.C) {
			ls := fixedLits()
			v := ls[c.N(len(ls))].v
			var o ref.Op
			switch k := c.N(len(ops) + 2); {
			case k < len(ops):
				o = ref.Op{Do: "Where2", Str: ops[k], Val: v}
			default:
				o = ref.Op{Do: []string{"WhereIn", "WhereNotIn"}[k-len(ops)]}
				switch c.N(6) {
				case 0:
					o.Val = v
				case 1:
					o.Val = []any{v}
				case 2:
					o.Val = []any{v, v}
				case 3:
					o.Val = []any{1, v}
				case 4:
					o.Val = []any{}
				case 5:
					o.Val = []any{[]any{v}, nil}
				}
			}
			o.Cols = []*ref.Col{[]*ref.Col{ref.C("f", "x"), {Table: "f", Name: "x", Anon: true}, ref.X(&ref.Frag{Raw: "(? #f1)", Args: []any{"own"}, Items: []any{ref.C("f", "y")}})}[c.N(3)]}
			q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "2"})}})
			other := ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "?", Args: []any{"other"}}}
			switch c.N(4) {
			case 0:
				q.Ops = append(q.Ops, o)
			case 1:
				q.Ops = append(q.Ops, o, o)
			case 2:
				q.Ops = append(q.Ops, other, o)
			case 3:
				q.Ops = append(q.Ops, o, other)
			}
			if c.Bool() {
				q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
			}
			judgeQuery(c, q, c.Bool())
		}}
}

// floats are numbers in both widths.
func floats() *ex.Family {
	type f32 float32
	return &ex.Family{Name: "numbers", Rule: "numbers n/4, n/3, n*1000, 2^n and 10^n of n in -64..64, as float32, float64, named ones, behind pointers to valuers, and whole ones as integers of all widths which hold them",
		Body: func(c *ex.C) {
			n := float64(c.N(129) - 64)
			v := []float64{n / 4, n / 3, n * 1000, math.Exp2(n), math.Pow(10, n/4)}[c.N(5)]
			want := strconv.FormatFloat(v, 'f', 6, 64)
			whole := v == math.Trunc(v) && math.Abs(v) < 1<<53
			var arg any
			k := c.N(16)
			switch {
			case k == 0:
				arg = v
			case k == 1:
				arg = myFloat(v)
			case k == 2:
				arg = valuerT{v}
			case k == 3, k == 4, k == 5:
				arg, want = float32(v), strconv.FormatFloat(float64(float32(v)), 'f', 6, 64)
				if k == 4 {
					arg = f32(v)
				} else if k == 5 {
					arg = valuerT{float32(v)}
				}
			case !whole:
				c.Skip()
			default:
				i := int64(v)
				arg = []any{int(i), int8(i), int16(i), int32(i), i, uint(i), uint8(i), uint16(i), uint32(i), uint64(i)}[k-6]
				want = strconv.FormatInt(i, 10)
				if fmt.Sprint(arg) != want {
					c.Skip() // too narrow
				}
			}
			judgeInterp(c, ex.Pick(c, "?", "$1", "(?)", "a = ?, b"), []lit{{v: arg, want: want}})
		}}
}

func init() {
	for _, id := range []string{"C14", "C15"} {
		extend(id, func(thorough bool) []*ex.Family { return []*ex.Family{conditions()} })
	}
	extend("C21", func(thorough bool) []*ex.Family { return []*ex.Family{floats()} })
}
