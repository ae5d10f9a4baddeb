package props

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// atoms are texts which could mean something to code which looks at the text
// of the parts it puts together.
var atoms = []string{"", "x", ";", ";;", ",", ".", "(", ")", "()", "--c", "-- c\n", "/*c*/", "/*", "*/", "\n", "\r\n", "\t", " ", "  ", "\u00a0", "\u3000", "\u200b", "\ufeff", "\x00", "\\", "%", "%s", "%d%%", "!",
	"AND", "OR ", " AND", "and ", "WHERE ", "where", "SELECT ", "select", "FROM ", "ON ", "on", "IN", "AS y", " AS ", "UNION ", "UNION ALL ", "WITH ", "With ", "DISTINCT ", "LIMIT 1", "ORDER BY ", "ASC", " DESC", "NOT ", "NULL", "NULLS LAST",
	"*", "=", "<>", ":n", "::t", "@p", "é", "\xff", "''", "';'", "\")\"", "`,`", "[]", "{}", "{{.}}", "0", "1", "2", "-1", "1e9", "null", "true", "_order_1", "TRUE", "1=1"}

// odd are texts outside of quotes with meaning in templates.
var odd = []string{"?", "??", "$1", "$0", "$", "#f1", "#", "##", "#join('#f', ', ')", "'", "\"", "`", "#arg1", "?1"}

// parts is the number of places of a query a text can be in.
const parts = 16

// part puts the item, or the text of it, into a clause of the query.
func part(p int, it any) []ref.Op {
	f := func() *ref.Frag {
		if f, ok := it.(*ref.Frag); ok {
			return f
		}
		return &ref.Frag{Raw: "#f1", Items: []any{it}}
	}
	one := &ref.Frag{Raw: "1"}
	switch p {
	case 0:
		return []ref.Op{{Do: "With", Str: "cte", Items: []any{it}}, {Do: "With", Str: "foo", Items: []any{it}, Deps: []string{"cte"}}}
	case 1:
		return []ref.Op{{Do: "Union", Items: []any{it, one, it}}}
	case 2:
		return []ref.Op{{Do: "Where", Frag: f()}}
	case 3:
		return []ref.Op{{Do: "Where", Frag: one}, {Do: "Where", Frag: f()}, {Do: "Where", Frag: f()}, {Do: "Where2", Cols: []*ref.Col{ref.C("f", "w")}, Str: "=", Val: 1}}
	case 4:
		return []ref.Op{{Do: "Select", Cols: []*ref.Col{ref.X(f())}}}
	case 5:
		return []ref.Op{{Do: "Select", Cols: []*ref.Col{ref.C("f", "a"), ref.X(f()), ref.C("f", "b"), ref.X(f())}}}
	case 6:
		return []ref.Op{{Do: "GroupBy", Cols: []*ref.Col{ref.X(f()), ref.C("f", "b"), ref.X(f())}}}
	case 7:
		return []ref.Op{{Do: "OrderBy", Cols: []*ref.Col{ref.X(f())}, Order: 3}, {Do: "OrderBy", Cols: []*ref.Col{ref.X(one)}}}
	case 8:
		return []ref.Op{{Do: "OrderBy", Cols: []*ref.Col{ref.X(one)}, Order: 3}, {Do: "OrderBy", Cols: []*ref.Col{ref.X(f())}}, {Do: "Distinct"}}
	case 9:
		return []ref.Op{{Do: "LeftJoin", Tbl: tBar, On: f()}, {Do: "InnerJoin", Tbl: tBaz, On: f()}}
	case 10:
		return []ref.Op{{Do: "Where2", Cols: []*ref.Col{ref.X(f())}, Str: "=", Val: 1}}
	case 11:
		return []ref.Op{{Do: "WhereNotIn", Cols: []*ref.Col{ref.X(f())}, Val: []any{1, "x"}}}
	}
	switch p - 12 { // alone
	case 0:
		return []ref.Op{{Do: "GroupBy", Cols: []*ref.Col{ref.X(f())}}}
	case 1:
		return []ref.Op{{Do: "OrderBy", Cols: []*ref.Col{ref.X(f())}}}
	case 2:
		return []ref.Op{{Do: "InnerJoin", Tbl: tBar, On: f()}}
	case 3:
		return []ref.Op{{Do: "Union", Items: []any{it}}}
	}
	panic("ex: part")
}

func textParts(name string, thorough bool, places []int) *ex.Family {
	return textQueries(name, thorough, places, func(c *ex.C, q *ref.Query, _ any, _ bool) { judgeQuery0(c, q, false, c.Bool()) })
}

// textQueries judges queries with texts in item, which are odd or not.
func textQueries(name string, thorough bool, places []int, judge func(c *ex.C, q *ref.Query, item any, isOdd bool)) *ex.Family {
	return &ex.Family{Name: name, Rule: fmt.Sprintf("texts of %d atoms, before, after and around an x or not (thorough: of all pairs), or template syntax in an item which is no template, as fragment, its prefix, its suffix, custom builder, nested fragment, selected, last condition or union of a sub-query, in each of %d places of a query", len(atoms), len(places)),
		Body: func(c *ex.C) {
			p := places[c.N(len(places))]
			var s string
			isOdd := false
			kind := c.N(8)
			switch k := c.N(len(atoms) + 1); {
			case k < len(atoms):
				x := ex.Pick(c, "x", "")
				if !thorough {
					s = []string{atoms[k] + x, x + atoms[k], atoms[k] + x + atoms[k]}[c.N(3)]
				} else {
					s = atoms[k] + x + atoms[c.N(len(atoms))]
				}
			case kind > 1:
				c.Skip()
			default:
				kind, isOdd = 0, true
				s = ex.Pick(c, "", "a ") + odd[c.N(len(odd))] + ex.Pick(c, "", " b", odd[c.N(len(odd))])
			}
			if kind > 5 && strings.TrimSpace(s) != s {
				c.Skip() // whether a clause is trimmed is not specified
			}
			var it any
			raw := &ref.Frag{Raw: s}
			sel := ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("baz", "n")}}
			switch kind {
			case 0:
				it = textItem{s}
			case 1:
				it = raw
			case 2:
				it = &ref.Frag{Raw: "#f1", Items: []any{raw}}
			case 3:
				it = ref.Q(ref.Op{Do: "From", Tbl: tBaz}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(raw)}})
			case 4:
				it = ref.Q(ref.Op{Do: "From", Tbl: tBaz}, sel, ref.Op{Do: "Where", Frag: raw})
			case 5:
				it = ref.Q(ref.Op{Do: "From", Tbl: tBaz}, sel, ref.Op{Do: "Union", Items: []any{raw}})
			case 6:
				it = &ref.Frag{Raw: "r", Prefix: s}
			case 7:
				it = &ref.Frag{Raw: "r", Suffix: s}
			}
			q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
			q.Ops = append(q.Ops, part(p, it)...)
			judge(c, q, it, isOdd)
		}}
}

func init() {
	extend("C14", func(thorough bool) []*ex.Family {
		var all []int
		for i := 0; i < parts; i++ {
			all = append(all, i)
		}
		return []*ex.Family{textParts("texts", thorough, all)}
	})
	extend("C17", func(thorough bool) []*ex.Family {
		return []*ex.Family{textParts("bodies", thorough, []int{0})}
	})
	extend("C19", func(thorough bool) []*ex.Family {
		return []*ex.Family{textParts("texts", thorough, []int{7, 8, 13})}
	})
	extend("C27", func(thorough bool) []*ex.Family {
		places := []int{0, 1, 2, 4}
		if thorough {
			places = append(places, 3, 5, 6, 7, 8, 9, 10, 11)
		}
		debug := ref.Op{Do: "Debug"}
		f := textQueries("odd-texts", false, places, func(c *ex.C, q *ref.Query, item any, isOdd bool) {
			in, _ := item.(*ref.Query)
			var qs []*ref.Query
			n := 1
			if in != nil {
				n, qs = 3, append(qs, in)
			}
			switch c.N(n) {
			case 0:
				q.Ops = append(q.Ops, debug)
			case 1:
				in.Ops = append(in.Ops, debug)
			case 2:
				q.Ops, in.Ops = append(q.Ops, debug), append(in.Ops, debug)
			}
			if isOdd {
				// the text logged is not specified, but the result is
				judgeQuery0(c, q, false, c.Bool())
				return
			}
			debugQuery(c, nil, q, c.Bool(), qs...)
		})
		f.Serial = true
		return []*ex.Family{f}
	})
	extend("C05", func(thorough bool) []*ex.Family {
		texts := []string{"", "A", "B", "A B", "A B A", "B A", "AA", "WHERE", "WHERE x", "(", ")", "( )", ";", "A;", " A", "A ", "\t", "NOT", "--A", "a", "?", "$1", "#f1", "'A"}
		return []*ex.Family{{Name: "same-affixes", Rule: fmt.Sprintf("every prefix and suffix of %d texts around bodies made of the same texts, as template, item, item of its own prefix and suffix, custom builder, referenced once, twice or in #join", len(texts)),
			Body: func(c *ex.C) {
				body, p, s := texts[c.N(len(texts)-4)], texts[c.N(len(texts))], texts[c.N(len(texts))]
				in := &ref.Frag{Raw: body}
				var f *ref.Frag
				switch c.N(6) {
				case 0:
					f = &ref.Frag{Raw: body, Prefix: p, Suffix: s}
				case 1:
					f = &ref.Frag{Raw: "#f1", Items: []any{in}, Prefix: p, Suffix: s}
				case 2:
					f = &ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: body, Prefix: p, Suffix: s}}, Prefix: p, Suffix: s}
				case 3:
					f = &ref.Frag{Raw: "#join('#f', ' ')", Items: []any{&ref.Frag{Raw: body, Prefix: p}, textItem{s}, &ref.Frag{Raw: body, Suffix: s}}, Prefix: p, Suffix: s}
				case 4:
					f = &ref.Frag{Raw: "#f1 #f2 #f1", Items: []any{&ref.Frag{Raw: body, Prefix: p, Suffix: s}, textItem{body}}, Prefix: s, Suffix: p}
				case 5:
					f = &ref.Frag{Raw: "#f1 ?", Args: []any{1}, Items: []any{textItem{body}}, Prefix: p, Suffix: s}
				}
				c.Desc(func() string { return f.Show() })
				note(c, buildFrag(c, f, c.Bool(), false))
			}}, textFrags(thorough)}
	})
	extend("C07", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "unused-values", Rule: fmt.Sprintf("one arg of 12 kinds or item of 13 kinds, nil ones included, beside others which are used or not, unused in a template of each of %d atoms, alone, as an item or in a clause of a query", len(atoms)),
			Body: unusedValues}}
	})
	extend("C13", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "values", Rule: "up to 3 args of 14 kinds and up to 3 items of 8 kinds incl. nil ones and the same again, each list set or appended in up to two calls, with 10 texts as template, prefix and suffix: all fields, and the build if it is specified",
			Body: editValues}}
	})
}

type argStruct struct{ a, B int }

// editValues sets and appends values of all kinds.
func editValues(c *ex.C) {
	texts := []string{"", " ", "x", " x ", "?", "#f1", "$1", "'", "\n", "AND"}
	var s *string
	slice := []int{1, 2}
	values := []any{nil, 0, "", false, s, []any{}, []any{1}, slice, []byte("b"), argStruct{1, 2}, &argStruct{}, sqlf.F("f"), []string(nil), error(nil)}
	leaf := sqlf.F("l")
	var nilFrag *sqlf.Fragment
	var nilBuilder *sqlb.QueryBuilder
	items := []sqlf.FragmentBuilder{nil, leaf, sqlf.F(""), nilFrag, nilBuilder, sqlb.Table(""), sqlb.Table("t"), textItem{""}}
	f := sqlf.F("")
	var wantA []any
	var wantF []sqlf.FragmentBuilder
	what := ""
	c.Desc(func() string { return what })
	same := func(r *sqlf.Fragment) {
		if r != f {
			c.Failf("%s: the receiver is not returned", what)
		}
	}
	switch c.N(3) {
	case 0: // args
		n := c.N(4)
		for i := 0; i < n; i++ {
			wantA = append(wantA, values[c.N(len(values))])
		}
		k := c.N(n + 1)
		switch c.N(4) {
		case 0:
			what = fmt.Sprintf("Fa(%d of %#v), AppendArgs(rest)", k, wantA)
			f = sqlf.Fa("", wantA[:k:k]...)
			same(f.AppendArgs(wantA[k:]...))
		case 1:
			what = fmt.Sprintf("WithArgs(%d of %#v), AppendArgs(rest)", k, wantA)
			same(f.WithArgs(wantA[:k:k]...))
			same(f.AppendArgs(wantA[k:]...))
		case 2:
			what = fmt.Sprintf("AppendArgs(%d of %#v), AppendArgs(rest)", k, wantA)
			same(f.AppendArgs(wantA[:k:k]...))
			same(f.AppendArgs(wantA[k:]...))
		case 3:
			what = fmt.Sprintf("AppendArgs(%d of %#v), WithArgs(rest)", k, wantA)
			same(f.AppendArgs(wantA[:k:k]...))
			same(f.WithArgs(wantA[k:]...))
			wantA = wantA[k:]
		}
	case 1: // items
		n := c.N(4)
		for i := 0; i < n; i++ {
			wantF = append(wantF, items[c.N(len(items))])
		}
		k := c.N(n + 1)
		switch c.N(4) {
		case 0:
			what = fmt.Sprintf("Ff(%d of %#v), AppendFragments(rest)", k, wantF)
			f = sqlf.Ff("", wantF[:k:k]...)
			same(f.AppendFragments(wantF[k:]...))
		case 1:
			what = fmt.Sprintf("WithFragments(%d of %#v), AppendFragments(rest)", k, wantF)
			same(f.WithFragments(wantF[:k:k]...))
			same(f.AppendFragments(wantF[k:]...))
		case 2:
			what = fmt.Sprintf("AppendFragments(%d of %#v), AppendFragments(rest)", k, wantF)
			same(f.AppendFragments(wantF[:k:k]...))
			same(f.AppendFragments(wantF[k:]...))
		case 3:
			what = fmt.Sprintf("AppendFragments(%d of %#v), WithFragments(rest)", k, wantF)
			same(f.AppendFragments(wantF[:k:k]...))
			same(f.WithFragments(wantF[k:]...))
			wantF = wantF[k:]
		}
	case 2: // texts
		raw, p1, p, s1, s := texts[c.N(len(texts))], ex.Pick(c, "", "p"), texts[c.N(len(texts))], ex.Pick(c, "", "s"), texts[c.N(len(texts))]
		what = fmt.Sprintf("F(%q).WithPrefix(%q).WithPrefix(%q).WithSuffix(%q).WithSuffix(%q)", raw, p1, p, s1, s)
		switch c.N(3) {
		case 0:
			f = sqlf.F(raw)
		case 1:
			f = sqlf.Fa(raw)
		case 2:
			f = sqlf.Ff(raw)
		}
		same(f.WithPrefix(p1))
		same(f.WithPrefix(p))
		same(f.WithSuffix(s1))
		same(f.WithSuffix(s))
		if f.Raw != raw || f.Prefix != p || f.Suffix != s || len(f.Args)+len(f.Fragments) > 0 {
			c.Failf("%s makes %#v", what, *f)
		}
		want := ref.BuildQuery(&ref.Frag{Raw: raw, Prefix: p, Suffix: s}, false, nil)
		q, args, err := f.BuildQuery(ref.Style(false))
		compare(c, what, q, args, err, want)
		c.Traces(1)
		c.State(what)
		return
	}
	c.Traces(1)
	c.State(what)
	if f.Raw != "" || f.Prefix != "" || f.Suffix != "" || !SameValues(f.Args, wantA) || len(f.Fragments) != len(wantF) {
		c.Failf("%s makes %#v", what, *f)
	}
	for i, it := range wantF {
		if f.Fragments[i] != it {
			c.Failf("%s: item %d is %#v, want %#v", what, i+1, f.Fragments[i], it)
		}
	}
}

// textFrags are templates of odd texts around references.
func textFrags(thorough bool) *ex.Family {
	return &ex.Family{Name: "texts", Rule: fmt.Sprintf("fragments with %d atoms (thorough: all pairs) before, between and after bind variables, items and #join, as separators, in #join templates, as prefix and suffix", len(atoms)),
		Body: func(c *ex.C) {
			a := atoms[c.N(len(atoms))]
			b := a
			if thorough {
				b = atoms[c.N(len(atoms))]
			}
			q := strings.ReplaceAll
			esc := func(s string) string { return q(s, "'", "''") }
			f := &ref.Frag{Args: []any{1, "x"}, Items: []any{&ref.Frag{Raw: "i"}, textItem{b}}, Prefix: ex.Pick(c, "", a), Suffix: ex.Pick(c, "", b)}
			bind := ex.Pick(c, "??", "12", "21")
			v := func(i int) string {
				if bind == "??" {
					return "?"
				}
				return "$" + bind[i:i+1]
			}
			switch c.N(5) {
			case 0:
				f.Raw = a + v(0) + b + v(1) + a + "#f1" + b + "#f2" + a
			case 1:
				f.Raw = a + " " + v(0) + " " + b + " " + v(1) + " " + a + " #f(1) " + b + " #fragment2 " + a
			case 2:
				f.Raw = a + "#join('#arg', '" + esc(b) + "')" + b + "#join('#f', '" + esc(a) + "')" + a
			case 3:
				f.Raw = "#join('" + esc(a) + "#f" + esc(b) + "', '" + esc(a) + "')" + b + "#join('" + esc(b) + "#arg', ',')"
			case 4:
				f.Raw = "#join('" + esc(a) + "#f " + esc(b) + " #arg" + esc(a) + "', '" + esc(b) + "')"
			}
			c.Desc(func() string { return f.Show() })
			note(c, buildFrag(c, f, c.Bool(), false))
		}}
}

func unusedValues(c *ex.C) {
	var s *string
	values := []any{nil, 0, "", false, s, []any{}, []byte{}, struct{}{}, "x", error(nil), sqlf.F("f"), map[string]int(nil)}
	items := []any{nil, (*ref.Frag)(nil), &ref.Frag{}, &ref.Frag{Raw: "x"}, &ref.Frag{Raw: "?"}, &ref.Frag{Raw: " "}, (*ref.Query)(nil), ref.Q(), ref.TblItem{}, ref.TblItem{T: ref.Tbl{Name: "f"}}, textItem{""}, textItem{"x"}, ref.C("f", "x")}
	f := &ref.Frag{Raw: atoms[c.N(len(atoms))]}
	if c.Bool() { // an arg
		v := values[c.N(len(values))]
		switch c.N(5) {
		case 0:
			f.Args = []any{v}
		case 1:
			f.Args = []any{1, v}
			f.Raw += " ?"
		case 2:
			f.Args = []any{v, v}
			f.Raw += " $2"
		case 3:
			f.Args = []any{1, v, 2}
			f.Raw += " #join('#arg', ',', 3) #arg1"
		case 4:
			f.Args = []any{v}
			f.Items = []any{&ref.Frag{Raw: "?", Args: []any{v}}}
			f.Raw += " #f1"
		}
	} else {
		it := items[c.N(len(items))]
		used := &ref.Frag{Raw: "y"}
		switch c.N(8) {
		case 5:
			f.Items = []any{it, it}
			f.Raw += " #f1"
		case 6:
			f.Items = []any{it, it}
			f.Raw += " #f2"
		case 7:
			f.Items = []any{used, it, it, it}
			f.Raw += " #join('#f', ',', 1, 3)"
		case 0:
			f.Items = []any{it}
		case 1:
			f.Items = []any{used, it}
			f.Raw += " #f1"
		case 2:
			f.Items = []any{it, used}
			f.Raw += " #f2"
		case 3:
			f.Items = []any{used, it, used}
			f.Raw += " #join('#f', ',', 3) #f1"
		case 4:
			f.Items = []any{it, used}
			f.Args = []any{it == nil}
			f.Raw += " #join('#f', ',', 2, 2) ?"
		}
	}
	c.Desc(func() string { return f.Show() })
	switch p := c.N(parts + 3); p {
	case 0:
		note(c, buildFrag(c, f, c.Bool(), false))
	case 1:
		note(c, buildFrag(c, &ref.Frag{Raw: "#f1", Items: []any{f}, Prefix: "P"}, c.Bool(), false))
	case 2:
		note(c, buildFrag(c, &ref.Frag{Raw: "#join('#f', ',')", Items: []any{&ref.Frag{Raw: "z"}, f}}, c.Bool(), false))
	default:
		q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
		q.Ops = append(q.Ops, part(p-3, f)...)
		judgeQuery0(c, q, false, c.Bool())
	}
}

// names of functions which may be confused with each other.
var fnNames = []string{"a", "A", "aa", "aA", "_", "a_", "_a", "__", "f", "F", "ff", "fr", "fragment", "Fragment", "fragments", "arg", "Arg", "args", "argDollar", "join", "Join", "JOIN", "joins", "j", "true", "nil", "i", "I"}

func init() {
	extend("C10", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "similar-names", Rule: fmt.Sprintf("every pair of %d similar names of functions registered in one context or in two, one of them derived from the other, or none, and every of these names called by index and joined, in the context, its parent and a new root", len(fnNames)),
			Body: func(c *ex.C) {
				x, y := fnNames[c.N(len(fnNames))], fnNames[c.N(len(fnNames))]
				how := c.N(3)
				if how == 0 && x == y {
					c.Skip()
				}
				z := fnNames[c.N(len(fnNames))]
				raw := ex.Pick(c, "#"+z+"1", "#"+z+"(2)", "#join('#"+z+"', '+')")
				c.Desc(func() string { return fmt.Sprintf("#%s and #%s registered in way %d: %s", x, y, how, raw) })
				mk := func(name, id string) (sqlf.FuncMap, *ref.Fn) {
					return sqlf.FuncMap{name: func(i int) (string, error) { return fmt.Sprint(id, i), listEnd(i, 3) }},
						&ref.Fn{Params: numberParam, Join: true, Do: func(e *ref.Eval, _ *ref.Scope, args []any) (string, error) {
							i, ok := args[0].(int)
							if !ok {
								i = int(args[0].(float64))
							}
							return fmt.Sprint(id, i), listEnd(i, 3)
						}}
				}
				fx, mx := mk(x, "X")
				fy, my := mk(y, "Y")
				root := sqlf.NewContext(ref.Style(true))
				ctxs := []*sqlf.Context{root}
				funcs := []map[string]*ref.Fn{nil}
				derive := func(fm sqlf.FuncMap, m map[string]*ref.Fn) {
					ctx, err := sqlf.ContextWithFuncs(ctxs[len(ctxs)-1], fm)
					if err != nil {
						c.Failf("registering fails: %v", err)
					}
					all := map[string]*ref.Fn{}
					for k, v := range funcs[len(funcs)-1] {
						all[k] = v
					}
					for k, v := range m {
						all[k] = v
					}
					ctxs, funcs = append(ctxs, ctx), append(funcs, all)
				}
				switch how {
				case 0: // both in one
					fx[y] = fy[y]
					derive(fx, map[string]*ref.Fn{x: mx, y: my})
				case 1:
					derive(fx, map[string]*ref.Fn{x: mx})
					derive(fy, map[string]*ref.Fn{y: my})
				case 2:
					derive(fx, map[string]*ref.Fn{x: mx})
					derive(nil, nil)
				}
				f := &ref.Frag{Raw: raw}
				if strings.HasPrefix(z, "f") {
					f.Items = []any{&ref.Frag{Raw: "item"}}
				}
				for i, ctx := range ctxs {
					e := &ref.Eval{Dollar: true, Funcs: funcs[i]}
					want, werr := e.Build(f)
					got, err := (&ref.Impl{}).Fragment(f).BuildFragment(ctx)
					c.Traces(1)
					if e.Unspec {
						continue
					}
					if (err != nil) != (werr != nil) || got != want {
						c.Failf("in context %d it builds to %q (%v), want %q (%v)", i, got, err, want, werr)
					}
					c.State(fmt.Sprint(raw, got, err != nil))
				}
			}}}
	})
}
