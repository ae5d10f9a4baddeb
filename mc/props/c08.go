package props

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
)

// outcome judges the outcome of a build by form only: a result or an error.
// Panics are failures of the execution anyway.
func outcome(c *ex.C, what string, query string, args []any, err error) {
	if err != nil {
		if query != "" || args != nil {
			c.Failf("%s: on error (%v) the query is %q and the args are %d", what, err, query, len(args))
		}
		c.Class("error")
		c.State(what + " error")
		return
	}
	c.Class("ok")
	c.State(what + query)
}

type panicErr struct{ s *string }

func (e *panicErr) Error() string { return *e.s }

type sliceErr []int

func (e sliceErr) Error() string { return fmt.Sprint([]int(e)) }

type wrapIndexErr struct{}

func (wrapIndexErr) Error() string { return "wrapped" }
func (wrapIndexErr) Unwrap() error { return sqlf.ErrInvalidIndex }

// strange are the values a function panics with.
var strange = []func(){
	func() { panic("boom") },
	func() { panic(errors.New("boom")) },
	func() { panic(nil) },
	func() { panic(sqlf.ErrInvalidIndex) },
	func() { panic(wrapIndexErr{}) },
	func() { var s []int; _ = s[len(s)] },
	func() { var m map[string]int; m["a"] = 1 },
	func() { var p *sqlf.Fragment; _ = p.Raw },
	func() { panic((*panicErr)(nil)) },
	func() { panic(sliceErr{1}) },
	func() { panic(struct{ a []int }{}) },
	func() { panic(func() {}) },
}

type panicBuilder struct{ f func() }

func (p panicBuilder) BuildFragment(*sqlf.Context) (string, error) { p.f(); return "", nil }

type errBuilder struct{ err error }

func (p errBuilder) BuildFragment(*sqlf.Context) (string, error) { return "lost", p.err }

type nilBuilder struct{ f *sqlf.Fragment }

func (p *nilBuilder) BuildFragment(ctx *sqlf.Context) (string, error) { return p.f.BuildFragment(ctx) }

type embedded struct{ *sqlb.QueryBuilder }

func exoticArgs() []any {
	s := "s"
	return []any{nil, 1, "a", []byte("b"), (*int)(nil), []int{1}, map[string]int{}, func() {}, make(chan int), struct{ a []int }{[]int{1}}, [1]any{[]int{2}},
		math.NaN(), errors.New("e"), sqlf.F("x"), reflect.ValueOf(1), unsafe.Pointer(&s), &s, time.Time{}, complex(1, 2), (error)(nil), [0]int{}, struct{}{}, sliceErr{1}, any([]any{nil}), "'", "$1", uint64(math.MaxUint64)}
}

// fragmentLists are the items a template may meet.
func someBuilders() []sqlf.FragmentBuilder {
	return []sqlf.FragmentBuilder{
		sqlf.F("y"), nil, (*sqlf.Fragment)(nil), (*sqlb.QueryBuilder)(nil), (*sqlb.Column)(nil), (*nilBuilder)(nil), &nilBuilder{}, sqlb.ExprColumn(nil),
		sqlb.Table(""), sqlb.TableAliased{}, errBuilder{errors.New("e")}, errBuilder{sqlf.ErrInvalidIndex}, errBuilder{(*panicErr)(nil)}, errBuilder{sliceErr{1}},
		panicBuilder{func() { panic("p") }}, panicBuilder{func() { panic(nil) }}, panicBuilder{func() { panic(sqlf.ErrInvalidIndex) }},
		sqlf.F("$"), sqlf.Fa("?", 1), sqlb.NewQueryBuilder(), embedded{}, embedded{sqlb.NewQueryBuilder()}, (*embedded)(nil), sqlf.Ff("#f1", (*sqlf.Fragment)(nil)), sqlf.Ff("#f1", nil), sqlf.F("#join('#f', '')"),
		sqlb.NewQueryBuilder().Select(sqlb.Table("t").Column("a")).From(sqlb.NewTableAliased("t", "")),
	}
}

type namedInteger int8
type namedString string
type namedBoolean bool

func c08Funcs() sqlf.FuncMap {
	return sqlf.FuncMap{
		"none":     func() {},
		"ctx":      func(ctx *sqlf.Context) string { return ctx.CommitArg(1) },
		"i":        func(i int) string { return fmt.Sprint(i) },
		"u":        func(i uint8, b bool) (string, error) { return fmt.Sprint(i, b), nil },
		"fl":       func(ctx *sqlf.Context, f float32, s ...string) string { return fmt.Sprint(f, s) },
		"va":       func(b ...bool) {},
		"s":        func(s string, i ...uint64) (string, error) { return s, nil },
		"named":    func(i namedInteger, s namedString, b ...namedBoolean) string { return string(s) },
		"j":        func(i int64) (string, error) { return "j", listEnd(int(i), 3) },
		"jf":       func(ctx *sqlf.Context, f float64) (string, error) { return "jf", listEnd(int(f), 2) },
		"jv":       func(i ...int) (string, error) { return "jv", listEnd(i[0], 2) },
		"jnever":   func(i uint) (string, error) { return "jn", nil },
		"jpanic":   func(i int) (string, error) { panic("always") },
		"jend":     func(i int) (string, error) { panic(sqlf.ErrInvalidIndex) },
		"jlate":    func(i int8) (string, error) { return "", listEnd(int(i), 200) },
		"nilctx":   func(ctx *sqlf.Context, i int) (string, error) { return sqlf.Fa("?", 1).BuildFragment(nil) },
		"deep":     func(ctx *sqlf.Context, s string) (string, error) { return sqlf.F(s).BuildFragment(ctx) },
		"strange_": func(i int) (string, error) { strange[i](); return "", nil },
	}
}

func listEnd(i, n int) error {
	if i < 1 || i > n {
		return sqlf.ErrInvalidIndex
	}
	return nil
}

func init() {
	log.SetOutput(io.Discard)
	register(&Check{ID: "C08", Assumptions: []string{
		"Fragments do not contain themselves, registered functions terminate and have an end when used in #join.",
		"Out of scope: the zero value of Context and QueryBuilder, builders of the user which panic when used directly as CTE or union.",
		"A hang is an execution which takes longer than 60 s (usual: microseconds) or needs more than 6 GB.",
	}, Families: func(thorough bool) []*ex.Family {
		tokens := []string{"$1", "$2", "$0", "?", "#f1", "#f2", "#f", "#arg1", "#arg", "#join('#f',',')", "#join('#arg', '', 2)", "#join('#f=#arg','',1,2)", "#join('#join','')", "#join('',''", "#join1", "#x", "#x()", "#fragment(1)", "'", "(", ")", ",", "x", "\x00", "\xff"}
		depth := choose(thorough, 3, 4)
		build := func(c *ex.C, f *sqlf.Fragment, style syntax.BindVarStyle) {
			q, args, err := f.BuildQuery(style)
			outcome(c, f.Raw, q, args, err)
		}
		lits := []string{"1", "0", "-1", "2", "1.5", "9223372036854775807", "1e3", "99999999999999999999999999", "''", "'#f'", "'#arg'", "'$1'", "'#j'", "true", "null", "nil", "'#'", "300", "x", ""}
		return []*ex.Family{
			{Name: "templates", Rule: fmt.Sprintf("all sequences of up to %d of %d tokens with 0..2 args and 0..2 fragments of 3 kinds, both styles", depth, len(tokens)),
				Body: func(c *ex.C) {
					f := &sqlf.Fragment{}
					dollar := c.Bool()
					supply := c.N(7)
					f.Raw = symbols(c, depth, tokens)
					switch supply {
					case 1:
						f.Args = []any{1}
					case 2:
						f.Args = []any{[]byte("x"), nil}
						f.Fragments = []sqlf.FragmentBuilder{sqlf.Fa("?", []byte("x"))}
					case 3:
						f.Fragments = []sqlf.FragmentBuilder{sqlf.F("y")}
					case 4:
						f.Args = []any{1}
						f.Fragments = []sqlf.FragmentBuilder{nil}
					case 5:
						f.Args = []any{1, map[int]int{}}
						f.Fragments = []sqlf.FragmentBuilder{sqlf.F("z"), errBuilder{sqlf.ErrInvalidIndex}}
					case 6:
						f.Fragments = []sqlf.FragmentBuilder{(*sqlf.Fragment)(nil), panicBuilder{func() { panic("p") }}}
					}
					c.Desc(func() string { return fmt.Sprintf("Dollar=%v supply %d, %q", dollar, supply, f.Raw) })
					style := syntax.Question
					if dollar {
						style = syntax.Dollar
					}
					build(c, f, style)
				}},
			{Name: "calls", Rule: fmt.Sprintf("every built-in function and 18 registered ones called with all lists of up to %d of %d literals", choose(thorough, 3, 4), len(lits)),
				Body: func(c *ex.C) {
					names := []string{"f", "fragment", "arg", "join", "none", "ctx", "i", "u", "fl", "va", "s", "named", "j", "jf", "jv", "deep", "jpanic", "nilctx"}
					name := names[c.N(len(names))]
					var l []string
					for n := c.N(choose(thorough, 3, 4) + 1); n > 0; n-- {
						l = append(l, lits[c.N(len(lits))])
					}
					f := sqlf.F("a #" + name + "(" + strings.Join(l, ",") + ")").WithArgs("v").WithFragments(sqlf.Fa("?", 1))
					c.Desc(func() string { return f.Raw })
					ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), c08Funcs())
					if err != nil {
						c.Failf("registering: %v", err)
					}
					q, err := f.BuildFragment(ctx)
					outcome(c, f.Raw, q, nil, err)
					if name == "join" && len(l) > 1 {
						// used otherwise, so that unused items are no matter
						q, err = f.WithSuffix("s").WithPrefix("p").BuildFragment(ctx)
						outcome(c, f.Raw, q, nil, err)
					}
				}},
			{Name: "joins", Rule: "#join templates over every registered function (panicking, ending late, without index error), with every range -1..4, huge and fractional numbers",
				Body: func(c *ex.C) {
					names := []string{"f", "fragment", "arg", "join", "none", "ctx", "i", "u", "fl", "va", "s", "named", "j", "jf", "jv", "deep", "jpanic", "jend", "jlate", "nilctx", "jnever", "strange_", "unknown"}
					nums := []string{"-1", "0", "1", "2", "3", "4", "1.5", "9223372036854775807", "-9223372036854775808", "null", "true", "'1'", "1000000000000"}
					t := "#" + names[c.N(len(names))]
					switch c.N(4) {
					case 1:
						t += ",#" + names[c.N(len(names))]
					case 2:
						t += "$1#f1"
					case 3:
						t = "(" + t + ")#f2"
					}
					r := ""
					for n := c.N(3); n > 0; n-- {
						r += "," + nums[c.N(len(nums))]
					}
					f := sqlf.F("#join('"+t+"', ','"+r+")").WithArgs(1, 2, 3).WithFragments(sqlf.F("a"), sqlf.F(""))
					if c.Bool() {
						f.Raw += "#arg1#arg2#arg3#f1#f2"
					}
					c.Desc(func() string { return f.Raw })
					ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), c08Funcs())
					if err != nil {
						c.Failf("registering: %v", err)
					}
					q, err := f.BuildFragment(ctx)
					outcome(c, f.Raw, q, nil, err)
				}},
			{Name: "panicking", Rule: "functions and builders panicking with 12 kinds of values, called alone, in #join at index 1..4, twice, nested, in every clause of a query builder",
				Body: func(c *ex.C) {
					k := c.N(len(strange))
					at := 1 + c.N(4)
					use := c.N(12)
					asFunc := c.Bool()
					c.Desc(func() string { return fmt.Sprintf("panic %d at %d, use %d, function %v", k, at, use, asFunc) })
					ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ex.Pick(c, syntax.Question, syntax.Dollar)), sqlf.FuncMap{
						"g": func(i int) (string, error) {
							if i == at {
								strange[k]()
							}
							return "g", listEnd(i, 6)
						},
						"h": func() { strange[k]() },
					})
					if err != nil {
						c.Failf("registering: %v", err)
					}
					var f *sqlf.Fragment
					if asFunc {
						f = sqlf.F(ex.Pick(c, "#h()", fmt.Sprintf("#g%d", at), "x #join('#g', ',')", "#join('#g', ',', 2, 5)", "#g5#g4#g3#g2#g1"))
					} else {
						f = sqlf.F(ex.Pick(c, "#f1#f2#f3#f4", "#join('#f', ',')", "#join('#f #arg', ',', 1, 4)")).WithFragments(sqlf.F("a"), sqlf.F("b"), sqlf.F("c"), sqlf.F("d")).WithArgs(1, 2, 3, 4)
						f.Fragments[at-1] = panicBuilder{strange[k]}
						if !strings.Contains(f.Raw, "#arg") {
							f.Args = nil
						}
					}
					tb := sqlb.NewTableAliased("t", "x")
					qb := func() *sqlb.QueryBuilder { return sqlb.NewQueryBuilder().Select(tb.Column("a")).From(tb) }
					var b sqlf.FragmentBuilder
					switch use {
					case 0:
						b = f
					case 1:
						b = sqlf.Ff("(#f1)", f)
					case 2:
						b = sqlf.Ff("#join('#f', ',')", sqlf.F("1"), f)
					case 3:
						b = qb().Select(sqlb.ExprColumn(f))
					case 4:
						b = qb().Where(f)
					case 5:
						b = qb().GroupBy(sqlb.ExprColumn(f))
					case 6:
						b = qb().OrderBy(sqlb.ExprColumn(f), sqlb.Asc)
					case 7:
						b = qb().OrderBy(sqlb.ExprColumn(f), sqlb.Asc).Distinct()
					case 8:
						b = qb().LeftJoin(sqlb.NewTableAliased("u", ""), f)
					case 9:
						b = qb().With("t", f)
					case 10:
						b = qb().Union(f)
					case 11:
						b = qb().Where(sqlf.Ff("#f1", qb().Where(f)))
					}
					q, err := b.BuildFragment(ctx)
					if err == nil && (at < 5 && (!asFunc || !strings.Contains(f.Raw, "2, 5") || at > 1)) && !(k == 3 || k == 4) {
						c.Failf("the panic is not reported, built to %q", q)
					}
					outcome(c, fmt.Sprint(use, f.Raw), q, nil, err)
				}},
			{Name: "values", Rule: "each of 27 exotic arg values in each kind of reference, twice, in both styles, as constructed by each constructor, with and without Debug",
				Body: func(c *ex.C) {
					vs := exoticArgs()
					v, w := vs[c.N(len(vs))], vs[c.N(len(vs))]
					raw := ex.Pick(c, "$1 $2 $1 $2", "? ? #arg1", "#join('#arg', ',')", "#arg1,#arg2", "#f1$1$2")
					var f *sqlf.Fragment
					switch c.N(3) {
					case 0:
						f = sqlf.Fa(raw, v, w)
					case 1:
						f = sqlf.F(raw).WithArgs(v, w)
					case 2:
						f = sqlf.F(raw).AppendArgs(v).AppendArgs(w)
					}
					if raw[0] == '#' && raw[1] == 'f' {
						f.AppendFragments(sqlf.Fa("#join('#arg','')", w, v))
					}
					style := ex.Pick(c, syntax.Question, syntax.Dollar, syntax.BindVarStyle(7), syntax.BindVarStyle(-1))
					c.Desc(func() string { return fmt.Sprintf("%q with %T and %T, style %d", raw, v, w, style) })
					build(c, f, style)
					t := sqlb.Table("t")
					b := sqlb.NewQueryBuilder().Select(t.Column("a")).From(sqlb.NewTableAliased(t, "")).Where(f).Where2(t.Column("b"), "=", v).WhereIn(t.Column("c"), w).WhereNotIn(sqlb.ExprColumn(f), v)
					b.Debug()
					c.Traces(1)
					q, args, err := b.BuildQuery(style)
					outcome(c, "builder", q, args, err)
				}},
			{Name: "items", Rule: "each pair of 27 fragments and builders (nil of all kinds, failing, panicking, invalid) in each kind of reference",
				Body: func(c *ex.C) {
					bs := someBuilders()
					a, b := bs[c.N(len(bs))], bs[c.N(len(bs))]
					raw := ex.Pick(c, "#f1 #f2", "#join('#f', ',')", "#fragment2,#fragment1,#f1", "#join('#f-#fragment', ',', 2, 2)#f1", "#f3")
					style := ex.Pick(c, syntax.Question, syntax.Dollar)
					c.Desc(func() string { return fmt.Sprintf("%q of %T and %T", raw, a, b) })
					build(c, sqlf.Ff(raw, a, b), style)
					build(c, sqlf.F(raw).WithFragments(a).AppendFragments(b), style)
					build(c, sqlf.Ff("#join('#f','')", sqlf.Ff(raw, a, b)), style)
				}},
			{Name: "builder-calls", Rule: fmt.Sprintf("all sequences of up to %d of %d builder calls with nil, empty, failing and panicking columns, fragments, CTEs and unions, after nothing, Select or Select and From, built twice in both styles and nested, with and without Debug", choose(thorough, 2, 3), len(badCalls)),
				Body: func(c *ex.C) {
					b := sqlb.NewQueryBuilder()
					start := c.N(3)
					if start >= 1 {
						b.Select(sqlb.Table("t").Column("a"))
					}
					if start == 2 {
						b.From(sqlb.NewTableAliased("t", ""))
					}
					var h []int
					for n := c.N(choose(thorough, 2, 3)); n >= 0; n-- {
						k := c.N(len(badCalls))
						h = append(h, k)
					}
					c.Desc(func() string { return fmt.Sprintf("start %d, calls %v of badCalls", start, h) })
					for _, k := range h {
						badCalls[k](b)
					}
					for i := 0; i < 2; i++ {
						q, args, err := b.BuildQuery(syntax.Dollar)
						outcome(c, fmt.Sprint(h), q, args, err)
					}
					b.Debug()
					q, args, err := b.BuildQuery(syntax.Question)
					outcome(c, fmt.Sprint(h), q, args, err)
					q, args, err = sqlf.Ff("#f1?", b).WithArgs(1).BuildQuery(syntax.Dollar)
					outcome(c, fmt.Sprint(h), q, args, err)
					q, err = b.BuildFragment(nil)
					outcome(c, fmt.Sprint(h), q, nil, err)
				}},
			{Name: "registering", Rule: "each pair of 20 names and 24 values registered, on each of 3 contexts, then called",
				Body: func(c *ex.C) {
					names := []string{"f", "join", "a", "", "a1", "1", "_", "é", "日本", "a b", "#a", "\x00", "\xff", "A-B", "arg", "fragment", "x.y", "a\n", "'", "ß"}
					var nilFn func(int) string
					vals := []any{nil, nilFn, 1, "s", func() {}, func(int) string { return "" }, func(any) string { return "" }, func(...any) {}, func(*sqlf.Context) {}, func(...*sqlf.Context) {}, func(int, *sqlf.Context) {}, func() error { return nil },
						func() (string, bool) { return "", true }, func() (string, error, int) { return "", nil, 1 }, func(chan int) {}, func([]int) {}, func(...[]int) {}, func(func()) {}, reflect.ValueOf(func() {}), &struct{}{}, sqlf.F, func(sqlf.Context) {}, func(complex128) {}, func(uintptr) {}}
					name, v := names[c.N(len(names))], vals[c.N(len(vals))]
					var ctx *sqlf.Context
					switch c.N(3) {
					case 0:
						ctx = sqlf.NewContext(syntax.Dollar)
					case 1:
						ctx, _ = sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), sqlf.FuncMap{"a": func() string { return "parent" }})
					case 2:
						ctx, _ = sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), nil)
					}
					c.Desc(func() string { return fmt.Sprintf("#%s registered as %T", name, v) })
					n, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{name: v, "other": func(i int) (string, error) { return "o", listEnd(i, 2) }})
					if err != nil {
						c.Class("refused")
						c.State(name)
						return
					}
					for _, raw := range []string{"#" + name, "#" + name + "()", "#" + name + "1", "#join('#" + name + "', ',')", "#" + name + "('', 1, true)", "#join('#other', '+')"} {
						q, err := sqlf.F(raw).BuildFragment(n)
						outcome(c, raw, q, nil, err)
						c.Traces(1)
					}
				}},
			{Name: "sizes", Rule: "templates of 0..3000 (thorough 20000) repetitions of 10 units, numbers of 1..400 digits, 1000s of args",
				Body: func(c *ex.C) {
					unit := ex.Pick(c, "?", "#f1", "(", "#join(", "'", "''", "#f(", "#join('#f',',')", "\n", "$1")
					n := c.N(choose(thorough, 300, 2000)) * 10
					f := sqlf.F(strings.Repeat(unit, n)).WithFragments(sqlf.F("y"))
					if c.Bool() {
						f.Args = make([]any, n)
					}
					c.Desc(func() string { return fmt.Sprintf("%d times %q, %d args", n, unit, len(f.Args)) })
					build(c, f, ex.Pick(c, syntax.Question, syntax.Dollar))
				}},
			{Name: "digits", Rule: "references and arguments of 1..400 digits",
				Body: func(c *ex.C) {
					d := strings.Repeat(fmt.Sprint(c.N(10)), 1+c.N(400))
					f := sqlf.F(ex.Pick(c, "$", "?", "#f", "#arg", "#join('#f',',',", "#join('#f',',',1,", "#f(-", "#f(0.") + d).WithArgs(1).WithFragments(sqlf.F("x"))
					if strings.Contains(f.Raw, "(") {
						f.Raw += ")"
					}
					c.Desc(func() string { return f.Raw })
					build(c, f, syntax.Question)
				}},
			{Name: "interpolate", Rule: "Interpolate of all sequences of up to 3 tokens with each of 27 exotic values, and of builders' debug output",
				Body: func(c *ex.C) {
					vs := exoticArgs()
					i := c.N(len(vs) + 1)
					var args []any
					if i < len(vs) {
						args = []any{vs[i]}
					}
					q := symbols(c, 3, []string{"?", "$1", "$2", "#f1", "'", "x", "-", "\x00", "$", "#f("})
					c.Desc(func() string { return fmt.Sprintf("Interpolate(%q, %T)", q, args) })
					s, err := util.Interpolate(q, args)
					outcome(c, q, s, nil, err)
				}},
		}
	}})
}

// badCalls are builder calls with unusual arguments.
var badCalls = func() []func(b *sqlb.QueryBuilder) {
	t := sqlb.NewTableAliased("t", "")
	u := sqlb.NewTableAliased("u", "v")
	var calls []func(b *sqlb.QueryBuilder)
	add := func(f func(b *sqlb.QueryBuilder)) { calls = append(calls, f) }
	cols := []*sqlb.Column{nil, sqlb.ExprColumn(nil), sqlb.ExprColumn(sqlf.F("$")), sqlb.Table("").Column(""), {}, sqlb.ExprColumn(sqlf.Ff("#f1", nil)), u.Column("x"), sqlb.ExprColumn(sqlf.Ff("#f1", panicBuilder{strange[2]}))}
	for _, col := range cols {
		col := col
		add(func(b *sqlb.QueryBuilder) { b.Select(col, col) })
		add(func(b *sqlb.QueryBuilder) { b.GroupBy(col) })
		add(func(b *sqlb.QueryBuilder) { b.OrderBy(col, sqlb.Desc) })
		add(func(b *sqlb.QueryBuilder) { b.Where2(col, "=", nil) })
		add(func(b *sqlb.QueryBuilder) { b.WhereIn(col, nil) })
	}
	frs := []*sqlf.Fragment{nil, {}, sqlf.F("$1"), sqlf.Ff("#f1", nil), sqlf.Ff("#f1#f2", (*sqlf.Fragment)(nil), (*sqlb.Column)(nil)), sqlf.Ff("#f1", panicBuilder{strange[0]}), sqlf.F("x").WithPrefix("ON")}
	for _, f := range frs {
		f := f
		add(func(b *sqlb.QueryBuilder) { b.Where(f) })
		add(func(b *sqlb.QueryBuilder) { b.LeftJoinOptional(u, f) })
		add(func(b *sqlb.QueryBuilder) { b.InnerJoin(t, f) })
	}
	for _, x := range []sqlf.FragmentBuilder{nil, (*sqlf.Fragment)(nil), (*sqlb.QueryBuilder)(nil), (*sqlb.Column)(nil), sqlb.NewQueryBuilder(), embedded{}, errBuilder{errors.New("e")}, sqlf.F("")} {
		x := x
		add(func(b *sqlb.QueryBuilder) { b.Union(x, x) })
		add(func(b *sqlb.QueryBuilder) { b.With("t", x, "u", "", "t") })
		add(func(b *sqlb.QueryBuilder) { b.With("", x) })
	}
	add(func(b *sqlb.QueryBuilder) { b.Union() })
	add(func(b *sqlb.QueryBuilder) { b.Select() })
	add(func(b *sqlb.QueryBuilder) { b.Select(nil...) })
	add(func(b *sqlb.QueryBuilder) { b.CrossJoin(u) })
	add(func(b *sqlb.QueryBuilder) { b.CrossJoin(sqlb.TableAliased{}) })
	add(func(b *sqlb.QueryBuilder) { b.From(sqlb.TableAliased{}) })
	add(func(b *sqlb.QueryBuilder) { b.From(u) })
	add(func(b *sqlb.QueryBuilder) { b.From(t) })
	add(func(b *sqlb.QueryBuilder) { b.Distinct() })
	add(func(b *sqlb.QueryBuilder) { b.OrderBy(nil, 1000) })
	add(func(b *sqlb.QueryBuilder) { b.Limit(math.MinInt64).Offset(math.MinInt64) })
	add(func(b *sqlb.QueryBuilder) { b.WhereNotIn(u.Column("x"), []any{nil, []byte("x"), map[int]int{}}) })
	add(func(b *sqlb.QueryBuilder) { b.WhereIn(u.Column("x"), (*[]int)(nil)) })
	return calls
}()
