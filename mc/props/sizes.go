package props

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// extend adds families to the check.
func extend(id string, more func(thorough bool) []*ex.Family) {
	ch := All[id]
	old := ch.Families
	ch.Families = func(thorough bool) []*ex.Family { return append(old(thorough), more(thorough)...) }
}

// sizes are the sizes up to max: all small ones, and the ones around the powers
// of two and ten, where buffers, counters and caches end.
func sizes(max int) []int {
	var l []int
	add := func(n int) {
		if n <= max && (len(l) == 0 || n > l[len(l)-1]) {
			l = append(l, n)
		}
	}
	for n := 0; n <= 17; n++ {
		add(n)
	}
	marks := []int{20, 24, 32, 40, 48, 50, 64, 80, 96, 100, 128, 200, 250, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 50000, 65536, 100000, 131072}
	for _, m := range marks {
		d := 1
		if m >= 64 {
			d = 2
		}
		for i := -d; i <= d; i++ {
			add(m + i)
		}
	}
	return l
}

func sizeOf(c *ex.C, max int) int {
	l := sizes(max)
	return l[c.N(len(l))]
}

const sizesRule = " (0..17 and the sizes around 20, 32, 50, 64, 100, 128, 200, 256, ... powers of two and ten)"

// templates of size n for the parser, and whether n may be large.
var sizedTemplates = []struct {
	name string
	max  int
	mk   func(n int) string
}{
	{"text", 131074, func(n int) string { return strings.Repeat("a", n) + "?#f1" }},
	{"wide text", 65538, func(n int) string { return strings.Repeat("é", n) + "$1" }},
	{"invalid UTF-8", 65538, func(n int) string { return strings.Repeat("\xff", n) + "$1" }},
	{"lines", 131074, func(n int) string { return strings.Repeat("\n", n) + " $1" }},
	{"lines and columns", 65538, func(n int) string { return strings.Repeat("\nab", n) + strings.Repeat("c", n) + "#f" }},
	{"quoted", 131074, func(n int) string { return "'" + strings.Repeat("q", n) + "'?" }},
	{"quoted references", 16386, func(n int) string { return "\"" + strings.Repeat("$1?", n) + "\"#f" }},
	{"quoted lines", 65538, func(n int) string { return "`" + strings.Repeat("\n", n) + "`?" }},
	{"doubled quotes", 65538, func(n int) string { return "'" + strings.Repeat("''", n) + "' ?" }},
	{"open quote", 65538, func(n int) string { return "a'" + strings.Repeat("q$1", n) }},
	{"bind variables", 65538, func(n int) string { return strings.Repeat("? ", n) }},
	{"indexed", 16386, func(n int) string {
		b := new(strings.Builder)
		for i := 1; i <= n; i++ {
			fmt.Fprintf(b, "$%d,", i)
		}
		return b.String()
	}},
	{"index", 131074, func(n int) string { return fmt.Sprintf("$%d x", n) }},
	{"function index", 131074, func(n int) string { return fmt.Sprintf("#fn%d x", n) }},
	{"number argument", 131074, func(n int) string { return fmt.Sprintf("#fn(%d,-%d.5)", n, n) }},
	{"zeros", 300, func(n int) string { return "$" + strings.Repeat("0", n) + "1" }},
	{"name", 131074, func(n int) string { return "#" + strings.Repeat("n", n) + "x(1)?" }},
	{"names", 16386, func(n int) string { return strings.Repeat("#fn ", n) + "?" }},
	{"calls", 16386, func(n int) string { return strings.Repeat("#f('a',1)", n) + "?" }},
	{"arguments", 16386, func(n int) string { return "#f(1" + strings.Repeat(",1", n) + ")?" }},
	{"string arguments", 16386, func(n int) string { return "#f(''" + strings.Repeat(", 'a'", n) + ")?" }},
	{"string argument", 65538, func(n int) string { return "#f('" + strings.Repeat("s", n) + "')?" }},
	{"lines in an argument", 65538, func(n int) string { return "#f('" + strings.Repeat("\n", n) + "')?" }},
	{"spaces in a call", 65538, func(n int) string { return "#f(" + strings.Repeat(" ", n) + "1," + strings.Repeat(" ", n) + "'a')?" }},
	{"escapes", 65538, func(n int) string { return strings.Repeat("??", n) + "$1" }},
	{"other escapes", 65538, func(n int) string { return strings.Repeat("$$", n) + "?" }},
	{"hashes", 1026, func(n int) string { return strings.Repeat("a", n) + "#" }},
	{"open call", 16386, func(n int) string { return "?#f('a'" + strings.Repeat(",1", n) }},
	{"open string", 16386, func(n int) string { return "?#f('" + strings.Repeat("a", n) }},
	{"brackets", 16386, func(n int) string { return strings.Repeat("(", n) + "?" + strings.Repeat(")", n) }},
	{"dollars", 1026, func(n int) string { return strings.Repeat("a", n) + "$0" }},
}

func sizedParse(pos bool) func(bool) []*ex.Family {
	return func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: fmt.Sprintf("%d forms of templates of sizes up to 131074 (of text, lines, quoted text, names, indexes, arguments, references...)", len(sizedTemplates)) + sizesRule, Body: func(c *ex.C) {
			t := sizedTemplates[c.N(len(sizedTemplates))]
			n := sizeOf(c, t.max)
			s := t.mk(n)
			if c.Bool() {
				s = "x? " + s
			}
			judgeParse(c, s, pos)
			c.Desc(func() string { return fmt.Sprintf("Parse of %s of size %d", t.name, n) })
		}}}
	}
}

// counter is a builder of the user's which builds to another text each time.
// The numbers start over with each build.
type counter struct {
	impl, model *int
	arg         bool
}

func newCounter(arg bool) counter { return counter{new(int), new(int), arg} }

func (t counter) Show() string { return "counter" }
func (t counter) BuildFragment(ctx *sqlf.Context) (string, error) {
	*t.impl++
	if t.arg {
		return ctx.CommitArg(*t.impl), nil
	}
	return fmt.Sprintf("n%d", *t.impl), nil
}
func (t counter) RefBuild(e *ref.Eval) (string, error) {
	*t.model++
	if t.arg {
		return e.Commit(*t.model), nil
	}
	return fmt.Sprintf("n%d", *t.model), nil
}

func wideCase(c *ex.C, kind, k int, build bool) {
	f := &ref.Frag{}
	ps := make([]string, 0, k)
	for i := 1; i <= k; i++ {
		switch kind {
		case 0, 1, 2, 3, 4:
			f.Args = append(f.Args, i)
		default:
			f.Items = append(f.Items, &ref.Frag{Raw: "a=?", Args: []any{i}})
		}
		switch kind {
		case 0:
			ps = append(ps, "?")
		case 1:
			ps = append(ps, fmt.Sprintf("$%d", i))
		case 2:
			ps = append(ps, fmt.Sprintf("$%d", k+1-i))
		case 3:
			ps = append(ps, fmt.Sprintf("#arg%d", i))
		case 6:
			ps = append(ps, fmt.Sprintf("#f%d", k+1-i))
		case 8:
			f.Args = append(f.Args, -i/2)
		}
	}
	switch kind {
	case 4:
		ps = append(ps, "#join('#arg', ', ')")
	case 5:
		ps = append(ps, "#join('#f', ', ')")
	case 7:
		if k > 0 {
			ps = append(ps, fmt.Sprintf("#join('#f', ', ', 1, %d)", (k+1)/2), fmt.Sprintf("#join('#f', ' ', %d)", k/2+1))
		}
	case 8:
		ps = append(ps, "#join('#arg=#f', ', ')")
	case 9: // one unused
		ps = append(ps, "#join('#f', ',', 2)")
	case 10: // one too many
		ps = append(ps, "#join('#f', ',')", fmt.Sprintf("#f%d", k+1))
	case 11:
		ps = append(ps, "#join('#f', ',')", fmt.Sprintf("#join('#f', ';', 1, %d)", k+1))
	}
	f.Raw = strings.Join(ps, ",")
	c.Desc(func() string { return fmt.Sprintf("%s build of kind %d with %d items", styleName(build), kind, k) })
	note(c, buildFrag(c, f, build, true))
}

// sizedFrags are the fragments of many items and of many levels.
func sizedFrags(thorough bool) []*ex.Family {
	wide, deep := choose(thorough, 1026, 4098), choose(thorough, 514, 4098)
	return []*ex.Family{
		{Name: "large", Rule: fmt.Sprintf("up to %d args and fragments referenced by each of 12 kinds of lists, complete, with one unused, and with one too many", wide) + sizesRule, Body: func(c *ex.C) {
			kind := c.N(12)
			build := c.Bool()
			wideCase(c, kind, sizeOf(c, wide), build)
		}},
		{Name: "very-deep", Rule: fmt.Sprintf("fragments nested up to %d deep by 5 kinds of references, custom builders among them, with args on each level, or an invalid fragment at the bottom", deep) + sizesRule, Body: func(c *ex.C) {
			kind := c.N(5)
			bad := c.N(4)
			build := c.Bool()
			k := sizeOf(c, deep)
			f := &ref.Frag{Raw: "z=?", Args: []any{0}}
			switch bad {
			case 1:
				f.Args = append(f.Args, 1) // unused
			case 2:
				f.Raw = "#f1 ?" // none there
			case 3:
				f.Raw = "?" // nothing but an arg
			}
			for i := 1; i <= k; i++ {
				p := []string{"#f1 b=$1", "b=$1 #fragment(1)", "#join('(#f)', ',') #arg1", "#arg1 #join('#f', ',')", "$1 #f1"}[kind]
				var it any = f
				if kind == 4 {
					it = wrapItem{f}
				}
				f = &ref.Frag{Raw: p, Args: []any{i % 7}, Items: []any{it}}
			}
			c.Desc(func() string {
				return fmt.Sprintf("%s build of %d levels of kind %d, bottom %d", styleName(build), k, kind, bad)
			})
			note(c, buildFrag(c, f, build, true))
		}},
	}
}

// oddErrors are errors of other packages which have a meaning to somebody.
func oddErrors() []error {
	return []error{
		errors.New("boom"), errors.New("invalid index"), errors.New("invalid index 3"), errors.New(sqlf.ErrInvalidIndex.Error()), fmt.Errorf("x: %s", sqlf.ErrInvalidIndex),
		io.EOF, fmt.Errorf("w: %w", io.EOF), io.ErrUnexpectedEOF, sql.ErrNoRows, sql.ErrTxDone, sql.ErrConnDone, driver.ErrSkip, driver.ErrRemoveArgument,
		context.Canceled, context.DeadlineExceeded, os.ErrNotExist, errors.ErrUnsupported, strconv.ErrRange, strconv.ErrSyntax,
	}
}

func init() {
	extend("C01", sizedParse(false))
	extend("C25", sizedParse(true))

	extend("C02", func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "large", Rule: "text of up to 131074 of 12 units, at 6 places: before, between and behind references, in quotes, in an item, in a #join and as prefix and suffix" + sizesRule, Body: func(c *ex.C) {
				u := ex.Pick(c, "a", "é", "日", "\xff", "??", "$$", "''", "a b ", "\n", "x\r\n", "\x00", "--")
				place := c.N(6)
				max := 131074
				if len(u) > 1 {
					max = 16386
				}
				n := sizeOf(c, max)
				if u == "''" && place == 4 {
					c.Skip() // ends the string
				}
				s := "[" + strings.Repeat(u, n) + "]"
				var f *sqlf.Fragment
				want := s
				a, b := sqlf.F("A"), sqlf.F("B")
				switch place {
				case 0:
					f, want = sqlf.Ff(s+"#f1", a), s+"A"
				case 1:
					f, want = sqlf.Ff("#f1"+s+"#f2"+s, a, b), "A"+s+"B"+s
				case 2:
					s = "\"" + s + "\""
					f, want = sqlf.Ff("#f(1)"+s+"#f(2)", a, b), "A"+s+"B"
				case 3:
					f, want = sqlf.Ff("#f1,#f2,#f1", sqlf.F(s), b), s+",B,"+s
				case 4:
					f, want = sqlf.Ff("#join('#f', '"+s+"')", a, b), "A"+s+"B"
				case 5:
					f, want = sqlf.F("m").WithPrefix(s).WithSuffix(s), s+" m "+s
				}
				c.Desc(func() string { return fmt.Sprintf("%d times %q in place %d", n, u, place) })
				got, _, err := f.BuildQuery(ref.Style(c.Bool()))
				if err != nil {
					c.Failf("failed: %v", err)
				}
				if got != want {
					c.Failf("built to a text of %d bytes, want %d: they differ at byte %d", len(got), len(want), firstDiff(got, want))
				}
				c.State(fmt.Sprint(place, u, n))
			}},
		}
	})

	for _, id := range []string{"C03", "C05", "C06", "C07"} {
		extend(id, sizedFrags)
	}

	extend("C04", func(thorough bool) []*ex.Family {
		max := choose(thorough, 1026, 8194)
		return []*ex.Family{{Name: "large", Rule: fmt.Sprintf("up to %d different args of 6 types, with the first, the middle and the last one referenced once more behind, by 5 ways to reference, or all of them equal", max) + sizesRule, Body: func(c *ex.C) {
			typ := c.N(7)
			how := c.N(5)
			n := sizeOf(c, max)
			val := func(i int) any {
				switch typ {
				case 0:
					return i
				case 1:
					return fmt.Sprint(i)
				case 2:
					return float64(i) / 4
				case 3:
					return [1]any{i}
				case 4:
					return small{i}
				case 5: // of different types
					return []any{int64(i / 5), int32(i / 5), uint(i / 5), strconv.Itoa(i / 5), named(i / 5)}[i%5]
				}
				return "same"
			}
			var seq []any
			for i := 0; i < n; i++ {
				seq = append(seq, val(i))
			}
			if n > 0 {
				seq = append(seq, val(n-1), val(0), val(n/2), val(n), val(n-1), val(n))
			}
			c.Desc(func() string { return fmt.Sprintf("%d args of type %d in way %d", n, typ, how) })
			f := &ref.Frag{Args: seq}
			switch how {
			case 0:
				ctx := sqlf.NewContext(ref.Style(true))
				e := &ref.Eval{Dollar: true}
				for i, v := range seq {
					if got, want := ctx.CommitArg(v), e.Commit(v); got != want {
						c.Failf("commit %d returns %q, want %q", i, got, want)
					}
				}
				if !SameValues(ctx.Args(), e.Args) {
					c.Failf("the args differ")
				}
				c.State(fmt.Sprint(n, typ, len(e.Args)))
				return
			case 1:
				f.Raw = strings.Repeat("? ", len(seq))
			case 2:
				f.Raw = "#join('#arg', ',')"
			case 3:
				f.Args = nil
				for _, v := range seq {
					f.Items = append(f.Items, &ref.Frag{Raw: "$1", Args: []any{v}})
				}
				f.Raw = "#join('#f', ',')"
			case 4:
				f.Args = nil
				for len(seq) > 0 {
					k := min(len(seq), 7)
					f.Items = append(f.Items, argItem{seq[:k]})
					seq = seq[k:]
				}
				f.Raw = "#join('#f', ',')"
			}
			note(c, buildFrag(c, f, true, true))
		}}}
	})

	extend("C05", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "stateful", Rule: "custom builders which build to another text or arg each time, referenced in all sequences of up to 5 of 9 direct references: each reference is replaced by a build of its own", Body: func(c *ex.C) {
			build := c.Bool()
			a, b := newCounter(c.Bool()), newCounter(c.Bool())
			var items []any
			switch c.N(3) {
			case 0:
				items = []any{a, b}
			case 1:
				items = []any{a, a}
			case 2:
				items = []any{a, &ref.Frag{Raw: "<#f1#f1>", Items: []any{a}}}
			}
			f := &ref.Frag{Items: items}
			for n := 1 + c.N(5); n > 0; n-- {
				f.Raw += ex.Pick(c, "#f1 ", "#f2 ", "#fragment(1),", "#fragment2 ")
			}
			f.Raw += "#f1#f2"
			c.Desc(func() string { return styleName(build) + " build of " + f.Raw })
			for i := 0; i < 2; i++ {
				note(c, buildFrag(c, f, build, true))
				c.Traces(1)
			}
		}}}
	})

	extend("C09", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "variadic functions of 4 types called with up to 4098 arguments, with the context or not, strings of up to 65538 bytes, functions calling fragments calling functions 514 deep" + sizesRule, Body: func(c *ex.C) {
			switch c.N(3) {
			case 0:
				n := sizeOf(c, 4098)
				ctxToo := c.Bool()
				fixed := c.N(3)
				typ := c.N(4)
				lit := func(i int) string {
					switch typ {
					case 0:
						return fmt.Sprint(i)
					case 1:
						return fmt.Sprintf("'s%d'", i)
					case 2:
						return fmt.Sprint(i%3 == 0)
					}
					return fmt.Sprintf("-%d.5", i)
				}
				var ls []string
				want := ""
				for i := 0; i < n+fixed; i++ {
					if i < fixed {
						ls = append(ls, fmt.Sprint(i))
						want += fmt.Sprint(i) + ";"
						continue
					}
					ls = append(ls, lit(i))
					want += strings.Trim(lit(i), "'") + ","
				}
				c.Desc(func() string {
					return fmt.Sprintf("type %d, %d fixed and %d variadic arguments, context %v", typ, fixed, n, ctxToo)
				})
				got, err := callVariadic(typ, fixed, ctxToo, "#v("+strings.Join(ls, ",")+")")
				if err != nil || got != want {
					c.Failf("called to %q (%v), want %q", got, err, want)
				}
				c.State(fmt.Sprint(typ, fixed, n))
			case 1:
				n := sizeOf(c, 65538)
				u := ex.Pick(c, "a", "é", "''", "\n")
				s := strings.Repeat(u, n)
				c.Desc(func() string { return fmt.Sprintf("%d times %q as argument", n, u) })
				want := strings.ReplaceAll(s, "''", "'")
				var seen string
				ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{"s": func(_ int, s string) string { seen = s; return s + "|" }})
				if err != nil {
					c.Failf("registering: %v", err)
				}
				got, err := sqlf.F("#s(1, '" + s + "')").BuildFragment(ctx)
				if err != nil || seen != want || got != strings.TrimSpace(want+"|") {
					c.Failf("the function is given %d bytes, and %d are built (%v), want %d", len(seen), len(got), err, len(want))
				}
				c.State(fmt.Sprint(u, n))
			case 2:
				n := sizeOf(c, 514)
				c.Desc(func() string { return fmt.Sprintf("a function building a fragment calling it, %d deep", n) })
				ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{"down": func(ctx *sqlf.Context, i int) (string, error) {
					if i == 0 {
						return ctx.CommitArg("bottom"), nil
					}
					return sqlf.Fa(fmt.Sprintf("(?#down(%d))", i-1), i).BuildFragment(ctx)
				}})
				if err != nil {
					c.Failf("registering: %v", err)
				}
				got, err := sqlf.F(fmt.Sprintf("#down(%d)", n)).BuildFragment(ctx)
				want := ""
				for i := 1; i <= n; i++ {
					want += fmt.Sprintf("($%d", i)
				}
				want += fmt.Sprintf("$%d", n+1) + strings.Repeat(")", n)
				if err != nil || got != want || len(ctx.Args()) != n+1 {
					c.Failf("built to %q (%v), want %q", got, err, want)
				}
				c.State(fmt.Sprint(n))
			}
		}}}
	})

	extend("C10", func(thorough bool) []*ex.Family {
		pool := []string{"a", "A", "aa", "Aa", "f", "F", "arg", "Arg", "ARG", "join", "Join", "fragment", "Fragment", "_", "a_", "_a", "é", "É", "ſ", "s", "K", "\u212a", "日本"}
		return []*ex.Family{
			{Name: "names", Rule: fmt.Sprintf("every pair of %d names that look alike (in case, in prefix, or like built-in ones), each registered in any of 3 chained contexts, resolved in all of them", len(pool)), Body: func(c *ex.C) {
				a, b := pool[c.N(len(pool))], pool[c.N(len(pool))]
				if a == b {
					c.Skip()
				}
				w := &world{c: c}
				c.Desc(func() string { return strings.Join(w.log, "; ") })
				w.newRoot(true)
				for i := 0; i < 3; i++ {
					fm := sqlf.FuncMap{}
					merged := map[string]*ref.Fn{}
					for k, v := range w.funcs[i] {
						merged[k] = v
					}
					s := ""
					for _, n := range []string{a, b} {
						if !c.Bool() {
							continue
						}
						text := fmt.Sprintf("%s of c%d", n, i+1)
						fm[n] = func() string { return text }
						merged[n] = &ref.Fn{Do: func(*ref.Eval, *ref.Scope, []any) (string, error) { return text, nil }}
						s += " " + n
					}
					w.log = append(w.log, fmt.Sprintf("c%d=ContextWithFuncs(c%d,%s)", i+1, i, s))
					ctx, err := sqlf.ContextWithFuncs(w.ctxs[i], fm)
					if err != nil {
						c.Failf("registering: %v", err)
					}
					w.ctxs, w.root, w.funcs = append(w.ctxs, ctx), append(w.root, 0), append(w.funcs, merged)
				}
				for i := range w.ctxs {
					for _, n := range []string{a, b, strings.ToUpper(a), strings.ToLower(b)} {
						f := &ref.Frag{Raw: "#" + n + "()"}
						if w.funcs[i][n] == nil && (n == "join" || n == "f" || n == "arg" || n == "fragment") {
							f = &ref.Frag{Raw: "#" + n + "1", Args: []any{n}}
							if n == "f" || n == "fragment" {
								f = &ref.Frag{Raw: "#" + n + "1", Items: []any{textItem{"item"}}}
							}
							if n == "join" {
								f = &ref.Frag{Raw: "#join('#arg', ',')", Args: []any{n}}
								if w.funcs[i]["arg"] != nil {
									continue
								}
							}
						}
						e := w.evals[0]
						e.Funcs = w.funcs[i]
						want, werr := e.Build(f)
						got, err := (&ref.Impl{}).Fragment(f).BuildFragment(w.ctxs[i])
						c.Traces(1)
						if (err != nil) != (werr != nil) || got != want {
							c.Failf("%s in c%d builds to %q (%v), want %q (%v)", f.Show(), i, got, err, want, werr)
						}
					}
				}
				c.State(strings.Join(w.log, ";"))
			}},
			{Name: "very-deep", Rule: "functions of the root, of a derived context, and built-in ones resolved in fragments nested up to 514 (thorough 4098) deep, and in chains of contexts of such lengths" + sizesRule, Body: func(c *ex.C) {
				n := sizeOf(c, choose(thorough, 514, 4098))
				chain := c.Bool()
				where := c.N(3)
				w := &world{c: c}
				w.newRoot(c.Bool())
				if where > 0 {
					w.derive(0, 1)
				}
				if where > 1 {
					w.derive(1, 2)
				}
				c.Desc(func() string { return fmt.Sprintf("%s, %d levels (chain: %v)", strings.Join(w.log, "; "), n, chain) })
				bottom := ex.Pick(c, "#a()", "#b()#a()", "#f1", "#join('#f', ',')", "#nope()")
				f := &ref.Frag{Raw: bottom}
				if strings.Contains(bottom, "#f") {
					f.Items = []any{textItem{"1"}, textItem{"2"}}
				}
				i := len(w.ctxs) - 1
				ctx := w.ctxs[i]
				for k := 0; k < n; k++ {
					if chain {
						x, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"other": func() string { return "other" }})
						if err != nil {
							c.Failf("registering: %v", err)
						}
						ctx = x
						continue
					}
					ref := "#fragment1"
					if where == 2 {
						ref = "#fragment(1)" // #f is another function
					}
					f = &refFrag{Raw: ref, Items: []any{f}}
				}
				e := w.evals[0]
				e.Funcs = w.funcs[i]
				want, werr := e.Build(f)
				if e.Unspec {
					c.Skip()
				}
				got, err := (&ref.Impl{}).Fragment(f).BuildFragment(ctx)
				if (err != nil) != (werr != nil) || got != want {
					c.Failf("built to %q (%v), want %q (%v)", got, err, want, werr)
				}
				if err == nil && !sameArgs(w.ctxs[0].Args(), e.Args) {
					c.Failf("the args of the root are %s, want %s", ref.ShowValues(w.ctxs[0].Args()), ref.ShowValues(e.Args))
				}
				c.State(fmt.Sprint(n, chain, where, bottom))
			}},
		}
	})

	extend("C13", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "up to 1026 args and fragments appended to two fragments and context at a time, one by one, in twos or all at once, in turns, from slices with spare capacity" + sizesRule, Body: func(c *ex.C) {
			n := sizeOf(c, choose(thorough, 1026, 8194))
			step := ex.Pick(c, 1, 2, n+1)
			start := ex.Pick(c, 0, 1, 3)
			c.Desc(func() string { return fmt.Sprintf("%d appended by %d to %d", n, step, start) })
			base := newList[any]("base", start, "b0", "b1", "b2", "SENTINEL", "SENTINEL")
			items := newList[sqlf.FragmentBuilder]("items", start, textItem{"b0"}, textItem{"b1"}, textItem{"b2"}, textItem{"SENTINEL"})
			var fs [2]*sqlf.Fragment
			var want [2][]any
			var texts [2][]string
			for i := range fs {
				fs[i] = sqlf.F("#join('#arg', ',')#join('#f', ',')").WithArgs(base.s...).WithFragments(items.s...)
				want[i] = append([]any{}, base.s...)
				for _, it := range items.s {
					texts[i] = append(texts[i], it.(textItem).Text)
				}
			}
			for k := 0; k < n; k += step {
				for i, f := range fs {
					var vs []any
					var its []sqlf.FragmentBuilder
					for j := k; j < k+step && j < n; j++ {
						vs = append(vs, fmt.Sprint(i, j))
						its = append(its, textItem{fmt.Sprint("t", i, j)})
						texts[i] = append(texts[i], fmt.Sprint("t", i, j))
					}
					want[i] = append(want[i], vs...)
					f.AppendArgs(vs...).AppendFragments(its...)
					for j := range vs { // they're the caller's
						vs[j], its[j] = "changed", textItem{"changed"}
					}
				}
			}
			for i, f := range fs {
				if !SameValues(f.Args, want[i]) || len(f.Fragments) != len(texts[i]) {
					c.Failf("fragment %d has args %s and %d fragments, want %s and %d", i+1, ref.ShowValues(f.Args), len(f.Fragments), ref.ShowValues(want[i]), len(texts[i]))
				}
				q, args, err := f.BuildQuery(syntax.Question)
				w := strings.TrimSuffix(strings.Repeat("?,", len(want[i])), ",") + strings.Join(texts[i], ",")
				if err != nil || q != w || !SameValues(args, want[i]) && len(want[i]) > 0 {
					c.Failf("fragment %d builds to %q %s (%v), want %q", i+1, q, ref.ShowValues(args), err, w)
				}
			}
			base.check(c, SameValue)
			items.check(c, func(a, b sqlf.FragmentBuilder) bool { return a == b })
			c.State(fmt.Sprint(n, step, start))
		}}}
	})

	extend("C14", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "up to 258 (thorough 1026) calls of each kind on one builder" + sizesRule, Body: func(c *ex.C) {
			i := c.N(manyKinds)
			judgeQuery(c, manyCalls(i, sizeOf(c, choose(thorough, 258, 1026))))
		}}}
	})
	extend("C15", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "2 clauses of 9 kinds of up to 130 (thorough 514) args each, fresh or shared, in one builder or one in a sub-query of the other" + sizesRule, Body: func(c *ex.C) {
			a, b := c.N(manyKinds), c.N(manyKinds)
			n := sizeOf(c, choose(thorough, 130, 514))
			m := ex.Pick(c, 1, 3, n)
			x, y := manyCalls(a, n), manyCalls(b, m)
			var q *ref.Query
			switch c.N(2) {
			case 0:
				if a == b {
					c.Skip()
				}
				q = ref.Q(append(append([]ref.Op{}, x.Ops...), y.Ops[2:]...)...)
			case 1:
				q = x
				q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "? IN (#f1) AND ?", Args: []any{-1, "last"}, Items: []any{y}}})
			}
			if c.Bool() {
				q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
			}
			judgeQuery(c, q)
		}}}
	})
	extend("C16", func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "deep-references", Rule: fmt.Sprintf("each of %d ways to refer to a table in each of %d places, 0..300 levels of fragments deep, linked in 3 ways", mentions, places) + sizesRule, Body: func(c *ex.C) {
				n := sizeOf(c, choose(thorough, 302, 1026))
				k, p := c.N(mentions), c.N(places)
				link := c.N(3)
				it := mention(k, "o")
				for i := 0; i < n; i++ {
					switch link {
					case 0:
						it = &ref.Frag{Raw: "(#f1)", Items: []any{it}}
					case 1:
						it = ref.X(&ref.Frag{Raw: "x#f1", Items: []any{it}})
					case 2:
						it = &ref.Frag{Raw: "#join('#f', '+')", Items: []any{&ref.Frag{Raw: "1"}, it}}
					}
				}
				q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "opt", Alias: "o"}, On: &ref.Frag{Raw: "1"}},
					ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "unused", Alias: "u"}, On: &ref.Frag{Raw: "2"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}}, place(p, it), ref.Op{Do: "Distinct"})
				judgeQuery(c, q, true)
				c.Desc(func() string { return fmt.Sprintf("mention %d in place %d, %d levels of link %d deep", k, p, n, link) })
			}},
			{Name: "long-chains", Rule: "chains of up to 130 (thorough 514) optional joins each referring to the next or the previous one in ON, declared in either order, one of them (first, middle, last, none) mentioned in SELECT or WHERE" + sizesRule, Body: func(c *ex.C) {
				n := sizeOf(c, choose(thorough, 130, 514))
				back, up := c.Bool(), c.Bool()
				at := ex.Pick(c, -1, 0, n/2, n-1)
				name := func(i int) string { return fmt.Sprintf("t%d", i) }
				q := ref.Q(ref.Op{Do: "From", Tbl: tFoo})
				for k := 0; k < n; k++ {
					i := k
					if back {
						i = n - 1 - k
					}
					o := ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "t", Alias: name(i)}, On: &ref.Frag{Raw: "end"}}
					to := i + 1
					if up {
						to = i - 1
					}
					if to >= 0 && to < n {
						o.On = on(ref.C(name(i), "id"), ref.C(name(to), "id"))
					}
					q.Ops = append(q.Ops, o)
				}
				q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "Distinct"})
				if at >= 0 {
					if at >= n {
						c.Skip()
					}
					q.Ops = append(q.Ops, place(c.N(2), ref.C(name(at), "x")))
				}
				judgeQuery(c, q, true)
				c.Desc(func() string { return fmt.Sprintf("%d joins, backwards %v, up %v, %d mentioned", n, back, up, at) })
			}},
			{Name: "long-names", Rule: "tables and aliases of up to 1026 bytes which differ in the last byte, or one is the start of the other" + sizesRule, Body: func(c *ex.C) {
				n := sizeOf(c, 1026)
				s := strings.Repeat("n", n)
				a, b := s+"a", ex.Pick(c, s+"b", s, s+"aa", s+"A", "x"+s+"a")
				if b == "" {
					c.Skip()
				}
				q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "t", Alias: a}, On: &ref.Frag{Raw: "1"}},
					ref.Op{Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: b}, On: &ref.Frag{Raw: "2"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}},
					place(c.N(places), mention(c.N(mentions), ex.Pick(c, a, b))), ref.Op{Do: "Distinct"})
				judgeQuery(c, q, true)
			}},
		}
	})
	extend("C17", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "chains, stars, ladders and unrelated sets of up to 258 (thorough 1026) CTEs, declared forwards or backwards, with the first, the middle or the last one used" + sizesRule, Body: func(c *ex.C) {
			n := sizeOf(c, choose(thorough, 258, 1026))
			shape := c.N(4)
			back := c.Bool()
			if n == 0 {
				c.Skip()
			}
			use := ex.Pick(c, 0, n/2, n-1)
			q := &ref.Query{}
			for k := 0; k < n; k++ {
				i := k
				if back {
					i = n - 1 - k
				}
				var deps []string
				switch shape {
				case 0: // chain
					if i+1 < n {
						deps = []string{cteName(i + 1)}
					}
				case 1: // star
					if i == use {
						for j := 0; j < n; j++ {
							if j != i {
								deps = append(deps, cteName(j))
							}
						}
					}
				case 2: // ladder with many paths
					for j := 1; j <= 2; j++ {
						if i+j < n {
							deps = append(deps, cteName(i+j))
						}
					}
				}
				q.Ops = append(q.Ops, ref.Op{Do: "With", Str: cteName(i), Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{i}}}, Deps: deps})
			}
			q.Ops = append(q.Ops, ref.Op{Do: "From", Tbl: ref.Tbl{Name: cteName(use), Alias: "x"}}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}})
			judgeQuery(c, q)
			c.Desc(func() string { return fmt.Sprintf("%d CTEs of shape %d, backwards %v, c%d used", n, shape, back, use) })
		}}}
	})
	extend("C18", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "queries with up to 258 joins, conditions, columns, orders or union members, of which the first, the middle or the last (or none) is invalid in 4 ways, built twice" + sizesRule, Body: func(c *ex.C) {
			n := sizeOf(c, choose(thorough, 258, 1026))
			kind := c.N(6)
			if n == 0 {
				c.Skip()
			}
			bad := ex.Pick(c, -1, 0, n/2, n-1)
			how := 0
			if bad >= 0 {
				how = c.N(3)
			}
			q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
			col := func(i int) *ref.Col {
				if i != bad {
					return ref.C("f", fmt.Sprint("c", i))
				}
				return []*ref.Col{ref.C("gone", "c"), ref.X(&ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: "#f1", Items: []any{ref.C("gone", "c")}}}}), ref.X(&ref.Frag{Raw: "$2", Args: []any{1}})}[how]
			}
			for i := 0; i < n; i++ {
				switch kind {
				case 0:
					q.Ops[1].Cols = append(q.Ops[1].Cols, col(i))
				case 1:
					q.Ops = append(q.Ops, ref.Op{Do: "LeftJoin", Tbl: ref.Tbl{Name: "t", Alias: fmt.Sprint("t", i)}, On: eq(col(i), i)})
				case 2:
					q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: eq(col(i), i)})
				case 3:
					q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{col(i)}})
				case 4:
					q.Ops = append(q.Ops, ref.Op{Do: "GroupBy", Cols: []*ref.Col{col(i)}})
				case 5:
					q.Ops = append(q.Ops, ref.Op{Do: "Union", Items: []any{ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{col(i)}}, ref.Op{Do: "From", Tbl: tFoo})}})
				}
			}
			stepwise(c, q, func(int) bool { return false })
			c.Desc(func() string { return fmt.Sprintf("%d parts of kind %d, %d is invalid in way %d", n, kind, bad, how) })
		}}}
	})
	extend("C19", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "up to 1026 (thorough 4098) ordering columns in one or in many calls, DISTINCT or not" + sizesRule, Body: func(c *ex.C) {
			n := sizeOf(c, choose(thorough, 1026, 4098))
			q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "a")}})
			for i := 0; i < n; i++ {
				col := ref.C("f", fmt.Sprint("o", i))
				if i%5 == 3 {
					col = ref.X(&ref.Frag{Raw: "o(?)", Args: []any{i}})
				}
				q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{col}, Order: sqlb.Order(i % 6)})
			}
			if c.Bool() {
				q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
			}
			judgeQuery(c, q)
			c.Desc(func() string { return fmt.Sprintf("%d ordering columns", n) })
		}}}
	})
	extend("C20", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "names, aliases and columns of up to 65538 bytes, and up to 4098 columns made at once" + sizesRule, Body: func(c *ex.C) {
			which := c.N(4)
			max := 65538
			if which == 3 {
				max = 4098
			}
			n := sizeOf(c, max)
			s := strings.Repeat(ex.Pick(c, "n", "é", "\"q\""), n)
			switch which {
			case 0:
				judgeNames(c, ref.Tbl{Name: "t" + s, Alias: "a"}, "c")
			case 1:
				judgeNames(c, ref.Tbl{Name: "t", Alias: "a" + s}, "c")
			case 2:
				judgeNames(c, ref.Tbl{Name: "t", Alias: "a"}, "c"+s)
			case 3:
				var names []string
				for i := 0; i < n; i++ {
					names = append(names, fmt.Sprint("c", i))
				}
				t := sqlb.NewTableAliased("t", "a")
				for k, cols := range [][]*sqlb.Column{t.Columns(names...), t.AnonymousColumns(names...), sqlb.Table("a").Columns(names...)} {
					if len(cols) != n {
						c.Failf("%d columns, want %d", len(cols), n)
					}
					for i, col := range cols {
						w := "a." + names[i]
						if k == 1 {
							w = names[i]
						}
						if got, err := col.BuildFragment(sqlf.NewContext(syntax.Dollar)); err != nil || got != w {
							c.Failf("column %d is %q (%v), want %q", i+1, got, err, w)
						}
					}
				}
				c.State(fmt.Sprint(n))
			}
			c.Desc(func() string { return fmt.Sprintf("names %d of size %d", which, n) })
		}}}
	})
	extend("C21", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "strings of up to 65538 of 6 units, up to 4098 placeholders of both styles and of 9 types of values, text of up to 65538 bytes around" + sizesRule, Body: func(c *ex.C) {
			var q string
			var ls []lit
			switch c.N(3) {
			case 0:
				u := ex.Pick(c, "a", "'", "é", "a'", "\n", "?")
				n := sizeOf(c, 65538)
				s := strings.Repeat(u, n)
				q, ls = "a ? b $2", []lit{{v: s, want: quoted(s)}, {v: valuerT{strT(s)}, want: quoted("str:" + s)}}
				c.Desc(func() string { return fmt.Sprintf("string of %d times %q", n, u) })
			case 1:
				n := sizeOf(c, 4098)
				typ := c.N(9)
				dollar := c.Bool()
				b := new(strings.Builder)
				for i := 0; i < n; i++ {
					l := []lit{{v: i, want: fmt.Sprint(i)}, {v: -i - 1, want: fmt.Sprint(-i - 1)}, {v: fmt.Sprint("s'", i), want: fmt.Sprintf("'s''%d'", i)}, {v: i%2 == 0, want: strings.ToUpper(fmt.Sprint(i%2 == 0))}, {v: nil, want: "NULL"},
						{v: float64(i) / 2, want: fmt.Sprintf("%.6f", float64(i)/2)}, {v: uint8(i), want: fmt.Sprint(uint8(i))}, {v: sql.NullInt64{Int64: int64(i), Valid: true}, want: fmt.Sprint(i)}, {v: strInt(i), want: fmt.Sprintf("'it''s %d'", i)}}[typ]
					ls = append(ls, l)
					if dollar {
						fmt.Fprintf(b, "$%d,", n-i)
					} else {
						b.WriteString("?,")
					}
				}
				q = b.String()
				c.Desc(func() string { return fmt.Sprintf("%d values of type %d, dollar %v", n, typ, dollar) })
			case 2:
				n := sizeOf(c, 65538)
				u := ex.Pick(c, "a", "é", "\n", "'$1'", "\"?\"", "- ")
				s := strings.Repeat(u, n)
				q, ls = s+"$1"+s+" ", []lit{{v: -1, want: "-1"}}
				c.Desc(func() string { return fmt.Sprintf("query with %d times %q around", n, u) })
			}
			judgeInterp(c, q, ls)
		}}}
	})
	extend("C22", func(thorough bool) []*ex.Family {
		return []*ex.Family{{Name: "large", Rule: "lists of up to 65538 elements of 6 types in 4 shapes, alone, between others, or as up to 65538 arguments; WhereIn with up to 4098 elements" + sizesRule, Body: func(c *ex.C) {
			switch c.N(3) {
			case 0:
				typ, shape := c.N(6), c.N(4)
				n := sizeOf(c, choose(thorough, 16386, 65538))
				arg, want := bigList(typ, n, shape)
				args := []any{arg}
				if c.Bool() {
					args = []any{"first", arg, nil, arg, 1}
					w := append([]any{"first"}, want...)
					w = append(append(w, nil), want...)
					want = append(w, 1)
				}
				c.Desc(func() string { return fmt.Sprintf("list of %d elements of type %d, shape %d", n, typ, shape) })
				judgeFlat(c, args, want)
				c.State(fmt.Sprint(typ, shape, n))
			case 1:
				n := sizeOf(c, 65538)
				var args []any
				var want []any
				for i := 0; i < n; i++ {
					switch i % 3 {
					case 0:
						args, want = append(args, i), append(want, i)
					case 1:
						args, want = append(args, []int{i, -i}), append(want, i, -i)
					case 2:
						args = append(args, []string{})
					}
				}
				c.Desc(func() string { return fmt.Sprintf("%d arguments", n) })
				judgeFlat(c, args, want)
				c.State(fmt.Sprint(n))
			case 2:
				n := sizeOf(c, choose(thorough, 1026, 4098))
				typ := c.N(3)
				arg, _ := bigList(typ, n, c.N(4))
				q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: ex.Pick(c, "WhereIn", "WhereNotIn"), Cols: []*ref.Col{ref.C("f", "x")}, Val: arg},
					ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "y")}, Str: "=", Val: "last"})
				judgeQuery(c, q)
				c.Desc(func() string { return fmt.Sprintf("WhereIn with %d elements", n) })
			}
		}}}
	})
	extend("C23", func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "large", Rule: "results of up to 65538 rows (of 3 columns: 1026) and up to 1026 columns, as many or fewer fields" + sizesRule, Body: func(c *ex.C) {
				rows, cols := 2, 0
				if c.Bool() {
					cols = ex.Pick(c, 0, 1, 3)
					rows = sizeOf(c, choose(thorough || cols < 3, 1026, 65538))
				} else {
					cols = sizeOf(c, choose(thorough, 1026, 4098))
				}
				fields := ex.Pick(c, 0, 1, cols/2, cols-1, cols, cols+1)
				if fields < 0 {
					c.Skip()
				}
				c.Desc(func() string { return fmt.Sprintf("%d rows of %d columns into %d fields", rows, cols, fields) })
				d := &fakeDB{cols: cols, nextAt: -1, numInput: -1}
				for i := 0; i < rows; i++ {
					r := make([]driver.Value, cols)
					for k := range r {
						r[k] = int64(i*cols + k)
					}
					d.rows = append(d.rows, r)
				}
				d.with(c, false, func(q *caller) {
					got, err := util.Scan(q, "q", nil, func() ([]int64, []any) {
						vals := make([]int64, fields)
						dest := make([]any, fields)
						for k := range dest {
							dest[k] = &vals[k]
						}
						return vals, dest
					})
					if fields > cols && rows > 0 {
						if err == nil || len(got) > 0 {
							c.Failf("%d rows and error %v for too many fields", len(got), err)
						}
						return
					}
					if err != nil || len(got) != rows {
						c.Failf("%d rows and error %v, want %d", len(got), err, rows)
					}
					for i, vals := range got {
						for k, v := range vals {
							if v != int64(i*cols+k) {
								c.Failf("row %d, field %d is %d", i+1, k+1, v)
							}
						}
					}
				})
				c.State(fmt.Sprint(rows, cols, fields))
			}},
			{Name: "error-kinds", Rule: "each of 19 errors with a meaning elsewhere (io.EOF, sql.ErrNoRows, context errors...), bare and wrapped, as failure of a destination, of the query, or of fetching, at every row of 3, in Scan, ScanBuilder and ScanRow", Body: func(c *ex.C) {
				errs := oddErrors()
				e := errs[c.N(len(errs))]
				if c.Bool() {
					e = fmt.Errorf("wrapped: %w", e)
				}
				at := c.N(3)
				place := c.N(5)
				rows := ex.Pick(c, at+1, 4)
				c.Desc(func() string { return fmt.Sprintf("%v at row %d of %d in place %d", e, at+1, rows, place) })
				d := &fakeDB{cols: 2, nextAt: -1, numInput: -1, err: e}
				for i := 0; i < rows; i++ {
					d.rows = append(d.rows, []driver.Value{int64(i), "s"})
				}
				switch place {
				case 0:
					if e == driver.ErrSkip || at > 0 {
						c.Skip() // database/sql goes on with a prepared statement
					}
					d.fault = "query"
				case 1:
					if e == io.EOF {
						c.Skip() // that's the end
					}
					d.nextAt = at
				}
				d.with(c, false, func(q *caller) {
					n := 0
					fn := func() (int, []any) {
						n++
						f := []any{new(int), new(string)}
						if place >= 2 && n == at+1 {
							f[n%2] = &failScan{e}
						}
						return n, f
					}
					var err error
					var got []int
					switch place {
					case 3:
						got, err = util.ScanBuilder(q, &scriptedBuilder{query: "q"}, syntax.Dollar, fn)
					case 4:
						rs, e := q.Query("q")
						if e != nil {
							c.Failf("query: %v", e)
						}
						defer rs.Close()
						for err == nil && rs.Next() {
							_, f := fn()
							err = util.ScanRow(rs, f...)
						}
						if n != at+1 {
							c.Failf("row %d failed", n)
						}
					default:
						got, err = util.Scan(q, "q", nil, fn)
					}
					if err == nil || !errors.Is(err, e) || len(got) > 0 {
						c.Failf("%d rows and error %v, want the error %v", len(got), err, e)
					}
				})
				c.State(fmt.Sprint(e, at, place, rows))
			}},
		}
	})
	extend("C24", func(thorough bool) []*ex.Family {
		pieces := []string{"SELECT 1", ";", "\n", " ", "-- c", "/* c */", "%", "%d", "'", "\"", "(", ")", "ORDER BY x", "LIMIT 1", "\t", "?", "$1", "FOR UPDATE", "\\", "é", ",", "count(1)", "AS list", "\x00"}
		n := choose(thorough, 3, 4)
		return []*ex.Family{
			{Name: "texts", Rule: fmt.Sprintf("all sequences of up to %d of %d pieces as query of Count, CountBuilder, Scan and ScanBuilder: that very text reaches the database", n, len(pieces)), Body: func(c *ex.C) {
				how := c.N(4)
				judgePassed(c, how, strings.Join(ex.Seq(c, n, pieces...), ""), []any{1, "a"})
			}},
			{Name: "large", Rule: "queries of up to 131074 bytes and up to 4098 args through Count, CountBuilder, Scan and ScanBuilder" + sizesRule, Body: func(c *ex.C) {
				how := c.N(4)
				if c.Bool() {
					n := sizeOf(c, 131074)
					judgePassed(c, how, "SELECT '"+strings.Repeat(ex.Pick(c, "a", "é", "%"), n)+"'", nil)
					c.Desc(func() string { return fmt.Sprintf("query of %d characters", n) })
					return
				}
				n := sizeOf(c, 4098)
				args := make([]any, n)
				for i := range args {
					args[i] = i
				}
				judgePassed(c, how, "q", args)
				c.Desc(func() string { return fmt.Sprintf("%d args", n) })
			}},
			{Name: "error-kinds", Rule: "each of 19 errors with a meaning elsewhere, bare and wrapped, as failure of the builder, of the query, of fetching or of an arg, in Count, CountBuilder, Scan and ScanBuilder", Body: func(c *ex.C) {
				errs := oddErrors()
				e := errs[c.N(len(errs))]
				if c.Bool() {
					e = fmt.Errorf("wrapped: %w", e)
				}
				how, place := c.N(4), c.N(3)
				c.Desc(func() string { return fmt.Sprintf("%v in place %d, way %d", e, place, how) })
				if e == sql.ErrNoRows && how < 2 && place < 2 {
					c.Skip() // Count of no rows
				}
				d := &fakeDB{cols: 1, nextAt: -1, numInput: -1, err: e, rows: [][]driver.Value{{int64(5)}}}
				b := &scriptedBuilder{query: "q"}
				switch place {
				case 0:
					if e == driver.ErrSkip {
						c.Skip()
					}
					d.fault = "query"
				case 1:
					if e == io.EOF {
						c.Skip()
					}
					d.nextAt = 0
				case 2:
					if how%2 == 0 {
						c.Skip()
					}
					b.err, b.keep = e, c.Bool()
				}
				d.with(c, false, func(q *caller) {
					n, err := runPassed(q, how, b)
					if err == nil || !errors.Is(err, e) || n != 0 {
						c.Failf("result %d and error %v, want the error %v", n, err, e)
					}
					if place == 2 && len(d.queries) > 0 {
						c.Failf("%q is run", d.queries)
					}
				})
				c.State(fmt.Sprint(e, how, place))
			}},
		}
	})
	extend("C26", func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "error-kinds", Rule: "each of 19 errors with a meaning elsewhere or whose text is that of an invalid index, bare and wrapped, of a probe at each of 13 places in a fragment in each of 16 places of a query builder, and of a registered function in 4 templates", Body: func(c *ex.C) {
				errs := oddErrors()
				e := errs[c.N(len(errs))]
				if c.Bool() {
					e = fmt.Errorf("wrapped: %w", e)
				}
				l := newLab()
				l.odd = e
				dollar := c.Bool()
				if c.Bool() {
					f := &ref.Frag{Raw: ex.Pick(c, "#p1", "#join('#p', ',')", "#join('#r=#f', ',')", "#join('#p', ',', 1, 2)", "#join('#p#f', ',', 2)")}
					if strings.Contains(f.Raw, "#f") {
						f.Items = []any{l.probe(1), l.probe(0)}
					}
					c.Desc(f.Show)
					l.judge(c, f, dollar, true, 1)
					return
				}
				obj := bear(c.N(bearers), l.probe(1))
				if k := c.N(clauses + 1); k > 0 {
					obj = inClause(k-1, obj)
				}
				c.Desc(obj.(interface{ Show() string }).Show)
				l.judge(c, obj, dollar, false, 1)
			}},
			{Name: "late", Rule: "a fault at the first, middle and last of up to 514 items of a #join, or at the bottom of up to 302 levels of fragments" + sizesRule, Body: func(c *ex.C) {
				l := newLab()
				dollar := c.Bool()
				e := ex.Pick[error](c, errBoom, sqlf.ErrInvalidIndex, fmt.Errorf("item: %w", sqlf.ErrInvalidIndex), io.EOF)
				l.odd = e
				var obj any
				if c.Bool() {
					n := sizeOf(c, choose(thorough, 514, 2050))
					if n == 0 {
						c.Skip()
					}
					f := &ref.Frag{Raw: ex.Pick(c, "#join('#f', ',')", "#join('#f', ',', 1)", "#join('(#f)', ',')")}
					at := ex.Pick(c, 0, n/2, n-1)
					for i := 0; i < n; i++ {
						if i == at {
							f.Items = append(f.Items, l.probe(1))
						} else {
							f.Items = append(f.Items, textItem{"x"})
						}
					}
					obj = f
				} else {
					n := sizeOf(c, choose(thorough, 302, 1026))
					k := c.N(4)
					obj = any(l.probe(1))
					obj = bear(0, obj)
					for i := 0; i < n; i++ {
						obj = bear([]int{0, 3, 4, 1}[k], obj)
					}
				}
				show := ""
				c.Desc(func() string {
					if show == "" {
						show = obj.(*ref.Frag).Show()
						if len(show) > 300 {
							show = show[:300] + "..."
						}
					}
					return show
				})
				l.judge(c, obj, dollar, false, 1)
			}},
		}
	})
	extend("C27", func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "texts", Serial: true, Rule: "queries with all sequences of up to 2 (thorough 3) of 22 pieces as column text, or as string arg, or as table name, in debug mode", Body: func(c *ex.C) {
				s := strings.Join(ex.Seq(c, choose(thorough, 2, 3), "%", "%d", "%s", "%!", "%%", "\n", "'", "\"", "\\", "\\n", "é", "\x00", "\xff", "--", "/*", "*/", "{", "}", "[debug]", "\r\n", "\t", " "), "")
				q := ref.Q(ref.Op{Do: "Debug"}, ref.Op{Do: "From", Tbl: tFoo})
				switch c.N(3) {
				case 0:
					if strings.Count(s, "'")%2 == 1 || strings.Count(s, "\"")%2 == 1 {
						c.Skip()
					}
					q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "<" + s + ">"})}}, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "x")}, Str: "=", Val: 1})
				case 1:
					q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "x")}, Str: "=", Val: s})
				case 2:
					if strings.Count(s, "'")%2 == 1 || strings.Count(s, "\"")%2 == 1 || strings.TrimSpace(s) != s {
						c.Skip()
					}
					q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "1"})}}, ref.Op{Do: "InnerJoin", Tbl: ref.Tbl{Name: "t" + s, Alias: "j"}})
				}
				debugQuery(c, nil, q, c.Bool())
			}},
			{Name: "large", Serial: true, Rule: "queries in debug mode with up to 258 (thorough 1026) calls of each kind, and string args of up to 65538 bytes" + sizesRule, Body: func(c *ex.C) {
				if c.Bool() {
					q := manyCalls(c.N(manyKinds), sizeOf(c, choose(thorough, 258, 1026)))
					debugQuery(c, nil, debugAt(q, 1), c.Bool())
					return
				}
				n := sizeOf(c, 65538)
				q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "x")}, Str: "=", Val: strings.Repeat("a", n)}, ref.Op{Do: "Debug"})
				debugQuery(c, nil, q, c.Bool())
				c.Desc(func() string { return fmt.Sprintf("string of %d bytes", n) })
			}},
		}
	})
}

type refFrag = ref.Frag

func firstDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// callVariadic registers the function of the type and builds the call.
func callVariadic(typ, fixed int, ctxToo bool, raw string) (string, error) {
	fix := func(a ...int) string {
		s := ""
		for _, i := range a {
			s += fmt.Sprint(i) + ";"
		}
		return s
	}
	var fn any
	switch typ {
	case 0:
		fn = variadic[int](fixed, ctxToo, fix, func(v int) string { return fmt.Sprint(v) })
	case 1:
		fn = variadic[string](fixed, ctxToo, fix, func(v string) string { return v })
	case 2:
		fn = variadic[bool](fixed, ctxToo, fix, func(v bool) string { return fmt.Sprint(v) })
	case 3:
		fn = variadic[float64](fixed, ctxToo, fix, func(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) })
	}
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"v": fn})
	if err != nil {
		return "", err
	}
	return sqlf.F(raw).BuildFragment(ctx)
}

func variadic[T any](fixed int, ctxToo bool, fix func(...int) string, show func(T) string) any {
	all := func(vs []T) string {
		b := new(strings.Builder)
		for _, v := range vs {
			b.WriteString(show(v) + ",")
		}
		return b.String()
	}
	if ctxToo {
		switch fixed {
		case 0:
			return func(_ *sqlf.Context, vs ...T) string { return all(vs) }
		case 1:
			return func(_ *sqlf.Context, i int, vs ...T) (string, error) { return fix(i) + all(vs), nil }
		}
		return func(_ *sqlf.Context, i, k int, vs ...T) string { return fix(i, k) + all(vs) }
	}
	switch fixed {
	case 0:
		return func(vs ...T) string { return all(vs) }
	case 1:
		return func(i int, vs ...T) (string, error) { return fix(i) + all(vs), nil }
	}
	return func(i, k int, vs ...T) string { return fix(i, k) + all(vs) }
}

const manyKinds = 9

// manyCalls is a query with n calls of the kind, of the first two ops being
// From and Select.
func manyCalls(kind, n int) *ref.Query {
	q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
	arg := func(i int) any {
		if i%4 == 3 {
			return "s"
		}
		return kind*10000 + i
	}
	if kind == 5 {
		q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
	}
	var in []any
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			q.Ops = append(q.Ops, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", fmt.Sprint("w", i))}, Str: "=", Val: arg(i)})
		case 1:
			q.Ops = append(q.Ops, ref.Op{Do: "LeftJoin", Tbl: ref.Tbl{Name: "t", Alias: fmt.Sprint("t", i)}, On: eq(ref.C(fmt.Sprint("t", i), "id"), arg(i))})
		case 2:
			q.Ops = append(q.Ops, ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "g(?)", Args: []any{arg(i)}})}})
		case 3:
			q.Ops = append(q.Ops, ref.Op{Do: "Union", Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{arg(i)}}}})
		case 4:
			q.Ops = append(q.Ops, ref.Op{Do: "With", Str: fmt.Sprint("c", i), Items: []any{&ref.Frag{Raw: "SELECT ?", Args: []any{arg(i)}}}})
			if i%2 == 0 {
				q.Ops = append(q.Ops, ref.Op{Do: "InnerJoin", Tbl: ref.Tbl{Name: fmt.Sprint("c", i)}})
			}
		case 5:
			o := &q.Ops[2]
			o.Cols = append(o.Cols, ref.X(&ref.Frag{Raw: "x(?)", Args: []any{arg(i)}}))
		case 6:
			q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "o(?)", Args: []any{arg(i)}})}})
		case 7:
			in = append(in, arg(i))
		case 8:
			q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "(#join('#arg', ' OR '))", Args: []any{arg(i), i, "s"}}})
		}
	}
	if kind == 7 {
		q.Ops = append(q.Ops, ref.Op{Do: "WhereIn", Cols: []*ref.Col{ref.C("f", "in")}, Val: in})
	}
	return q
}

// bigList makes an argument holding n elements of the type.
func bigList(typ, n, shape int) (arg any, want []any) {
	switch typ {
	case 0:
		return bigListOf(n, shape, func(i int) int { return i })
	case 1:
		return bigListOf(n, shape, func(i int) string { return fmt.Sprint("s", i) })
	case 2:
		return bigListOf(n, shape, func(i int) float64 { return float64(i) / 2 })
	case 3:
		return bigListOf(n, shape, func(i int) bool { return i%3 == 0 })
	case 4:
		return bigListOf(n, shape, func(i int) any {
			if i%2 == 0 {
				return i
			}
			return nil
		})
	}
	return bigListOf(n, shape, func(i int) byte { return byte(i) })
}

func bigListOf[T any](n, shape int, f func(i int) T) (any, []any) {
	s := make([]T, n, n+n/3)
	want := make([]any, n)
	for i := range s {
		s[i] = f(i)
		want[i] = s[i]
	}
	switch shape {
	case 1:
		return &s, want
	case 2:
		type own []T
		return own(s), want
	case 3:
		s = append(s, s...)[:n]
		return s, want
	}
	return s, want
}

// runPassed runs the query of the builder in one of 4 ways.
func runPassed(q util.QueryAble, how int, b *scriptedBuilder) (int64, error) {
	var n int64
	one := func() (*int64, []any) { n++; v := new(int64); return v, []any{v} }
	var rows []*int64
	var err error
	switch how {
	case 0:
		return util.Count(q, b.query, b.args)
	case 1:
		return util.CountBuilder(q, b, syntax.Dollar)
	case 2:
		rows, err = util.Scan(q, b.query, b.args, one)
	case 3:
		rows, err = util.ScanBuilder(q, b, syntax.Question, one)
	}
	if len(rows) == 1 {
		return *rows[0], err
	}
	return int64(len(rows)), err
}

// judgePassed checks that the query and args reach the database.
func judgePassed(c *ex.C, how int, query string, args []any) {
	c.Desc(func() string { return fmt.Sprintf("%q in way %d", query, how) })
	d := &fakeDB{cols: 1, nextAt: -1, numInput: -1, rows: [][]driver.Value{{int64(5)}}}
	d.with(c, false, func(q *caller) {
		n, err := runPassed(q, how, &scriptedBuilder{query: query, args: args})
		if err != nil || n != 5 {
			c.Failf("result %d and error %v, want 5", n, err)
		}
	})
	if len(d.queries) != 1 {
		c.Failf("%d queries are run", len(d.queries))
	}
	got := d.queries[0]
	if how < 2 {
		got = unwrap(c, got)
	}
	if got != query || !SameValues(d.args[0], args) {
		c.Failf("%q is run with %d args, want %q with %d", got, len(d.args[0]), query, len(args))
	}
	c.State(fmt.Sprint(how, len(query), len(args)))
}
