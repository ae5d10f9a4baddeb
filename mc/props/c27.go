package props

import (
	"fmt"
	"io"
	"log"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// logged captures the entries of the standard logger.
type logged []string

func (l *logged) Write(p []byte) (int, error) {
	*l = append(*l, strings.TrimSuffix(string(p), "\n"))
	return len(p), nil
}

func capture(f func()) (entries []string) {
	l := &logged{}
	flags := log.Flags()
	log.SetFlags(0)
	log.SetOutput(l)
	defer func() {
		log.SetOutput(io.Discard)
		log.SetFlags(flags)
	}()
	f()
	return *l
}

// debugLog is the model of what's logged.
type debugLog struct {
	lits   []lit               // values which are no int or string
	must   map[string]bool     // entries of the builders that are built
	may    map[string]bool     // of all builders in debug mode
	unspec bool                // the interpolation of some builder fails or is not specified
	plain  map[*ref.Query]bool // considered already
}

func (d *debugLog) lit(v any) lit {
	switch v := v.(type) {
	case int:
		return lit{v: v, want: strconv.Itoa(v)}
	case string:
		return lit{v: v, want: quoted(v)}
	}
	for _, l := range d.lits {
		if SameValue(l.v, v) {
			return l
		}
	}
	return lit{v: v, any: true}
}

// entry is the query interpolated, as it is alone.
func (d *debugLog) entry(q *ref.Query) (string, bool) {
	r := q.Result(false)
	if r.Err != nil || r.Unspec {
		return "", false
	}
	lits := make([]lit, len(r.Args))
	for i, a := range r.Args {
		lits[i] = d.lit(a)
	}
	s, fail, unspec := interp(r.Query, lits)
	return s, !fail && !unspec
}

// judgeDebug builds with build, and in the model, and checks the result, which
// is the one without debug mode, and the log. qs are all builders involved.
func judgeDebug(c *ex.C, lits []lit, dollar bool, qs []*ref.Query, build func() (string, []any, error), model func(e *ref.Eval) (string, error)) {
	d := &debugLog{lits: lits, must: map[string]bool{}, may: map[string]bool{}}
	for _, q := range qs {
		if !q.Debugged() {
			continue
		}
		if s, ok := d.entry(q); ok {
			d.may[s] = true
		} else {
			d.unspec = true
		}
	}
	e := &ref.Eval{Dollar: dollar}
	e.OnQuery = func(q *ref.Query) {
		if q.Debugged() {
			if s, ok := d.entry(q); ok {
				d.must[s] = true
			}
		}
	}
	text, merr := model(e)
	want := ref.Result{Query: text, Args: e.Args, Err: merr, Unspec: e.Unspec}
	if merr != nil {
		want.Query, want.Args = "", nil
	}
	c.Steps(e.Steps)
	var query string
	var args []any
	var err error
	entries := capture(func() { query, args, err = build() })
	compare(c, styleName(dollar), query, args, err, want)
	c.Traces(1)
	note(c, want)
	if want.Unspec {
		return
	}
	has := map[string]bool{}
	for _, s := range entries {
		has[s] = true
		if !d.unspec && !d.may[s] {
			c.Failf("%s: logged %q, the queries in debug mode are %s", styleName(dollar), s, keysOf(d.may))
		}
	}
	if err == nil {
		for s := range d.must {
			if !has[s] {
				c.Failf("%s: logged %q, want %q", styleName(dollar), entries, s)
			}
		}
		c.Class(fmt.Sprintf("%d logged", len(d.must)))
	}
}

func keysOf(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, strconv.Quote(k))
	}
	return strings.Join(l, ", ")
}

func debugAt(q *ref.Query, i int) *ref.Query {
	ops := append([]ref.Op{}, q.Ops[:i]...)
	ops = append(ops, ref.Op{Do: "Debug"})
	return ref.Q(append(ops, q.Ops[i:]...)...)
}

// debugQuery judges the builder alone, in debug mode or with such parts.
func debugQuery(c *ex.C, lits []lit, q *ref.Query, dollar bool, inner ...*ref.Query) {
	c.Desc(q.Show)
	im := &ref.Impl{}
	var b *sqlb.QueryBuilder
	if entries := capture(func() { b = im.Builder(q) }); len(entries) > 0 {
		c.Failf("calls of the builder log %q", entries)
	}
	judgeDebug(c, lits, dollar, append(inner, q), func() (string, []any, error) { return b.BuildQuery(ref.Style(dollar)) }, q.RefBuild)
}

func init() {
	nOps := len(historyOps(&vals{}))
	debug := ref.Op{Do: "Debug"}
	register(&Check{ID: "C27", Assumptions: []string{
		"The entries of the standard logger are captured; timestamps, number and order of the entries are not judged.",
		"What a build logs that fails, or whose args cannot be interpolated, is not specified.",
		"Text in the queries has no ? or $ outside of quotes (Interpolate documents these as template syntax).",
	}, Families: func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "histories", Serial: true, Rule: fmt.Sprintf("every history of up to 2 (thorough: 3 after the first) of %d calls after each of %d beginnings, with Debug as the first, the middle and the last call", nOps, len(historyStarts)),
				Body: func(c *ex.C) {
					s := c.N(len(historyStarts))
					h := append([]int{}, historyStarts[s]...)
					n := 2
					if thorough && s == 1 {
						n = 3
					}
					for n := c.N(n + 1); n > 0; n-- {
						h = append(h, c.N(nOps-1))
					}
					q := history(h)
					debugQuery(c, nil, debugAt(q, c.N(3)*len(q.Ops)/2), c.Bool())
				}},
			{Name: "nested", Serial: true, Rule: "a builder with args, perhaps with a union or a CTE, orders and a limit, as CTE, union, column, order, ON condition, condition, or item of a custom fragment of a builder with args everywhere before and behind, each of the two in debug mode or not, the inner one used once or twice, both styles",
				Body: func(c *ex.C) {
					v := &vals{}
					in := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "i(?)", Args: []any{v.next()}})}}, ref.Op{Do: "From", Tbl: ref.Tbl{Name: "inner", Alias: "i"}},
						ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("i", "w")}, Str: "=", Val: "s"}, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("i", "w")}, Str: "<>", Val: v.next()})
					switch c.N(3) {
					case 1:
						in.Ops = append(in.Ops, ref.Op{Do: "Union", Items: []any{&ref.Frag{Raw: "u(?)", Args: []any{v.next()}}}})
					case 2:
						in.Ops = append(in.Ops, ref.Op{Do: "With", Str: "inner", Items: []any{&ref.Frag{Raw: "c(?)", Args: []any{v.next()}}}}, ref.Op{Do: "Distinct"},
							ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "b(?)", Args: []any{v.next()}})}}, ref.Op{Do: "Limit", N: 5})
					}
					if c.Bool() {
						in.Ops = append(in.Ops, debug)
					}
					in2 := in
					if c.Bool() {
						in2 = ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "?", Args: []any{"s"}})}}, ref.Op{Do: "From", Tbl: ref.Tbl{Name: "second"}}, debug)
					}
					sub := func(q *ref.Query) *ref.Frag {
						return &ref.Frag{Raw: "?, $1, (#f1), (#f1), ?", Items: []any{q}, Args: []any{v.next(), v.next()}}
					}
					places := []func(q *ref.Query) ref.Op{
						func(q *ref.Query) ref.Op { return ref.Op{Do: "With", Str: "foo", Items: []any{q}} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "With", Str: "unused", Items: []any{q}} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "Union", Items: []any{nil, q, q}} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "Where", Frag: sub(q)} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.X(sub(q))}} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(sub(q))}, Order: 3} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "InnerJoin", Tbl: tBar, On: sub(q)} },
						func(q *ref.Query) ref.Op { return ref.Op{Do: "LeftJoinOptional", Tbl: tBaz, On: sub(q)} },
						func(q *ref.Query) ref.Op {
							return ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "#join('#f', ' + ')", Items: []any{q, &ref.Frag{Raw: "?", Args: []any{v.next()}}, q}}}
						},
					}
					q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "o(?)", Args: []any{v.next()}})}}, ref.Op{Do: "From", Tbl: tFoo},
						places[c.N(len(places))](in), ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "z")}, Str: "=", Val: "s"},
						places[c.N(len(places))](in2))
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					if c.Bool() {
						q.Ops = append(q.Ops, debug)
					}
					debugQuery(c, nil, q, c.Bool(), in, in2)
				}},
			{Name: "contexts", Serial: true, Rule: "0..3 args committed, then all sequences of 1..3 builds of two builders in debug mode or not, some with a CTE which is one too, and of fragments, in one context",
				Body: func(c *ex.C) {
					v := &vals{}
					cte := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "?", Args: []any{v.next()}})}}, ref.Op{Do: "From", Tbl: tBar})
					qs := []*ref.Query{cte}
					for _, val := range []any{"s", 1000} {
						q := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "?-$1", Args: []any{v.next()}})}}, ref.Op{Do: "From", Tbl: tFoo},
							ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "z")}, Str: "=", Val: val}, ref.Op{Do: "With", Str: "foo", Items: []any{cte}})
						if c.Bool() {
							q.Ops = append(q.Ops, debug)
						}
						qs = append(qs, q)
					}
					if c.Bool() {
						cte.Ops = append(cte.Ops, debug)
					}
					pre := c.N(4)
					var seq []int
					for n := 1 + c.N(3); n > 0; n-- {
						seq = append(seq, c.N(3))
					}
					dollar := c.Bool()
					frag := &ref.Frag{Raw: "?,$1", Args: []any{"s", 77}}
					frag.Raw = "?,?"
					c.Desc(func() string {
						return fmt.Sprintf("%d args, then builds %v of a fragment, %s and %s", pre, seq, qs[1].Show(), qs[2].Show())
					})
					im := &ref.Impl{}
					judgeDebug(c, nil, dollar, qs, func() (string, []any, error) {
						ctx := sqlf.NewContext(ref.Style(dollar))
						var parts []string
						for i := 0; i < pre; i++ {
							parts = append(parts, ctx.CommitArg(500+i))
						}
						for _, i := range seq {
							var b sqlf.FragmentBuilder = im.Fragment(frag)
							if i > 0 {
								b = im.Builder(qs[i])
							}
							s, err := b.BuildFragment(ctx)
							if err != nil {
								return "", nil, err
							}
							parts = append(parts, s)
						}
						return strings.Join(parts, ";"), ctx.Args(), nil
					}, func(e *ref.Eval) (string, error) {
						var parts []string
						for i := 0; i < pre; i++ {
							parts = append(parts, e.Commit(500+i))
						}
						for _, i := range seq {
							var s string
							var err error
							if i > 0 {
								s, err = qs[i].RefBuild(e)
							} else {
								s, err = e.Build(frag)
							}
							if err != nil {
								return "", err
							}
							parts = append(parts, s)
						}
						return strings.Join(parts, ";"), nil
					})
				}},
			{Name: "values", Serial: true, Rule: "every value of the catalogue of C21 (some cannot be interpolated, some fail), or two of them, as args of a builder in debug mode, of a CTE of it, and of an outer one",
				Body: func(c *ex.C) {
					ls := fixedLits()
					a := ls[c.N(len(ls))]
					b := ex.Pick(c, lit{v: 1, want: "1"}, lit{v: "x'y", want: "'x''y'"}, lit{v: []int{1}}, lit{v: valuerErr{}}, lit{v: panicVal{}}, lit{v: nilTime{}})
					cols := func(args ...any) *ref.Col {
						return ref.X(&ref.Frag{Raw: "#join('#arg', ', ')", Args: args})
					}
					in := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{cols(a.v)}}, ref.Op{Do: "From", Tbl: tBar})
					q := ref.Q(debug, ref.Op{Do: "With", Str: "foo", Items: []any{in}}, ref.Op{Do: "Select", Cols: []*ref.Col{cols(b.v)}}, ref.Op{Do: "From", Tbl: tFoo})
					if c.Bool() {
						in.Ops = append(in.Ops, debug)
					}
					switch c.N(3) {
					case 0:
						q.Ops = append(q.Ops, ref.Op{Do: "Where2", Cols: []*ref.Col{ref.C("f", "x")}, Str: "=", Val: a.v})
					case 1:
						q.Ops = append(q.Ops, ref.Op{Do: "Union", Items: []any{in}})
					}
					debugQuery(c, append(ls, b), q, c.Bool(), in)
				}},
			{Name: "invalid", Serial: true, Rule: "every history of up to 2 of the valid and invalid calls of C18 after Select and From or alone, with Debug at every position, alone and as sub-query",
				Body: func(c *ex.C) {
					ops := validityOps()
					q := &ref.Query{}
					if c.Bool() {
						q.Ops = append(q.Ops, ops[0], ops[1])
					}
					for n := c.N(3); n > 0; n-- {
						q.Ops = append(q.Ops, ops[c.N(len(ops))])
					}
					q = debugAt(q, c.N(len(q.Ops)+1))
					dollar := c.Bool()
					if c.Bool() {
						o := ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(&ref.Frag{Raw: "? #f1", Items: []any{q}, Args: []any{1}})}}, ref.Op{Do: "From", Tbl: tFoo}, debug)
						debugQuery(c, nil, o, dollar, q)
						return
					}
					debugQuery(c, nil, q, dollar)
				}},
		}
	}})
}
