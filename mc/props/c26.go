package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// lab is where faults are injected: at the n-th evaluation of a probe.
type lab struct {
	id, at  int   // the fault
	err     error // nil: no fault
	panics  any   // functions only
	n       map[int]int
	model   map[int]int
	hit     bool
	nProbes int
	odd     error // the error to fail with, if not one of faultErrors
}

func newLab() *lab { return &lab{n: map[int]int{}, model: map[int]int{}} }

func (l *lab) reset() { l.n, l.model, l.hit = map[int]int{}, map[int]int{}, false }

func (l *lab) eval(id int) error {
	l.n[id]++
	if l.err != nil && id == l.id && l.n[id] == l.at {
		l.hit = true
		return l.err
	}
	return nil
}

func (l *lab) refEval(id int) error {
	l.model[id]++
	if l.err != nil && id == l.id && l.model[id] == l.at {
		return l.err
	}
	return nil
}

// probe is a custom builder which may fail.
type probe struct {
	l    *lab
	id   int
	kind int // 0 text, 1 commits an arg before, 2 empty text, 3 wraps a fragment with a probe inside, 4 commits after
	in   *probe
}

func (l *lab) probe(kind int) *probe {
	l.nProbes++
	p := &probe{l: l, id: l.nProbes, kind: kind}
	if kind == 3 {
		p.in = l.probe(1)
	}
	return p
}

func (p *probe) Show() string { return fmt.Sprintf("probe%d/%d", p.id, p.kind) }

func (p *probe) BuildFragment(ctx *sqlf.Context) (string, error) {
	s := ""
	switch p.kind {
	case 1:
		s = ctx.CommitArg(p.id)
	case 2:
		return "", p.l.eval(p.id)
	case 3:
		in, err := sqlf.Ff("in #f1", p.in).BuildFragment(ctx)
		if err != nil {
			return "", fmt.Errorf("probe: %w", err)
		}
		s = in
	}
	if err := p.l.eval(p.id); err != nil {
		return "text along with the error", err
	}
	if p.kind == 4 {
		s = ctx.CommitArg("after")
	}
	return fmt.Sprintf("p%d%s", p.id, s), nil
}

// RefBuild is the model.
func (p *probe) RefBuild(e *ref.Eval) (string, error) {
	s := ""
	switch p.kind {
	case 1:
		s = e.Commit(p.id)
	case 2:
		return "", p.l.refEval(p.id)
	case 3:
		in, err := e.Build(&ref.Frag{Raw: "in #f1", Items: []any{p.in}})
		if err != nil {
			return "", err
		}
		s = in
	}
	if err := p.l.refEval(p.id); err != nil {
		return "", err
	}
	if p.kind == 4 {
		s = e.Commit("after")
	}
	return fmt.Sprintf("p%d%s", p.id, s), nil
}

// funcs are the functions p and q of a context, probes too.
func (l *lab) funcs() (sqlf.FuncMap, map[string]*ref.Fn) {
	const items = 2 // p has this many items in #join
	p, q, r := l.probe(0).id, l.probe(0).id, l.probe(0).id
	fail := func(err error) {
		if err != nil && l.panics != nil {
			panic(l.panics)
		}
	}
	fm := sqlf.FuncMap{
		"p": func(i int) (string, error) {
			if i < 1 || i > items {
				return "", sqlf.ErrInvalidIndex
			}
			err := l.eval(p)
			fail(err)
			return fmt.Sprint("P", i), err
		},
		"q": func(ctx *sqlf.Context, s ...string) (string, error) {
			a := ctx.CommitArg("q")
			err := l.eval(q)
			fail(err)
			return "Q" + a, err
		},
		"r": func(ctx *sqlf.Context, i int) (string, error) {
			if i < 1 || i > items {
				return "", fmt.Errorf("r: %w", sqlf.ErrInvalidIndex)
			}
			s, err := sqlf.F("#q('x')").BuildFragment(ctx)
			if err != nil {
				return s, err
			}
			err = l.eval(r)
			fail(err)
			return "R" + s, err
		},
	}
	num := func(a any) int {
		n, _ := isNumber(a)
		return int(n)
	}
	m := map[string]*ref.Fn{
		"p": {Params: numberParam, Join: true, Do: func(e *ref.Eval, _ *ref.Scope, a []any) (string, error) {
			if num(a[0]) < 1 || num(a[0]) > items {
				return "", sqlf.ErrInvalidIndex
			}
			return fmt.Sprint("P", num(a[0])), l.refEval(p)
		}},
		"q": {Params: stringParam, Variadic: true, Do: func(e *ref.Eval, _ *ref.Scope, a []any) (string, error) {
			return "Q" + e.Commit("q"), l.refEval(q)
		}},
		"r": {Params: numberParam, Join: true, Do: func(e *ref.Eval, _ *ref.Scope, a []any) (string, error) {
			if num(a[0]) < 1 || num(a[0]) > items {
				return "", sqlf.ErrInvalidIndex
			}
			s, err := e.Build(&ref.Frag{Raw: "#q('x')"})
			if err != nil {
				return "", err
			}
			return "R" + s, l.refEval(r)
		}},
	}
	return fm, m
}

// oddErr is an error with an odd type.
type oddErr struct{ s []string }

func (oddErr) Error() string           { return "" }
func (oddErr) Is(target error) bool    { return target == errBoom }
func (e *ptrErr) Error() string        { return "nil pointer, but an error" }
func (e *ptrErr) Is(target error) bool { return target == errBoom }

type ptrErr struct{ _ int }

// faultErrors are errors and what they match.
func faultErrors() []struct {
	err   error
	match []error
} {
	type e = struct {
		err   error
		match []error
	}
	boom := errors.New("boom")
	return []e{
		{boom, []error{boom}},
		{sqlf.ErrInvalidIndex, []error{sqlf.ErrInvalidIndex}},
		{fmt.Errorf("x: %w", boom), []error{boom}},
		{fmt.Errorf("item 3: %w", sqlf.ErrInvalidIndex), []error{sqlf.ErrInvalidIndex}},
		{errors.Join(boom, sqlf.ErrInvalidIndex), []error{boom, sqlf.ErrInvalidIndex}},
		{oddErr{nil}, []error{errBoom}},
		{(*ptrErr)(nil), []error{errBoom}},
		{errors.New(""), nil},
		{io.EOF, []error{io.EOF}},
		{context.Canceled, []error{context.Canceled}},
		{fmt.Errorf("%w and %w", io.ErrUnexpectedEOF, boom), []error{boom, io.ErrUnexpectedEOF}},
	}
}

// judge finds all the evaluations of the object in the model, injects a fault
// into one of them and builds in the implementation.
func (l *lab) judge(c *ex.C, obj any, dollar bool, funcs bool, errKinds int) {
	var fm sqlf.FuncMap
	var fns map[string]*ref.Fn
	if funcs {
		fm, fns = l.funcs()
	}
	model := func() ref.Result {
		l.model = map[int]int{}
		e := &ref.Eval{Dollar: dollar, Funcs: fns}
		s, err := e.BuildItem(obj)
		if err != nil {
			return ref.Result{Err: err, Unspec: e.Unspec, Steps: e.Steps}
		}
		return ref.Result{Query: s, Args: e.Args, Unspec: e.Unspec, Steps: e.Steps}
	}
	clean := model()
	if clean.Unspec {
		c.Skip()
	}
	type pos struct{ id, at int }
	var all []pos
	for id, n := range l.model {
		for k := 1; k <= n; k++ {
			all = append(all, pos{id, k})
		}
	}
	if len(all) == 0 {
		c.Skip()
	}
	sort.Slice(all, func(i, j int) bool {
		return all[i].id < all[j].id || all[i].id == all[j].id && all[i].at < all[j].at
	})
	at := all[c.N(len(all))]
	fe := faultErrors()
	k := c.N(errKinds)
	if l.odd != nil {
		fe[0].err, fe[0].match = l.odd, []error{l.odd}
	}
	l.id, l.at, l.err = at.id, at.at, fe[k%len(fe)].err
	match := fe[k%len(fe)].match
	if match == nil {
		match = []error{l.err}
	}
	desc := c.Describe
	d := ""
	func() { d = desc() }()
	c.Desc(func() string {
		return fmt.Sprintf("%s build of %s, evaluation %d of probe %d fails with %T %q", styleName(dollar), d, at.at, at.id, fe[k%len(fe)].err, fmt.Sprint(fe[k%len(fe)].err))
	})
	want := model()
	c.Steps(clean.Steps + want.Steps)
	im := &ref.Impl{}
	it := im.Item(obj)
	var ctx0 *sqlf.Context
	run := func() (string, []any, error) {
		if b, ok := it.(sqlf.QueryBuilder); ok && !funcs {
			return b.BuildQuery(ref.Style(dollar))
		}
		ctx := sqlf.NewContext(ref.Style(dollar))
		if funcs {
			x, err := sqlf.ContextWithFuncs(ctx, fm)
			if err != nil {
				c.Failf("registering: %v", err)
			}
			ctx = x
		}
		ctx0 = ctx
		s, err := it.BuildFragment(ctx)
		if err != nil {
			if s != "" {
				c.Failf("the text %q is returned with the error %v", s, err)
			}
			return "", nil, err
		}
		return s, ctx.Args(), nil
	}
	l.n, l.hit = map[int]int{}, false
	q, args, err := run()
	if !l.hit {
		// evaluated less often than the model does: as if there were no fault
		c.Class("not reached")
		compare(c, "build", q, args, err, clean)
	} else {
		compare(c, "build with the fault", q, args, err, want)
		if want.Err != nil {
			class := "failed"
			for _, m := range match {
				if !errors.Is(want.Err, m) {
					class = "end of a list, failing otherwise" // for another reason then
				} else if !errors.Is(err, m) {
					c.Failf("the error %v does not match %T %v", err, m, m)
				}
			}
			c.Class(class)
		} else {
			c.Class("end of a list")
		}
	}
	c.State(fmt.Sprintf("%s %v %d %v", d, at, k, err != nil))
	// and without the fault
	l.err = nil
	l.n, l.hit = map[int]int{}, false
	q, args, err = run()
	c.Traces(1)
	compare(c, "build after it", q, args, err, clean)
	_ = ctx0
}

// bearers wrap an item so that it's at some place in a fragment.
const bearers = 13

func bear(k int, it any) any {
	txt := func(s string) any { return &ref.Frag{Raw: s} }
	switch k {
	case 0:
		return &ref.Frag{Raw: "#f1", Items: []any{it}}
	case 1:
		return &ref.Frag{Raw: "? #fragment1 ?", Items: []any{it}, Args: []any{"a", "b"}}
	case 2:
		return &ref.Frag{Raw: "#f1 #f1", Items: []any{it}}
	case 3:
		return &ref.Frag{Raw: "#join('#f', ',')", Items: []any{it}}
	case 4:
		return &ref.Frag{Raw: "#join('#fragment', ',')", Items: []any{txt("x"), it, txt("y")}}
	case 5:
		return &ref.Frag{Raw: "#join('#f', ',')", Items: []any{txt("x"), txt("y"), it}}
	case 6:
		return &ref.Frag{Raw: "#f1 #join('#f', ',', 2) #f3", Items: []any{txt("x"), txt("y"), it}}
	case 7:
		return &ref.Frag{Raw: "#join('#f', ',', 2, 3) #f1", Items: []any{txt("x"), it, txt("y")}}
	case 8:
		return &ref.Frag{Raw: "#join('#f=#arg', ',')", Items: []any{txt("x"), it}, Args: []any{"a", "b"}}
	case 9:
		return &ref.Frag{Raw: "#join('#f=#arg', ',')#f3", Items: []any{txt("x"), txt("y"), it}, Args: []any{"a", "b"}} // evaluated for a dropped item too
	case 10:
		return &ref.Frag{Raw: "#join('#f(#f2)', ',')", Items: []any{it, it}}
	case 11:
		return &ref.Frag{Raw: "x #f1 y", Items: []any{it, it}, Prefix: "P", Suffix: "S"} // invalid: unused
	case 12:
		return &ref.Frag{Raw: "#join('#f', ',')", Items: []any{txt(""), it, it}, Prefix: "P"}
	}
	panic("ex: bearer")
}

// clauses put a builder into a query builder.
const clauses = 16

func clause(k int, it any) []ref.Op {
	x := func(it any) *ref.Col { return ref.X(&ref.Frag{Raw: "#f1", Items: []any{it}}) }
	cond := &ref.Frag{Raw: "c(#f1)", Items: []any{it}}
	switch k {
	case 0:
		return []ref.Op{{Do: "Select", Cols: []*ref.Col{x(it)}}}
	case 1:
		return []ref.Op{{Do: "Select", Cols: []*ref.Col{ref.C("f", "id"), x(it), ref.C("f", "x")}}}
	case 2:
		return []ref.Op{{Do: "Where", Frag: cond}}
	case 3:
		return []ref.Op{{Do: "Where2", Cols: []*ref.Col{x(it)}, Str: "=", Val: 1}}
	case 4:
		return []ref.Op{{Do: "WhereIn", Cols: []*ref.Col{x(it)}, Val: []int{1, 2}}}
	case 5:
		return []ref.Op{{Do: "GroupBy", Cols: []*ref.Col{ref.C("f", "g"), x(it)}}}
	case 6:
		return []ref.Op{{Do: "OrderBy", Cols: []*ref.Col{x(it)}, Order: 4}}
	case 7:
		return []ref.Op{{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "o")}}, {Do: "OrderBy", Cols: []*ref.Col{x(it)}}, {Do: "Distinct"}}
	case 8:
		return []ref.Op{{Do: "InnerJoin", Tbl: tBar, On: cond}}
	case 9:
		return []ref.Op{{Do: "LeftJoinOptional", Tbl: tBar, On: cond}, {Do: "Where", Frag: &ref.Frag{Raw: "#f1", Items: []any{ref.C("b", "x")}}}}
	case 10:
		return []ref.Op{{Do: "FullJoin", Tbl: tBaz, On: &ref.Frag{Raw: "#join('#f',' AND ')", Items: []any{&ref.Frag{Raw: "1"}, it}, Prefix: "ON"}}}
	case 11:
		return []ref.Op{{Do: "Union", Items: []any{it}}}
	case 12:
		return []ref.Op{{Do: "Union", Items: []any{&ref.Frag{Raw: "SELECT 1"}, it, &ref.Frag{Raw: "SELECT 2"}}}}
	case 13:
		return []ref.Op{{Do: "With", Str: "foo", Items: []any{it}}}
	case 14:
		return []ref.Op{{Do: "With", Str: "dep", Items: []any{it}}, {Do: "With", Str: "foo", Items: []any{&ref.Frag{Raw: "SELECT 1"}}, Deps: []string{"dep"}}}
	case 15: // not rendered: never evaluated
		return []ref.Op{{Do: "With", Str: "unused", Items: []any{it}}, {Do: "LeftJoinOptional", Tbl: ref.Tbl{Name: "opt"}, On: cond}, {Do: "Distinct"}}
	}
	panic("ex: clause")
}

func inClause(k int, it any, more ...ref.Op) *ref.Query {
	q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
	q.Ops = append(q.Ops, clause(k, it)...)
	q.Ops = append(q.Ops, more...)
	return q
}

func init() {
	register(&Check{ID: "C26", Level: "fault_enumeration", Assumptions: []string{
		"A registered function called by a #join template itself ends the list with ErrInvalidIndex, as documented; that is no failure of the build.",
		"CTEs and optional joins that are not rendered are not evaluated.",
	}, Families: func(thorough bool) []*ex.Family {
		nErr := len(faultErrors())
		return []*ex.Family{
			{Name: "trees", Rule: "probes of 5 kinds at all of 13 places in a fragment, nested 1 to 3 levels deep: a fault of each of 11 errors at every evaluation",
				Body: func(c *ex.C) {
					l := newLab()
					dollar := c.Bool()
					var it any = l.probe(c.N(5))
					for n := 1 + c.N(3); n > 0; n-- {
						it = bear(c.N(bearers), it)
					}
					c.Desc(func() string { return it.(*ref.Frag).Show() })
					l.judge(c, it, dollar, false, choose(thorough, 6, nErr))
				}},
			{Name: "clauses", Rule: "probes of 5 kinds, bare or at each of 13 places in a fragment, in each of 16 places of a query builder, alone or used as CTE, union, sub-query or column of another: a fault of each of 11 errors at every evaluation",
				Body: func(c *ex.C) {
					l := newLab()
					dollar := c.Bool()
					var it any = l.probe(c.N(5))
					if b := c.N(bearers + 1); b > 0 {
						it = bear(b-1, it)
					}
					q := inClause(c.N(clauses), it)
					show := q.Show
					var obj any = q
					switch c.N(7) {
					case 0:
					case 1:
						w := inClause(13, q, ref.Op{Do: "Distinct"}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "z")}})
						obj, show = w, w.Show
					case 2:
						w := inClause(12, q)
						obj, show = w, w.Show
					case 3:
						w := inClause(2, q)
						obj, show = w, w.Show
					case 4:
						w := inClause(1, &ref.Frag{Raw: "(#f1) AS s", Items: []any{q}})
						obj, show = w, w.Show
					case 5:
						w := inClause(14, inClause(11, q))
						obj, show = w, w.Show
					case 6:
						w := bear(4, q).(*ref.Frag)
						obj, show = w, w.Show
					}
					c.Desc(show)
					l.judge(c, obj, dollar, false, choose(thorough, 4, nErr))
				}},
			{Name: "clause-pairs", Rule: "two probes in all pairs of 16 places of a query builder, with and without Distinct: a fault at every evaluation",
				Body: func(c *ex.C) {
					l := newLab()
					dollar := c.Bool()
					a, b := c.N(clauses), c.N(clauses)
					if a >= 8 && a <= 10 && a == b || (a == 13 || a == 14 || a == 15) && (b == 13 || b == 14 || b == 15) {
						c.Skip() // duplicate CTE
					}
					q := inClause(a, l.probe(c.N(5)), clause(b, l.probe(1))...)
					if c.Bool() {
						q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
					}
					c.Desc(q.Show)
					l.judge(c, q, dollar, false, choose(thorough, 4, nErr))
				}},
			{Name: "functions", Rule: "registered functions, plain, with context and building a fragment themselves, called and joined in 12 templates, bare or at 13 places in a fragment or in 16 of a query: a fault of each of 11 errors at every evaluation",
				Body: func(c *ex.C) {
					l := newLab()
					dollar := c.Bool()
					raw := ex.Pick(c, "#p1", "#q()", "#r1", "#p1 #q('a') #r2 #q()", "#join('#p', ',')", "#join('#r', ',')", "#join('#p #r', ',')", "#join('#p', ',', 1, 2)", "#join('#r', ',', 2)", "#join('#p=#f', ',')", "#join('#f=#r', ',')", "#p3", "#join('#p', ',', 1, 3)")
					f := &ref.Frag{Raw: raw}
					if strings.Contains(raw, "#f") {
						f.Items = []any{l.probe(1), l.probe(4), &ref.Frag{Raw: "z"}}[:1+c.N(3)]
					}
					var obj any = f
					switch k := c.N(1 + bearers + clauses); {
					case k == 0:
					case k <= bearers:
						obj = bear(k-1, f)
					default:
						q := inClause(k-1-bearers, f)
						obj = &ref.Frag{Raw: "q(#f1)", Items: []any{q}}
					}
					c.Desc(obj.(*ref.Frag).Show)
					l.judge(c, obj, dollar, true, choose(thorough, 6, nErr))
				}},
			{Name: "panics", Rule: "the same functions panicking with errors, strings and others: the build fails with an error, which matches if it was an error",
				Body: func(c *ex.C) {
					l := newLab()
					dollar := c.Bool()
					raw := ex.Pick(c, "#p1", "#q()", "#r1", "#join('#p', ',')", "#join('#r', ',')", "#join('#p #r', ',')", "#join('#r', ',', 2)")
					var it any = &ref.Frag{Raw: raw}
					switch k := c.N(1 + bearers); k {
					case 0:
					default:
						it = bear(k-1, it)
					}
					l.panics = ex.Pick[any](c, "text", errBoom, 5, sqlf.ErrInvalidIndex, fmt.Errorf("w: %w", sqlf.ErrInvalidIndex), struct{}{})
					if e, ok := l.panics.(error); ok && errors.Is(e, sqlf.ErrInvalidIndex) && strings.Contains(raw, "#join") {
						c.Skip() // whether that ends the list like returning the error is left open
					}
					f := it.(*ref.Frag)
					c.Desc(func() string { return fmt.Sprintf("panic(%v) in %s", l.panics, f.Show()) })
					l.judgePanic(c, f, dollar)
				}},
			{Name: "intrinsic", Rule: "parts which are invalid themselves (11 kinds) at all of 13 places in a fragment, up to 2 levels deep, and in each of 16 places of a query builder used in 4 ways",
				Body: func(c *ex.C) {
					dollar := c.Bool()
					var it any
					k := c.N(11)
					switch k {
					case 0:
						it = &ref.Frag{Raw: "#"}
					case 1:
						it = &ref.Frag{Raw: "$1"}
					case 2:
						it = &ref.Frag{Raw: "#f1"}
					case 3:
						it = &ref.Frag{Raw: "#arg1"}
					case 4:
						it = &ref.Frag{Raw: "x", Args: []any{1}}
					case 5:
						it = &ref.Frag{Raw: "#join('#f', ',', 1)"}
					case 6:
						it = &ref.Frag{Raw: "#nope()"}
					case 7:
						it = ref.Q(ref.Op{Do: "From", Tbl: tFoo})
					case 8:
						it = ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("gone", "x")}})
					case 9:
						it = ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "x")}}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "x")}, Order: 9})
					case 10:
						it = &ref.Frag{Raw: "", Items: []any{&ref.Frag{Raw: "x"}}}
					}
					obj := it
					depth := c.N(3)
					for i := 0; i < depth; i++ {
						obj = bear(c.N(bearers), obj)
					}
					if c.Bool() {
						q := inClause(c.N(clauses), obj)
						switch c.N(4) {
						case 0:
							obj = q
						case 1:
							obj = inClause(13, q)
						case 2:
							obj = inClause(11, q)
						case 3:
							obj = bear(c.N(5), q)
						}
					}
					c.Desc(obj.(interface{ Show() string }).Show)
					r := modelResult2(obj, dollar)
					if r.Unspec {
						c.Skip()
					}
					im := &ref.Impl{}
					b, ok := im.Item(obj).(sqlf.QueryBuilder)
					if !ok {
						c.Skip()
					}
					for i := 0; i < 2; i++ {
						q, args, err := b.BuildQuery(ref.Style(dollar))
						compare(c, fmt.Sprintf("build %d", i+1), q, args, err, r)
					}
					note(c, r)
				}},
		}
	}})
}

func modelResult2(it any, dollar bool) ref.Result {
	e := &ref.Eval{Dollar: dollar}
	s, err := e.BuildItem(it)
	if err != nil {
		return ref.Result{Err: err, Unspec: e.Unspec, Steps: e.Steps}
	}
	return ref.Result{Query: s, Args: e.Args, Unspec: e.Unspec, Steps: e.Steps}
}

// judgePanic lets the functions panic at one of their evaluations.
func (l *lab) judgePanic(c *ex.C, f *ref.Frag, dollar bool) {
	fm, fns := l.funcs()
	model := func() ref.Result {
		l.model = map[int]int{}
		return ref.BuildQuery(f, dollar, fns)
	}
	clean := model()
	n := 0
	var ids []int
	for id := 1; id <= l.nProbes; id++ {
		for k := 0; k < l.model[id]; k++ {
			ids = append(ids, id)
			n++
		}
	}
	if n == 0 || clean.Unspec {
		c.Skip()
	}
	k := c.N(n)
	l.id = ids[k]
	for i := 0; i <= k; i++ {
		if ids[i] == l.id {
			l.at++
		}
	}
	l.err = errBoom
	build := func() (string, []any, error) {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(dollar)), fm)
		if err != nil {
			c.Failf("registering: %v", err)
		}
		im := &ref.Impl{}
		s, err := im.Fragment(f).BuildFragment(ctx)
		if err != nil {
			return s, nil, err
		}
		return s, ctx.Args(), nil
	}
	s, _, err := build()
	if l.hit {
		if err == nil {
			c.Failf("evaluation %d of function %d panics, but the build returns %q", l.at, l.id, s)
		}
		if s != "" {
			c.Failf("the text %q is returned with the error %v", s, err)
		}
		if e, ok := l.panics.(error); ok && !errors.Is(err, e) {
			// an error of the caller's; that it can be matched is not promised for panics
			c.Class("panic value not matched")
		}
		c.Class("failed")
	} else {
		c.Class("not reached")
	}
	c.State(fmt.Sprint(f.Show(), l.id, l.at, l.panics))
	l.err = nil
	q, args, err := build()
	compare(c, "build after it", q, args, err, clean)
}
