package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// snapshot checks that the fragments of the implementation are as the model made them.
func snapshot(c *ex.C, im *ref.Impl) {
	im.Each(func(m *ref.Frag, f *sqlf.Fragment) {
		if f.Raw != m.Raw || f.Prefix != m.Prefix || f.Suffix != m.Suffix || !SameValues(f.Args, m.Args) || len(f.Fragments) != len(m.Items) {
			c.Failf("building changed %s to %+v", m.Show(), *f)
		}
		for i, it := range m.Items {
			if w := im.Item(it); !sameItem(f.Fragments[i], w) {
				c.Failf("building changed item %d of %s to %+v", i+1, m.Show(), f.Fragments[i])
			}
		}
	})
}

func sameItem(a, b sqlf.FragmentBuilder) (same bool) {
	defer func() {
		if recover() != nil {
			same = true // not comparable
		}
	}()
	return a == b
}

// kept are results returned earlier.
type kept struct {
	query string
	args  []any
	copy  []any
}

func (k kept) check(c *ex.C) {
	if !SameValues(k.args, k.copy) {
		c.Failf("the args %s returned earlier are changed to %s", ref.ShowValues(k.copy), ref.ShowValues(k.args))
	}
}

// again builds the object repeatedly.
func buildTwice(c *ex.C, im *ref.Impl, what string, impl interface {
	BuildFragment(*sqlf.Context) (string, error)
}, model func(dollar bool) ref.Result, pattern []int) {
	var ks []kept
	for i, p := range pattern {
		dollar := p&1 == 1
		want := model(dollar)
		c.Steps(want.Steps)
		var q string
		var args []any
		var err error
		if b, ok := impl.(sqlf.QueryBuilder); ok && p&2 == 0 {
			q, args, err = b.BuildQuery(ref.Style(dollar))
		} else {
			ctx := sqlf.NewContext(ref.Style(dollar))
			if q, err = impl.BuildFragment(ctx); err == nil {
				args = ctx.Args()
			}
		}
		c.Traces(1)
		compare(c, fmt.Sprintf("%s, build %d, %s", what, i+1, styleName(dollar)), q, args, err, want)
		snapshot(c, im)
		for _, k := range ks {
			k.check(c)
		}
		ks = append(ks, kept{q, args, append([]any{}, args...)})
	}
}

// pool is a set of objects sharing parts.
type pool struct {
	im    *ref.Impl
	items []any // *ref.Frag or *ref.Query
	names []string
	leaf  *ref.Frag
	v     vals
}

func newPool() *pool {
	p := &pool{im: &ref.Impl{}}
	add := func(n string, it any) {
		p.names = append(p.names, n)
		p.items = append(p.items, it)
	}
	leaf := &ref.Frag{Raw: "z=?", Args: []any{"leaf"}}
	cond := &ref.Frag{Raw: "#f1=#f2 AND $1", Items: []any{ref.C("b", "id"), ref.C("f", "id")}, Args: []any{"on"}}
	onp := &ref.Frag{Raw: "#f1", Items: []any{leaf}, Prefix: "ON"}
	join := &ref.Frag{Raw: "#join('#f','+') #join('#arg=#arg',';')", Items: []any{leaf, cond, leaf}, Args: []any{1, "s"}}
	bad := &ref.Frag{Raw: "#f1 #f2 $1", Items: []any{leaf}, Args: []any{9}}
	unused := &ref.Frag{Raw: "#f1", Items: []any{join, leaf}, Suffix: "S"}
	colX := ref.X(&ref.Frag{Raw: "x(#f1,?)", Items: []any{ref.C("b", "v")}, Args: []any{"col"}})
	cte := ref.Q(ref.Op{Do: "From", Tbl: tBaz}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("baz", "a")}}, ref.Op{Do: "Where", Frag: leaf}, ref.Op{Do: "Distinct"}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("baz", "o")}, Order: 3})
	q1 := ref.Q(ref.Op{Do: "With", Str: "foo", Items: []any{cte}}, ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "LeftJoinOptional", Tbl: tBar, On: cond}, ref.Op{Do: "LeftJoin", Tbl: ref.Tbl{Name: "z"}, On: onp},
		ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "Distinct"}, ref.Op{Do: "Where", Frag: leaf}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(leaf)}, Order: 4})
	q2 := ref.Q(ref.Op{Do: "From", Tbl: ref.Tbl{Name: "other", Alias: "f"}}, ref.Op{Do: "InnerJoin", Tbl: tBar, On: cond}, ref.Op{Do: "Select", Cols: []*ref.Col{colX}}, ref.Op{Do: "GroupBy", Cols: []*ref.Col{colX}},
		ref.Op{Do: "OrderBy", Cols: []*ref.Col{colX}}, ref.Op{Do: "Union", Items: []any{q1, join}}, ref.Op{Do: "Where", Frag: join}, ref.Op{Do: "Limit", N: 3}, ref.Op{Do: "CrossJoin", Tbl: ref.Tbl{Name: "x"}})
	qbad := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "LeftJoin", Tbl: tBar, On: cond}, ref.Op{Do: "Where", Frag: bad}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "Distinct"})
	qerr := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}}, ref.Op{Do: "Where", Frag: leaf}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("gone", "id")}}, ref.Op{Do: "Distinct"})
	sub := &ref.Frag{Raw: "id IN (#f1) OR $1 OR #f2", Items: []any{q1, onp}, Args: []any{"leaf"}}
	add("leaf", leaf)
	add("join", join)
	add("bad", bad)
	add("unused", unused)
	add("sub", sub)
	add("cte", cte)
	add("q1", q1)
	add("q2", q2)
	add("qbad", qbad)
	add("qerr", qerr)
	add("onp", onp)
	p.leaf = leaf
	for _, it := range p.items {
		p.im.Item(it)
	}
	return p
}

// edits change objects of the pool.
var poolEdits = []struct {
	name string
	do   func(p *pool)
}{
	{"leaf.WithArgs", func(p *pool) {
		p.leaf.Args = []any{"new"}
		p.im.Fragment(p.leaf).WithArgs("new")
	}},
	{"leaf.WithPrefix", func(p *pool) {
		p.leaf.Prefix = "pre"
		p.im.Fragment(p.leaf).WithPrefix("pre")
	}},
	{"q2.Distinct", func(p *pool) { p.op("q2", ref.Op{Do: "Distinct"}) }},
	{"q1.OrderBy", func(p *pool) {
		p.op("q1", ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.C("b", "late")}, Order: 5})
	}},
	{"q1.Select", func(p *pool) {
		p.op("q1", ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("b", "sel"), ref.X(p.leaf)}})
	}},
	{"qerr.LeftJoin", func(p *pool) { p.op("qerr", ref.Op{Do: "LeftJoin", Tbl: ref.Tbl{Name: "gone"}}) }},
	{"cte.Where", func(p *pool) { p.op("cte", ref.Op{Do: "Where", Frag: p.leaf}) }},
}

func (p *pool) get(name string) any {
	for i, n := range p.names {
		if n == name {
			return p.items[i]
		}
	}
	panic("ex: no " + name)
}

func (p *pool) op(name string, o ref.Op) {
	q := p.get(name).(*ref.Query)
	b := p.im.Builder(q)
	q.Ops = append(q.Ops, o)
	o.Apply(p.im, b)
}

func modelResult(it any, dollar bool) ref.Result {
	switch it := it.(type) {
	case *ref.Frag:
		return ref.BuildQuery(it, dollar, nil)
	case *ref.Query:
		return it.Result(dollar)
	}
	panic("ex: object")
}

func init() {
	register(&Check{ID: "C12", Assumptions: []string{
		"Objects are not edited by others while they are built (see C11).",
	}, Families: func(thorough bool) []*ex.Family {
		depth := choose(thorough, 3, 4)
		return []*ex.Family{
			{Name: "pool", Rule: fmt.Sprintf("all sequences of up to %d of 22 builds of 11 fragments and builders sharing parts (failing ones included) in both styles and %d edits, each build judged by the model of a fresh object, all parts and earlier results by their snapshots", depth, len(poolEdits)),
				Body: func(c *ex.C) {
					p := newPool()
					var log []string
					c.Desc(func() string { return strings.Join(log, "; ") })
					var ks []kept
					for n := 1 + c.N(depth); n > 0; n-- {
						k := c.N(2*len(p.items) + len(poolEdits))
						if k >= 2*len(p.items) {
							e := poolEdits[k-2*len(p.items)]
							log = append(log, e.name)
							e.do(p)
							continue
						}
						it, dollar := p.items[k/2], k%2 == 1
						log = append(log, fmt.Sprintf("build %s %s", p.names[k/2], styleName(dollar)))
						want := modelResult(it, dollar)
						c.Steps(want.Steps)
						q, args, err := p.im.Item(it).(sqlf.QueryBuilder).BuildQuery(ref.Style(dollar))
						c.Traces(1)
						compare(c, log[len(log)-1], q, args, err, want)
						for _, k := range ks {
							k.check(c)
						}
						ks = append(ks, kept{q, args, append([]any{}, args...)})
						if n == 1 {
							note(c, want)
						}
					}
					snapshot(c, p.im)
				}},
			{Name: "one-context", Rule: "all sequences of up to 3 (thorough 4) of the objects built one after another in one context",
				Body: func(c *ex.C) {
					p := newPool()
					var log []string
					c.Desc(func() string { return "in one context: " + strings.Join(log, "; ") })
					e := &ref.Eval{Dollar: c.Bool()}
					ctx := sqlf.NewContext(ref.Style(e.Dollar))
					for n := 1 + c.N(choose(thorough, 3, 4)); n > 0; n-- {
						i := c.N(len(p.items))
						log = append(log, p.names[i])
						want, werr := e.BuildItem(p.items[i])
						got, err := p.im.Item(p.items[i]).BuildFragment(ctx)
						c.Traces(1)
						if (err != nil) != (werr != nil) || got != want {
							c.Failf("%s builds to %q (%v), want %q (%v)", p.names[i], got, err, want, werr)
						}
						if werr != nil {
							c.Class("failed")
							e.Args = append([]any{}, ctx.Args()...)
						}
						if !SameValues(ctx.Args(), e.Args) {
							c.Failf("after %s the args are %s, want %s", p.names[i], ref.ShowValues(ctx.Args()), ref.ShowValues(e.Args))
						}
						c.State(want)
					}
					snapshot(c, p.im)
				}},
			{Name: "trees", Rule: "all fragment trees of two levels of up to 2 pieces, each built 3 times with all mixes of styles and ways to build",
				Body: func(c *ex.C) {
					g := &treeGen{c: c, exact: true, pieces: []int{2, 1}, maxArgs: []int{1, 1}, maxFrags: []int{1, choose(thorough, 0, 1)}, leaves: leafItems}
					g.dollar = c.Bool()
					f := g.frag(0)
					var pattern []int
					for i := 0; i < 3; i++ {
						pattern = append(pattern, c.N(choose(thorough, 2, 4)))
					}
					c.Desc(func() string { return fmt.Sprintf("builds %v of %s", pattern, f.Show()) })
					im := &ref.Impl{}
					buildTwice(c, im, "fragment", im.Fragment(f), func(d bool) ref.Result { return ref.BuildQuery(f, d, nil) }, pattern)
					c.State(f.Show())
				}},
			{Name: "queries", Rule: "all builder histories of up to 2 (thorough 3) calls after each of 7 beginnings, each built 3 times with 4 mixes of styles",
				Body: func(c *ex.C) {
					h := append([]int{}, historyStarts[c.N(len(historyStarts))]...)
					nOps := len(historyOps(&vals{}))
					for n := c.N(choose(thorough, 3, 4)); n > 0; n-- {
						h = append(h, c.N(nOps))
					}
					q := history(h)
					pattern := ex.Pick(c, []int{0, 1, 0}, []int{1, 1, 1}, []int{1, 0, 3}, []int{2, 2, 1})
					c.Desc(func() string { return fmt.Sprintf("builds %v of %s", pattern, q.Show()) })
					im := &ref.Impl{}
					buildTwice(c, im, "query", im.Builder(q), q.Result, pattern)
					c.State(q.Show())
				}},
			{Name: "edits", Rule: fmt.Sprintf("all builder histories of up to %d calls after each of 7 beginnings, built in both styles before and after each of the calls", choose(thorough, 2, 3)),
				Body: func(c *ex.C) {
					h := append([]int{}, historyStarts[c.N(len(historyStarts))]...)
					start := len(h)
					nOps := len(historyOps(&vals{}))
					for n := 1 + c.N(choose(thorough, 2, 3)); n > 0; n-- {
						h = append(h, c.N(nOps))
					}
					stepwise(c, history(h), func(i int) bool { return i >= start-1 })
				}},
			{Name: "shared-parts", Rule: "one condition, column or sub-query used in each pair of 9 places of two builders, built in 3 (thorough all 16) orders of 4 builds",
				Body: func(c *ex.C) {
					cond := &ref.Frag{Raw: "#f1=$1", Items: []any{ref.C("f", "x")}, Args: []any{1}, Prefix: ex.Pick(c, choose(thorough, []string{"", "ON"}, []string{"", "ON", "P"})...)}
					col := ref.X(cond)
					subq := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{col}}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{col}}, ref.Op{Do: "Distinct"})
					put := func(k int, q *ref.Query) {
						var o ref.Op
						switch k {
						case 0:
							o = ref.Op{Do: "Where", Frag: cond}
						case 1:
							o = ref.Op{Do: "InnerJoin", Tbl: tBar, On: cond}
						case 2:
							o = ref.Op{Do: "GroupBy", Cols: []*ref.Col{col}}
						case 3:
							o = ref.Op{Do: "OrderBy", Cols: []*ref.Col{col}}
						case 4:
							o = ref.Op{Do: "Select", Cols: []*ref.Col{col, ref.X(cond)}}
						case 5:
							o = ref.Op{Do: "With", Str: "foo", Items: []any{subq}}
						case 6:
							o = ref.Op{Do: "Union", Items: []any{subq, cond}}
						case 7:
							o = ref.Op{Do: "LeftJoinOptional", Tbl: tBaz, On: cond}
						case 8:
							o = ref.Op{Do: "Where", Frag: &ref.Frag{Raw: "#f1#f2", Items: []any{subq, cond}}}
						}
						q.Ops = append(q.Ops, o)
					}
					var qs []*ref.Query
					for i := 0; i < 2; i++ {
						q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
						if i == 0 && c.Bool() {
							q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
						}
						put(c.N(9), q)
						put(c.N(9), q)
						if i == 1 {
							put(0, q)
						}
						qs = append(qs, q)
					}
					im := &ref.Impl{}
					var bs []*sqlb.QueryBuilder
					for _, q := range qs {
						bs = append(bs, im.Builder(q))
					}
					order := ex.Pick(c, choose(thorough, []int{0b0110, 0b1001, 0b0101}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})...)
					c.Desc(func() string { return fmt.Sprintf("order %04b of %s and %s", order, qs[0].Show(), qs[1].Show()) })
					for i := 0; i < 4; i++ {
						k := order >> i & 1
						buildTwice(c, im, fmt.Sprintf("builder %d", k+1), bs[k], qs[k].Result, []int{i & 1})
					}
					c.State(qs[0].Show() + qs[1].Show())
				}},
			{Name: "failing", Rule: "fragments and builders with an item that fails on its n-th evaluation only: a failing build leaves nothing behind for the builds before and after",
				Body: func(c *ex.C) {
					at := 1 + c.N(6)
					n := 0
					boom := errors.New("boom")
					it := countItem{&n, at, boom}
					mk := c.N(6)
					var obj any
					f := &ref.Frag{Raw: "?#f1", Args: []any{"a"}, Items: []any{it}}
					switch mk {
					case 0:
						obj = f
					case 1:
						obj = &ref.Frag{Raw: "#join('#f',',')", Items: []any{&ref.Frag{Raw: "$1", Args: []any{"b"}}, f, it, f}}
					case 2:
						obj = ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(f)}}, ref.Op{Do: "Where", Frag: f}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(f)}}, ref.Op{Do: "Distinct"})
					case 3:
						obj = ref.Q(ref.Op{Do: "With", Str: "foo", Items: []any{f}}, ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(f)}}, ref.Op{Do: "Union", Items: []any{f}})
					case 4:
						obj = ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(f)}}, ref.Op{Do: "LeftJoin", Tbl: tBar, On: f}, ref.Op{Do: "GroupBy", Cols: []*ref.Col{ref.X(f)}})
					case 5:
						in := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(f)}}, ref.Op{Do: "OrderBy", Cols: []*ref.Col{ref.X(f)}})
						obj = ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(f)}}, ref.Op{Do: "Union", Items: []any{in}})
					}
					pattern := []int{c.N(2), c.N(2), c.N(2), c.N(2)}
					c.Desc(func() string { return fmt.Sprintf("object %d, evaluation %d fails, builds %v", mk, at, pattern) })
					im := &ref.Impl{}
					impl := im.Item(obj).(sqlf.QueryBuilder)
					for i, p := range pattern {
						// the model counts on its own
						before := n
						want := modelResult(obj, p == 1)
						n = before
						q, args, err := impl.BuildQuery(ref.Style(p == 1))
						c.Traces(1)
						compare(c, fmt.Sprintf("build %d", i+1), q, args, err, want)
						snapshot(c, im)
						note(c, want)
					}
				}},
		}
	}})
}

// countItem fails at its at-th evaluation.
type countItem struct {
	n   *int
	at  int
	err error
}

func (t countItem) eval() (string, error) {
	*t.n++
	if *t.n == t.at {
		return "", t.err
	}
	return "ok", nil
}
func (t countItem) BuildFragment(*sqlf.Context) (string, error) { return t.eval() }
func (t countItem) RefBuild(*ref.Eval) (string, error)          { return t.eval() }
