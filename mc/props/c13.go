package props

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// list is a slice of the caller with spare capacity, and its model.
type list[T any] struct {
	name string
	s    []T
	full []T // the whole array
}

func newList[T any](name string, n int, all ...T) *list[T] {
	return &list[T]{name, all[:n:len(all)], append([]T{}, all...)}
}

// check that nobody else has written to the array.
func (l *list[T]) check(c *ex.C, same func(a, b T) bool) {
	arr := l.s[:cap(l.s)]
	for i := range arr {
		if !same(arr[i], l.full[i]) {
			c.Failf("element %d of the array of the caller's slice %s (length %d) is overwritten by %v", i, l.name, len(l.s), arr[i])
		}
	}
}

// grow is an append of the caller within the capacity.
func (l *list[T]) grow(v T) bool {
	if len(l.s) == cap(l.s) {
		return false
	}
	l.full[len(l.s)] = v
	l.s = append(l.s, v)
	return true
}

// editor is two fragments being edited, which may share slices.
type editor struct {
	c     *ex.C
	frag  [2]*sqlf.Fragment
	model [2]*ref.Frag
	impl  map[*ref.Frag]*sqlf.Fragment
	args  *list[any]
	items *list[sqlf.FragmentBuilder]
	leafs map[sqlf.FragmentBuilder]*ref.Frag
	ctx   *sqlf.Context
	eval  *ref.Eval
	ks    []kept
	log   []string
	dol   bool
}

const rawAll = " #join('#arg', ',') #join('#f', ';')"

func newEditor(c *ex.C) *editor {
	e := &editor{c: c, impl: map[*ref.Frag]*sqlf.Fragment{}, leafs: map[sqlf.FragmentBuilder]*ref.Frag{}}
	c.Desc(func() string { return strings.Join(e.log, "; ") })
	e.args = newList[any]("S", 2, 1, "s", "SENTINEL", "SENTINEL", "SENTINEL")
	e.items = newList("T", 1, e.leaf("t1"), e.leaf("SENTINEL"), e.leaf("SENTINEL"), e.leaf("SENTINEL"))
	e.eval = &ref.Eval{Dollar: c.Bool()}
	e.dol = e.eval.Dollar
	e.ctx = sqlf.NewContext(ref.Style(e.dol))
	for i := range e.frag {
		e.set(i, sqlf.F("F"+rawAll), &ref.Frag{Raw: "F" + rawAll})
	}
	return e
}

func (e *editor) leaf(s string) sqlf.FragmentBuilder {
	f := &sqlf.Fragment{Raw: s}
	m := &ref.Frag{Raw: s}
	e.leafs[f] = m
	e.impl[m] = f
	return f
}

func (e *editor) set(i int, f *sqlf.Fragment, m *ref.Frag) {
	e.frag[i], e.model[i] = f, m
	e.impl[m] = f
}

func (e *editor) models(items []sqlf.FragmentBuilder) []any {
	var r []any
	for _, it := range items {
		if m := e.leafs[it]; m != nil {
			r = append(r, m)
			continue
		}
		for m, f := range e.impl {
			if it == sqlf.FragmentBuilder(f) {
				r = append(r, m)
			}
		}
	}
	return r
}

func contains(m, x *ref.Frag) bool {
	if m == x {
		return true
	}
	for _, it := range m.Items {
		if f, ok := it.(*ref.Frag); ok && contains(f, x) {
			return true
		}
	}
	return false
}

const editOps, editGlobal = 18, 5

// op applies an operation to both, it returns false if it makes no sense.
func (e *editor) op(k int) bool {
	c := e.c
	if k >= 2*editOps {
		switch k - 2*editOps {
		case 0:
			e.log = append(e.log, "S=append(S,own)")
			return e.args.grow("own")
		case 1:
			e.log = append(e.log, "T=append(T,own)")
			return e.items.grow(e.leaf("own"))
		case 2:
			e.log = append(e.log, "result=append(result,mine)")
			if len(e.ks) == 0 {
				return false
			}
			r := e.ks[len(e.ks)-1]
			r.args = append(r.args, "mine")
			r.copy = append(append([]any{}, r.copy...), "mine")
			e.ks = append(e.ks, r)
		case 3:
			e.log = append(e.log, "ctx.CommitArg")
			v := fmt.Sprint("c", len(e.log))
			if got, want := e.ctx.CommitArg(v), e.eval.Commit(v); got != want {
				c.Failf("CommitArg returns %q, want %q", got, want)
			}
		case 4:
			e.log = append(e.log, "append(ctx.Args(),mine)")
			v := any(fmt.Sprint("mine", len(e.log)))
			args := e.ctx.Args()
			if !SameValues(args, e.eval.Args) {
				c.Failf("ctx.Args() is %s, want %s", ref.ShowValues(args), ref.ShowValues(e.eval.Args))
			}
			copy := append([]any{}, args...)
			e.ks = append(e.ks, kept{args: append(args, v), copy: append(copy, v)})
		}
		return true
	}
	i := k / editOps
	f, m := e.frag[i], e.model[i]
	o, om := e.frag[1-i], e.model[1-i]
	x := "AB"[i : i+1]
	y := "AB"[1-i : 2-i]
	log := func(s string) { e.log = append(e.log, x+s) }
	n := len(e.log)
	switch k % editOps {
	case 0:
		log("=F()")
		e.set(i, sqlf.F("New"+rawAll), &ref.Frag{Raw: "New" + rawAll})
	case 1:
		log("=Fa(S...)")
		e.set(i, sqlf.Fa("Fa"+rawAll, e.args.s...), &ref.Frag{Raw: "Fa" + rawAll, Args: append([]any{}, e.args.s...)})
	case 2:
		log("=Ff(T...)")
		e.set(i, sqlf.Ff("Ff"+rawAll, e.items.s...), &ref.Frag{Raw: "Ff" + rawAll, Items: e.models(e.items.s)})
	case 3:
		log(".WithArgs(S...)")
		m.Args = append([]any{}, e.args.s...)
		e.same(f, f.WithArgs(e.args.s...))
	case 4:
		log(".WithArgs()")
		m.Args = nil
		e.same(f, f.WithArgs())
	case 5:
		log(".AppendArgs(x)")
		v := fmt.Sprint("x", n)
		m.Args = append(m.Args[:len(m.Args):len(m.Args)], v)
		e.same(f, f.AppendArgs(v))
	case 6:
		log(".AppendArgs(S...)")
		m.Args = append(m.Args[:len(m.Args):len(m.Args)], e.args.s...)
		e.same(f, f.AppendArgs(e.args.s...))
	case 7:
		log(".WithFragments(T...)")
		m.Items = e.models(e.items.s)
		e.same(f, f.WithFragments(e.items.s...))
	case 8:
		log(".AppendFragments(x)")
		l := e.leaf(fmt.Sprint("l", n))
		m.Items = append(m.Items[:len(m.Items):len(m.Items)], e.leafs[l])
		e.same(f, f.AppendFragments(l))
	case 9:
		log(".AppendFragments(T...)")
		m.Items = append(m.Items[:len(m.Items):len(m.Items)], e.models(e.items.s)...)
		e.same(f, f.AppendFragments(e.items.s...))
	case 10:
		p := ex.Pick(c, "P", "")
		log(".WithPrefix(" + p + ")")
		m.Prefix = p
		e.same(f, f.WithPrefix(p))
	case 11:
		p := ex.Pick(c, "S", "")
		log(".WithSuffix(" + p + ")")
		m.Suffix = p
		e.same(f, f.WithSuffix(p))
	case 12:
		log(".WithArgs(" + y + ".Args...)")
		m.Args = append([]any{}, om.Args...)
		e.same(f, f.WithArgs(o.Args...))
	case 13:
		log(".WithFragments(" + y + ".Fragments...)")
		for _, it := range om.Items {
			if contains(it.(*ref.Frag), m) {
				return false
			}
		}
		m.Items = append([]any{}, om.Items...)
		e.same(f, f.WithFragments(o.Fragments...))
	case 14:
		log(".AppendArgs(" + y + ".Args...)")
		m.Args = append(m.Args[:len(m.Args):len(m.Args)], om.Args...)
		e.same(f, f.AppendArgs(o.Args...))
	case 15:
		log(".WithArgs(result...)")
		if len(e.ks) == 0 {
			return false
		}
		r := e.ks[len(e.ks)-1]
		m.Args = append([]any{}, r.copy...)
		e.same(f, f.WithArgs(r.args...))
	case 16:
		log(".AppendFragments(" + y + ")")
		if contains(om, m) {
			return false
		}
		m.Items = append(m.Items[:len(m.Items):len(m.Items)], om)
		e.same(f, f.AppendFragments(o))
	case 17:
		log(".Build")
		e.build(i, e.dol)
	}
	return true
}

func (e *editor) same(f, r *sqlf.Fragment) {
	if f != r {
		e.c.Failf("%s does not return its receiver", e.log[len(e.log)-1])
	}
}

func (e *editor) build(i int, dollar bool) {
	want := ref.BuildQuery(e.model[i], dollar, nil)
	e.c.Steps(want.Steps)
	q, args, err := e.frag[i].BuildQuery(ref.Style(dollar))
	e.c.Traces(1)
	compare(e.c, fmt.Sprintf("build of %s in %s", "AB"[i:i+1], styleName(dollar)), q, args, err, want)
	if err == nil {
		e.ks = append(e.ks, kept{q, args, append([]any{}, args...)})
	}
}

// judge compares everything visible.
func (e *editor) judge() {
	c := e.c
	for i, f := range e.frag {
		m := e.model[i]
		ok := f.Raw == m.Raw && f.Prefix == m.Prefix && f.Suffix == m.Suffix && SameValues(f.Args, m.Args) && len(f.Fragments) == len(m.Items)
		for k := 0; ok && k < len(m.Items); k++ {
			ok = f.Fragments[k] == sqlf.FragmentBuilder(e.impl[m.Items[k].(*ref.Frag)])
		}
		if !ok {
			c.Failf("fragment %s is %+v, want %s", "AB"[i:i+1], *f, m.Show())
		}
	}
	for f, m := range e.leafs {
		if l := f.(*sqlf.Fragment); l.Raw != m.Raw || len(l.Args)+len(l.Fragments) > 0 || l.Prefix+l.Suffix != "" {
			c.Failf("the leaf %q is %+v", m.Raw, *l)
		}
	}
	e.args.check(c, SameValue)
	e.items.check(c, func(a, b sqlf.FragmentBuilder) bool { return a == b })
	for _, k := range e.ks {
		k.check(c)
	}
	if a := e.ctx.Args(); !SameValues(a, e.eval.Args) {
		c.Failf("ctx.Args() is %s, want %s", ref.ShowValues(a), ref.ShowValues(e.eval.Args))
	}
}

// lists of a builder
func convCols(im *ref.Impl, ms []*ref.Col) []*sqlb.Column {
	var r []*sqlb.Column
	for _, m := range ms {
		r = append(r, m.Column(im))
	}
	return r
}

func init() {
	register(&Check{ID: "C13", Assumptions: []string{
		"The caller appends to its own slices, it does not write to their existing elements, nor to the slices held by a fragment or a copy of the struct.",
	}, Families: func(thorough bool) []*ex.Family {
		nOps := 2*editOps + editGlobal
		edit := func(name string, depth int, prefix func(c *ex.C) []int) *ex.Family {
			return &ex.Family{Name: name, Rule: fmt.Sprintf("all sequences of %d operations of %d on two fragments, the caller's slices with spare capacity, a context and earlier results%s, the value model compared after each", depth, nOps,
				map[bool]string{true: " after 4 beginnings with shared slices"}[prefix != nil]),
				Body: func(c *ex.C) {
					e := newEditor(c)
					if prefix != nil {
						for _, k := range prefix(c) {
							e.op(k)
							e.judge()
						}
					}
					for i := 0; i < depth; i++ {
						if !e.op(c.N(nOps)) {
							c.Skip()
						}
						e.judge()
					}
					for i := range e.frag {
						e.build(i, e.dol)
						e.judge()
					}
					c.State(e.model[0].Show() + e.model[1].Show() + fmt.Sprint(len(e.args.s), len(e.items.s)))
				}}
		}
		a, b := 0, editOps
		fams := []*ex.Family{
			edit("edits", choose(thorough, 3, 4), nil),
			edit("edits-shared", choose(thorough, 3, 4), func(c *ex.C) []int {
				return ex.Pick(c,
					[]int{a + 1, b + 12, a + 8, b + 13},      // B shares all of A's
					[]int{a + 3, b + 3, a + 7, b + 9, b + 5}, // both from the caller's
					[]int{a + 5, a + 5, a + 5, a + 17, b + 15, a + 8, a + 8, a + 8, b + 13},
					[]int{2*editOps + 3, 2*editOps + 3, 2*editOps + 3, 2*editOps + 4, a + 15, b + 12})
			}),
		}
		fams = append(fams, &ex.Family{Name: "builder-slices", Rule: fmt.Sprintf("all sequences of %d operations of 21 on two query builders given the same slices of columns, fragments and dependencies with spare capacity, built in both styles at the end", choose(thorough, 3, 4)),
			Body: func(c *ex.C) {
				im := &ref.Impl{}
				var log []string
				c.Desc(func() string { return strings.Join(log, "; ") })
				mc := []*ref.Col{ref.C("f", "a"), ref.C("f", "b"), ref.C("f", "SENT1"), ref.C("f", "SENT2"), ref.C("f", "SENT3")}
				cols := newList("cols", 2, convCols(im, mc)...)
				own := 0
				mu := []any{&ref.Frag{Raw: "u1"}, &ref.Frag{Raw: "SENT1"}, &ref.Frag{Raw: "SENT2"}, &ref.Frag{Raw: "SENT3"}}
				var us []sqlf.FragmentBuilder
				for _, m := range mu {
					us = append(us, im.Item(m))
				}
				unions := newList("unions", 1, us...)
				deps := newList("deps", 1, sqlb.Table("d1"), "d2", "d3")
				var qs [2]*ref.Query
				var bs [2]*sqlb.QueryBuilder
				cte := &ref.Frag{Raw: "cte"}
				for i := range qs {
					qs[i] = ref.Q(ref.Op{Do: "With", Str: "d1", Items: []any{cte}}, ref.Op{Do: "With", Str: "d2", Items: []any{cte}}, ref.Op{Do: "With", Str: "d3", Items: []any{cte}},
						ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{ref.C("f", "id")}})
					bs[i] = im.Builder(qs[i])
				}
				n := choose(thorough, 3, 4)
				for ; n > 0; n-- {
					k := c.N(21)
					switch k {
					case 18:
						log = append(log, "cols=append(cols,own)")
						m := ref.C("f", fmt.Sprint("own", own))
						own++
						if !cols.grow(m.Column(im)) {
							c.Skip()
						}
						mc[len(cols.s)-1] = m
					case 19:
						log = append(log, "unions=append(unions,own)")
						m := &ref.Frag{Raw: fmt.Sprint("own", own)}
						own++
						if !unions.grow(im.Item(m)) {
							c.Skip()
						}
						mu[len(unions.s)-1] = m
					case 20:
						log = append(log, "deps=append(deps,d3)")
						if !deps.grow("d3") {
							c.Skip()
						}
					default:
						q, b := qs[k/9], bs[k/9]
						log = append(log, fmt.Sprintf("b%d op %d", k/9+1, k%9))
						switch k % 9 {
						case 0:
							q.Ops = append(q.Ops, ref.Op{Do: "Select", Cols: append([]*ref.Col{}, mc[:len(cols.s)]...)})
							b.Select(cols.s...)
						case 1:
							q.Ops = append(q.Ops, ref.Op{Do: "GroupBy", Cols: append([]*ref.Col{}, mc[:len(cols.s)]...)})
							b.GroupBy(cols.s...)
						case 2:
							q.Ops = append(q.Ops, ref.Op{Do: "Union", Items: append([]any{}, mu[:len(unions.s)]...)})
							b.Union(unions.s...)
						case 3:
							o := ref.Op{Do: "With", Str: "foo", Items: []any{cte}}
							for _, d := range deps.s {
								o.Deps = append(o.Deps, string(d))
							}
							if hasCTE(q, "foo") {
								c.Skip()
							}
							q.Ops = append(q.Ops, o)
							b.With("foo", im.Item(cte), deps.s...)
						case 4:
							q.Ops = append(q.Ops, ref.Op{Do: "Distinct"})
							b.Distinct()
						case 5:
							q.Ops = append(q.Ops, ref.Op{Do: "OrderBy", Cols: mc[:1]})
							b.OrderBy(cols.s[0], sqlb.Asc)
						case 6:
							m := &ref.Frag{Raw: fmt.Sprint("g", own)}
							own++
							q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: m})
							b.Where(im.Fragment(m))
						case 7:
							m := &ref.Frag{Raw: fmt.Sprint("un", own)}
							own++
							q.Ops = append(q.Ops, ref.Op{Do: "Union", Items: []any{m}})
							b.Union(im.Item(m))
						case 8:
							buildTwice(c, im, "query", b, q.Result, []int{1})
						}
					}
					cols.check(c, func(a, b *sqlb.Column) bool { return a == b })
					unions.check(c, func(a, b sqlf.FragmentBuilder) bool { return a == b })
					deps.check(c, func(a, b sqlb.Table) bool { return a == b })
				}
				for i := range qs {
					buildTwice(c, im, fmt.Sprintf("query %d", i+1), bs[i], qs[i].Result, []int{0, 1})
				}
				cols.check(c, func(a, b *sqlb.Column) bool { return a == b })
				unions.check(c, func(a, b sqlf.FragmentBuilder) bool { return a == b })
				deps.check(c, func(a, b sqlb.Table) bool { return a == b })
				c.State(qs[0].Show() + qs[1].Show())
			}})
		return fams
	}})
}

func hasCTE(q *ref.Query, name string) bool {
	for _, o := range q.Ops {
		if o.Do == "With" && o.Str == name {
			return true
		}
	}
	return false
}
