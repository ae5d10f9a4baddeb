package props

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// wrapItem is a custom builder which builds a fragment with the context it
// gets. It's made for the implementation with its fragment.
type wrapItem struct{ in any }

type wrapImpl struct{ in sqlf.FragmentBuilder }

func (w wrapItem) ToImpl(im *ref.Impl) sqlf.FragmentBuilder { return wrapImpl{im.Item(w.in)} }
func (w wrapItem) Show() string {
	if s, ok := w.in.(interface{ Show() string }); ok {
		return "custom" + s.Show()
	}
	return "custom"
}
func (w wrapItem) RefBuild(e *ref.Eval) (string, error) {
	s, err := e.BuildItem(w.in)
	return "<" + s + ">", err
}

func (w wrapImpl) BuildFragment(ctx *sqlf.Context) (string, error) {
	s, err := w.in.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	return "<" + s + ">", nil
}

// foreignFamily has fragments referring to what only others have.
func foreignFamily(thorough bool) *ex.Family {
	levels := choose(thorough, 2, 3)
	return &ex.Family{Name: "foreign", Rule: fmt.Sprintf("chains of %d and 1 more fragments with 0..2 args and 0..1 further items each, linked directly, by a custom builder, an expression column, a query builder or #join, where one of them refers once more to an arg or fragment by index 1..3 of any form, its own or one that only another level has, before or behind the next level", levels-1), Body: func(c *ex.C) {
		dollar, build := styles(c)
		n := 1 + c.N(levels)
		at := c.N(n + 1)
		var mk func(level int) *ref.Frag
		mk = func(level int) *ref.Frag {
			f := &ref.Frag{}
			var ps []string
			for i := c.N(3); i > 0; i-- {
				f.Args = append(f.Args, fmt.Sprintf("L%dA%d", level, i))
			}
			if len(f.Args) > 0 {
				ps = append(ps, "#join('#arg', ',')")
			}
			more := c.Bool()
			if level < n {
				child := any(mk(level + 1))
				how := c.N(5)
				switch how {
				case 1:
					child = wrapItem{child}
				case 2:
					child = ref.X(child.(*ref.Frag))
				case 3:
					child = ref.Q(ref.Op{Do: "Select", Cols: []*ref.Col{ref.X(child.(*ref.Frag))}}, ref.Op{Do: "From", Tbl: tFoo})
				}
				f.Items = append(f.Items, child)
				if how == 4 {
					ps = append(ps, "(#join('#f', '+'))")
				} else {
					ps = append(ps, "(#f1)")
				}
			}
			if more {
				f.Items = append(f.Items, &ref.Frag{Raw: fmt.Sprintf("more%d", level)})
				ps = append(ps, fmt.Sprintf("#f%d", len(f.Items)))
			}
			if level == at {
				k := 1 + c.N(3)
				r := ""
				switch c.N(8) {
				case 0:
					if dollar {
						r = fmt.Sprintf("$%d", k)
					} else {
						r = strings.Repeat("? ", k)
					}
				case 1:
					r = fmt.Sprintf("#arg%d", k)
				case 2:
					r = fmt.Sprintf("#f%d", k)
				case 3:
					r = fmt.Sprintf("#fragment(%d)", k)
				case 4:
					r = fmt.Sprintf("#join('#arg', ',', %d)", k)
				case 5:
					r = fmt.Sprintf("#join('#f', ',', 1, %d)", k)
				case 6:
					r = "#join('#arg=#f', ',')"
				case 7:
					if dollar {
						r = fmt.Sprintf("#join('#f$%d', ',')", k)
					} else {
						r = "#join('#f" + strings.Repeat("? ", k) + "', ',')"
					}
				}
				if c.Bool() {
					ps = append([]string{r}, ps...)
				} else {
					ps = append(ps, r)
				}
			}
			f.Raw = strings.Join(ps, " ")
			return f
		}
		f := mk(0)
		c.Desc(func() string { return styleName(build) + " build of " + f.Show() })
		note(c, buildFrag(c, f, build, true))
	}}
}

// regItem is a custom builder which registers functions in the context it
// gets and builds with the derived one, and with its own again.
type regItem struct {
	set  int
	id   string
	in   any // built with the derived context
	then any // and in the original one, may be nil
}

type regImpl struct {
	r        *regItem
	in, then sqlf.FragmentBuilder
}

func (r *regItem) Show() string {
	show := func(it any) string {
		if s, ok := it.(interface{ Show() string }); ok && it != nil {
			return s.Show()
		}
		return "-"
	}
	return fmt.Sprintf("registers%d{%s}then{%s}", r.set, show(r.in), show(r.then))
}

func (r *regItem) ToImpl(im *ref.Impl) sqlf.FragmentBuilder {
	i := regImpl{r: r, in: im.Item(r.in)}
	if r.then != nil {
		i.then = im.Item(r.then)
	}
	return i
}

const innerSets = 5

// innerFuncs are functions to register, of the implementation and the model.
func innerFuncs(set int, id string) (sqlf.FuncMap, map[string]*ref.Fn) {
	fm, m := sqlf.FuncMap{}, map[string]*ref.Fn{}
	switch set {
	case 1:
		fm["b"] = func(ctx *sqlf.Context) (string, error) { return sqlf.F("b" + id + "[#a()]").BuildFragment(ctx) }
		m["b"] = &ref.Fn{Do: func(e *ref.Eval, _ *ref.Scope, _ []any) (string, error) {
			return e.Build(&ref.Frag{Raw: "b" + id + "[#a()]"})
		}}
		fallthrough
	case 0:
		fm["a"] = func(ctx *sqlf.Context) string { return "A" + id + ctx.CommitArg(id) }
		m["a"] = &ref.Fn{Do: func(e *ref.Eval, _ *ref.Scope, _ []any) (string, error) { return "A" + id + e.Commit(id), nil }}
	case 2:
		fm["f"] = func(i int) string { return "F" + id }
		m["f"] = &ref.Fn{Params: numberParam, Do: func(*ref.Eval, *ref.Scope, []any) (string, error) { return "F" + id, nil }}
	case 3:
		return nil, m
	case 4: // registers too
		fm["b"] = func(ctx *sqlf.Context) (string, error) {
			ctx, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"a": func() string { return "inner" + id }})
			if err != nil {
				return "", err
			}
			return sqlf.F("b#a()").BuildFragment(ctx)
		}
		m["b"] = &ref.Fn{Do: func(e *ref.Eval, _ *ref.Scope, _ []any) (string, error) { return "binner" + id, nil }}
	}
	return fm, m
}

// withFuncs evaluates f with more functions.
func withFuncs(e *ref.Eval, m map[string]*ref.Fn, f func() (string, error)) (string, error) {
	saved := e.Funcs
	e.Funcs = map[string]*ref.Fn{}
	for k, v := range saved {
		e.Funcs[k] = v
	}
	for k, v := range m {
		e.Funcs[k] = v
	}
	s, err := f()
	e.Funcs = saved
	return s, err
}

func (r *regItem) RefBuild(e *ref.Eval) (string, error) {
	_, m := innerFuncs(r.set, r.id)
	s, err := withFuncs(e, m, func() (string, error) { return e.BuildItem(r.in) })
	if err != nil || r.then == nil {
		return s, err
	}
	t, err := e.BuildItem(r.then)
	return s + "|" + t, err
}

func (r regImpl) BuildFragment(ctx *sqlf.Context) (string, error) {
	fm, _ := innerFuncs(r.r.set, r.r.id)
	derived, err := sqlf.ContextWithFuncs(ctx, fm)
	if err != nil {
		return "", err
	}
	s, err := r.in.BuildFragment(derived)
	if err != nil || r.then == nil {
		return s, err
	}
	t, err := r.then.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	return s + "|" + t, nil
}

// insideFamily registers functions inside of builds.
func insideFamily(thorough bool) *ex.Family {
	return &ex.Family{Name: "inside", Rule: fmt.Sprintf("fragments of 1..%d items, each a fragment, or a custom builder registering one of %d sets of functions in the context it gets and building with the derived context (an item of that kind too, nested) and then with its own, in contexts with 3 sets of functions, the names used before and behind, built twice in a context", choose(thorough, 2, 3), innerSets), Body: func(c *ex.C) {
		dollar := c.Bool()
		base := ex.Pick(c, 0, 1, 3)
		id := 0
		leaf := func(k int) *ref.Frag {
			switch k {
			case 0:
				return &ref.Frag{Raw: "#a()"}
			case 1:
				return &ref.Frag{Raw: "#b() $1", Args: []any{"s"}}
			}
			return &ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: "i"}}}
		}
		var item func(depth int) any
		item = func(depth int) any {
			k := c.N(5)
			if k < 3 {
				return leaf(k)
			}
			id++
			r := &regItem{set: c.N(innerSets), id: fmt.Sprint(id)}
			if depth > 0 {
				r.in = leaf(k - 3)
			} else if k == 3 {
				r.in = leaf(c.N(3))
			} else {
				r.in = item(depth + 1)
			}
			if depth == 0 && c.Bool() {
				r.then = leaf(0)
			}
			return r
		}
		f := &ref.Frag{}
		n := 1 + c.N(choose(thorough, 2, 3))
		for i := 0; i < n; i++ {
			f.Items = append(f.Items, item(0))
		}
		var ps []string
		if c.Bool() {
			ps = append(ps, "#join('#f', ' + ')")
		} else {
			for i := n; i > 0; i-- {
				ps = append(ps, fmt.Sprintf("#f%d", i))
			}
		}
		use := ex.Pick(c, "#a()", "#b()")
		f.Raw = use + " " + strings.Join(ps, " ") + " " + use
		c.Desc(func() string {
			return fmt.Sprintf("%s build of %s in a context with set %d", styleName(dollar), f.Show(), base)
		})
		ctx := sqlf.NewContext(ref.Style(dollar))
		e := &ref.Eval{Dollar: dollar}
		fm, m := innerFuncs(base, "0")
		ctx, err := sqlf.ContextWithFuncs(ctx, fm)
		if err != nil {
			c.Failf("ContextWithFuncs: %v", err)
		}
		e.Funcs = m
		im := &ref.Impl{}
		for i := 0; i < 2; i++ {
			want, werr := e.Build(f)
			got, err := im.Fragment(f).BuildFragment(ctx)
			c.Traces(1)
			if (err != nil) != (werr != nil) || got != want {
				c.Failf("build %d: built to %q (%v), want %q (%v)", i+1, got, err, want, werr)
			}
			if err != nil {
				c.State("error: " + werr.Error())
				e.Args = ctx.Args() // what is left behind is not specified
				continue
			}
			if !SameValues(ctx.Args(), e.Args) {
				c.Failf("build %d: args %v, want %v", i+1, ctx.Args(), e.Args)
			}
			c.State(want)
		}
	}}
}
