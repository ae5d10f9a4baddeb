package props

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// ownProperty is a property of the user's.
type ownProperty struct {
	sqlf.FragmentBuilder
	used bool
}

func (p *ownProperty) Used() bool  { return p.used }
func (p *ownProperty) ReportUsed() { p.used = true }
func (p *ownProperty) BuildFragment(ctx *sqlf.Context) (string, error) {
	p.used = true
	return p.FragmentBuilder.BuildFragment(ctx)
}

var errProp = errors.New("failed property")

// propItems are the items of a list of fragments.
var propItems = []struct {
	name string
	mk   func() any
	err  error
}{
	{"text", func() any { return textItem{"T"} }, nil},
	{"fragment", func() any { return &ref.Frag{Raw: "x=? #f1", Args: []any{1}, Items: []any{&ref.Frag{Raw: "y"}}} }, nil},
	{"args", func() any { return argItem{[]any{1, "b"}} }, nil},
	{"nil fragment", func() any { return (*ref.Frag)(nil) }, nil},
	{"blank", func() any { return &ref.Frag{Raw: " ", Prefix: "p"} }, nil},
	{"error", func() any { return errItem{errProp} }, errProp},
	{"invalid index", func() any { return errItem{sqlf.ErrInvalidIndex} }, sqlf.ErrInvalidIndex},
	{"missing item", func() any { return &ref.Frag{Raw: "#f1"} }, sqlf.ErrInvalidIndex},
	{"unused item", func() any { return &ref.Frag{Raw: "a", Args: []any{7}} }, nil},
	{"nil", func() any { return nil }, nil},
}

var propTemplates = []string{"#p1", "#p(2) #p1", "#p0", "#p(-1)", "#p9", "#join('#p', ',')", "#join('<#p>', ', ', 2)", "#join('#p', ',', 1, 2)", "#join('#p', ',', 2, 9)", "#join('#p=#arg', ',')", "#join('#arg:#p', ',') #arg1#arg2", "#join('#p#p', ' ') #p1", "#p1 #join('#p', '')"}

var propValues = []any{1, "a", 1.0, nil, "a", 1}

// propList is a list of properties and its model.
type propList struct {
	p     sqlf.Properties
	items []any // of the model: nil, *ref.Frag, ref.Item
	args  bool
	errs  []error
	names []string
	used  []bool
}

func newPropList(c *ex.C, n int, args bool, own int) *propList {
	l := &propList{args: args}
	var vals []any
	var frags []sqlf.FragmentBuilder
	im := &ref.Impl{}
	for i := 0; i < n; i++ {
		if args {
			v := propValues[c.N(len(propValues))]
			vals = append(vals, v)
			l.items = append(l.items, &ref.Frag{Raw: "$1", Args: []any{v}})
			l.names = append(l.names, ref.ShowValues([]any{v}))
			l.errs = append(l.errs, nil)
			continue
		}
		k := len(propItems)
		if i > 0 {
			k++ // the one before once more
		}
		k = c.N(k)
		if k == len(propItems) {
			l.items = append(l.items, l.items[i-1])
			frags = append(frags, frags[i-1])
			l.names = append(l.names, "the same")
			l.errs = append(l.errs, l.errs[i-1])
			continue
		}
		it := propItems[k]
		m := it.mk()
		l.items = append(l.items, m)
		frags = append(frags, im.Item(m))
		l.names = append(l.names, it.name)
		l.errs = append(l.errs, it.err)
	}
	if args {
		l.p = sqlf.NewArgsProperties(vals...)
		for i := range vals {
			vals[i] = "overwritten"
		}
	} else {
		l.p = sqlf.NewFragmentProperties(frags...)
		for i := range frags {
			frags[i] = textItem{"overwritten"}
		}
	}
	if own >= 0 && own < n && !args && l.items[own] != nil {
		l.p[own] = &ownProperty{FragmentBuilder: im.Item(l.items[own])}
		l.names[own] += " (own property)"
	}
	l.used = make([]bool, n)
	if len(l.p) != n {
		c.Failf("the list of %d has %d properties", n, len(l.p))
	}
	return l
}

// build judges a build of item i (from 1) by what it's built to in the model.
func (l *propList) build(c *ex.C, what string, e *ref.Eval, i int, got string, err error) {
	if i < 1 || i > len(l.items) {
		if got != "" || !errors.Is(err, sqlf.ErrInvalidIndex) {
			c.Failf("%s: %q %v, want %v", what, got, err, sqlf.ErrInvalidIndex)
		}
		return
	}
	l.used[i-1] = true
	if l.items[i-1] == nil {
		return // an error, perhaps; or nothing
	}
	want, werr := e.BuildItem(l.items[i-1])
	if werr != nil {
		if err == nil || got != "" {
			c.Failf("%s: %q %v, want an error: %v", what, got, err, werr)
		}
		if x := l.errs[i-1]; x != nil && !errors.Is(err, x) {
			c.Failf("%s: the error %v doesn't match %v", what, err, x)
		}
		return
	}
	if err != nil || got != want {
		c.Failf("%s: %q %v, want %q", what, got, err, want)
	}
}

func (l *propList) check(c *ex.C, what string) {
	for i, p := range l.p {
		if p.Used() != l.used[i] {
			c.Failf("after %s: item %d is used: %v, want %v", what, i+1, p.Used(), l.used[i])
		}
	}
}

func init() {
	register(&Check{ID: "C28", Assumptions: []string{
		"What a build which failed half-way leaves in the arg list of its context isn't specified: no build follows it.",
		"Properties are built in a context which is not nil.",
	}, Families: func(thorough bool) []*ex.Family {
		maxN, depth := 2, choose(thorough, 3, 4)
		return []*ex.Family{
			{Name: "histories", Rule: fmt.Sprintf("lists of up to %d args or fragments of 10 kinds (one of them perhaps a property of the user's), all histories of up to %d operations: Build with each index -1..n+1 and the extreme ones, building an item itself, reporting it as used, in turn in a context and one derived from it", maxN, depth), Body: func(c *ex.C) {
				args, dollar := c.Bool(), c.Bool()
				n := c.N(maxN + 1)
				l := newPropList(c, n, args, c.N(n+1)-1)
				ctx := sqlf.NewContext(ref.Style(dollar))
				child, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"x": func() string { return "X" }})
				if err != nil {
					c.Failf("%v", err)
				}
				e := &ref.Eval{Dollar: dollar}
				hist := []string{}
				c.Desc(func() string {
					return fmt.Sprintf("%s: list of %s: %s", styleName(dollar), strings.Join(l.names, ", "), strings.Join(hist, "; "))
				})
				l.check(c, "making it")
				turn := c.N(2)
				for k := 0; k < depth; k++ {
					x := ctx
					if k%2 == turn {
						x = child
					}
					var i int
					op := c.N(2*n + n + 6)
					failed := false
					switch {
					case op < n+3: // -1 .. n+1
						i = op - 1
					case op == n+3:
						i = math.MaxInt
					case op == n+4:
						i = math.MinInt
					case op == n+5:
						k = depth
						continue
					case op < 2*n+6:
						i = op - n - 6 + 1
						what := fmt.Sprintf("building item %d itself", i)
						hist = append(hist, what)
						got, err := l.p[i-1].BuildFragment(x)
						l.build(c, what, e, i, got, err)
						failed = err != nil
						i = 0
					default:
						i = op - 2*n - 6 + 1
						hist = append(hist, fmt.Sprintf("reporting %d used", i))
						l.p[i-1].ReportUsed()
						l.used[i-1] = true
						i = 0
					}
					if op < n+5 {
						what := fmt.Sprintf("Build %d", i)
						hist = append(hist, what)
						got, err := l.p.Build(x, i)
						l.build(c, what, e, i, got, err)
						failed = err != nil && i >= 1 && i <= n
					}
					l.check(c, hist[len(hist)-1])
					if failed {
						break
					}
					if !SameValues(ctx.Args(), e.Args) || !SameValues(child.Args(), e.Args) {
						c.Failf("after %s: the args are %s, want %s", hist[len(hist)-1], ref.ShowValues(ctx.Args()), ref.ShowValues(e.Args))
					}
					c.Steps(1)
				}
				c.State(fmt.Sprint(args, dollar, l.names, l.used, len(e.Args)))
			}},
			{Name: "as-function", Rule: fmt.Sprintf("a registered function which builds the item of a list of up to %d args or fragments of 10 kinds, in %d templates: called by index, in #join with ranges and together with #arg, errors of items matchable", maxN+1, len(propTemplates)), Body: func(c *ex.C) {
				args, dollar := c.Bool(), c.Bool()
				l := newPropList(c, c.N(maxN+2), args, -1)
				raw := ex.Pick(c, propTemplates...)
				c.Desc(func() string {
					return fmt.Sprintf("%s: %q with #p of %s", styleName(dollar), raw, strings.Join(l.names, ", "))
				})
				ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(dollar)), sqlf.FuncMap{
					"p": func(ctx *sqlf.Context, i int) (string, error) { return l.p.Build(ctx, i) },
				})
				if err != nil {
					c.Failf("%v", err)
				}
				var failed error
				e := &ref.Eval{Dollar: dollar, Funcs: map[string]*ref.Fn{"p": {Params: numberParam, Join: true, Do: func(e *ref.Eval, _ *ref.Scope, a []any) (string, error) {
					i, ok := a[0].(int)
					if f, isF := a[0].(float64); !ok && isF {
						i = int(f)
					}
					if i < 1 || i > len(l.items) {
						return "", sqlf.ErrInvalidIndex
					}
					l.used[i-1] = true
					s, err := e.BuildItem(l.items[i-1])
					if err != nil {
						failed = l.errs[i-1]
						return "", ref.Nest(err)
					}
					return s, nil
				}}}}
				f := &ref.Frag{Raw: raw}
				if strings.Contains(raw, "#arg") {
					f.Args = []any{"A", "B"}
				}
				want, werr := e.Build(f)
				im := &ref.Impl{}
				got, err := im.Fragment(f).BuildFragment(ctx)
				r := ref.Result{Query: want, Args: e.Args, Err: werr, Unspec: e.Unspec}
				var gotArgs []any
				if err == nil {
					gotArgs = ctx.Args()
				}
				compare(c, "build", got, gotArgs, err, r)
				note(c, r)
				if e.Unspec {
					return
				}
				if failed != nil && !errors.Is(err, failed) {
					c.Failf("the error %v doesn't match %v", err, failed)
				}
				if werr == nil {
					l.check(c, "the build")
				}
			}},
			{Name: "no-context", Rule: "Build of every item of lists of 1..2 args or fragments of 10 kinds with a nil context: an error or the text of an item which needs none, no panic", Body: func(c *ex.C) {
				args := c.Bool()
				l := newPropList(c, 1+c.N(2), args, -1)
				i := c.N(len(l.items)+2) - 1
				if i > 0 && i <= len(l.items) {
					if _, own := l.items[i-1].(argItem); own {
						c.Skip() // uses the context itself
					}
				}
				c.Desc(func() string { return fmt.Sprintf("%v, index %d", l.names, i) })
				got, err := l.p.Build(nil, i)
				if i < 1 || i > len(l.items) {
					if got != "" || !errors.Is(err, sqlf.ErrInvalidIndex) {
						c.Failf("%q %v, want %v", got, err, sqlf.ErrInvalidIndex)
					}
				} else if args && (got != "" || err == nil) {
					c.Failf("built to %q %v without a context", got, err)
				} else if want := l.errs[i-1]; want != nil && (err == nil || got != "") {
					c.Failf("%q %v, want an error", got, err)
				}
				c.State(fmt.Sprint(l.names, i))
			}},
			{Name: "large", Rule: fmt.Sprintf("lists of up to %d args and fragments: each item around the ends and the middle, and the indexes behind", choose(thorough, 4098, 65538)) + sizesRule, Body: func(c *ex.C) {
				n := sizeOf(c, choose(thorough, 4098, 65538))
				args := c.Bool()
				i := []int{1, 2, n / 2, n - 1, n, n + 1, 2*n + 1, n + 64, n + 256, n + 65536, -n}[c.N(11)]
				c.Desc(func() string { return fmt.Sprintf("item %d of %d", i, n) })
				var vals []any
				var frags []sqlf.FragmentBuilder
				for k := 1; k <= n; k++ {
					vals = append(vals, k)
					frags = append(frags, argItem{[]any{k}})
				}
				p := sqlf.NewFragmentProperties(frags...)
				want := "(?)"
				if args {
					p = sqlf.NewArgsProperties(vals...)
					want = "?"
				}
				ctx := sqlf.NewContext(ref.Style(false))
				got, err := p.Build(ctx, i)
				if i < 1 || i > n {
					if got != "" || !errors.Is(err, sqlf.ErrInvalidIndex) || len(ctx.Args()) > 0 {
						c.Failf("built to %q %v %v", got, ctx.Args(), err)
					}
				} else if err != nil || got != want || !SameValues(ctx.Args(), []any{i}) {
					c.Failf("built to %q %v %v", got, ctx.Args(), err)
				}
				for k := range p {
					if p[k].Used() != (k+1 == i) {
						c.Failf("item %d is used: %v", k+1, p[k].Used())
					}
				}
				c.State(fmt.Sprint(n, i, args))
			}},
		}
	}})
}
