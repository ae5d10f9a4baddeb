package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// world is a set of contexts, of the implementation and of the model.
type world struct {
	c     *ex.C
	ctxs  []*sqlf.Context
	root  []int // index of the root state
	funcs []map[string]*ref.Fn
	evals []*ref.Eval // per root
	log   []string
	n     int
}

func (w *world) newRoot(dollar bool) {
	w.log = append(w.log, fmt.Sprintf("c%d=NewContext(%s)", len(w.ctxs), styleName(dollar)))
	w.ctxs = append(w.ctxs, sqlf.NewContext(ref.Style(dollar)))
	w.root = append(w.root, len(w.evals))
	w.evals = append(w.evals, &ref.Eval{Dollar: dollar})
	w.funcs = append(w.funcs, nil)
}

const funcSets = 7

// derive adds the functions of the set to the context.
func (w *world) derive(i, set int) {
	id := fmt.Sprintf("%d", len(w.ctxs))
	w.log = append(w.log, fmt.Sprintf("c%s=ContextWithFuncs(c%d, set %d)", id, i, set))
	fm := sqlf.FuncMap{}
	m := map[string]*ref.Fn{}
	a := func() {
		fm["a"] = func() string { return "A" + id }
		m["a"] = &ref.Fn{Do: func(*ref.Eval, *ref.Scope, []any) (string, error) { return "A" + id, nil }}
	}
	wantErr := false
	switch set {
	case 0:
		a()
	case 1:
		fm["a"] = func(ctx *sqlf.Context) string { return "a" + id + ctx.CommitArg("a"+id) }
		m["a"] = &ref.Fn{Do: func(e *ref.Eval, _ *ref.Scope, _ []any) (string, error) { return "a" + id + e.Commit("a"+id), nil }}
		fm["b"] = func(ctx *sqlf.Context) (string, error) { return sqlf.F("b[#a()]").BuildFragment(ctx) }
		m["b"] = &ref.Fn{Do: func(e *ref.Eval, _ *ref.Scope, _ []any) (string, error) { return e.Build(&ref.Frag{Raw: "b[#a()]"}) }}
	case 2:
		fm["f"] = func(i int) (string, error) { return "F" + id, listEnd(i, 2) }
		m["f"] = &ref.Fn{Params: numberParam, Join: true, Do: func(_ *ref.Eval, _ *ref.Scope, args []any) (string, error) {
			i := 0
			switch x := args[0].(type) {
			case int:
				i = x
			case float64:
				i = int(x)
			}
			return "F" + id, listEnd(i, 2)
		}}
	case 3:
		fm["join"] = func(s string) string { return "J" + id + s }
		m["join"] = &ref.Fn{Params: []reflect.Kind{reflect.String}, Do: func(_ *ref.Eval, _ *ref.Scope, args []any) (string, error) { return "J" + id + args[0].(string), nil }}
	case 4:
		fm = nil
	case 5:
		a()
		fm["b1"] = func() {}
		wantErr = true
	case 6:
		fm["b"] = func() {}
		m["b"] = &ref.Fn{Do: func(*ref.Eval, *ref.Scope, []any) (string, error) { return "", nil }}
		fm["arg"] = func(i int) string { return "R" + id }
		m["arg"] = &ref.Fn{Params: numberParam, Do: func(*ref.Eval, *ref.Scope, []any) (string, error) { return "R" + id, nil }}
	}
	ctx, err := sqlf.ContextWithFuncs(w.ctxs[i], fm)
	if (err != nil) != wantErr {
		w.c.Failf("registering set %d: %v", set, err)
	}
	if wantErr {
		return
	}
	for k := range fm { // the caller's map is the caller's
		fm[k] = func() string { return "changed" }
	}
	merged := map[string]*ref.Fn{}
	for k, v := range w.funcs[i] {
		merged[k] = v
	}
	for k, v := range m {
		merged[k] = v
	}
	w.ctxs = append(w.ctxs, ctx)
	w.root = append(w.root, w.root[i])
	w.funcs = append(w.funcs, merged)
}

func (w *world) commit(i int, v any) {
	w.log = append(w.log, fmt.Sprintf("c%d.CommitArg(%v)", i, v))
	e := w.evals[w.root[i]]
	want := e.Commit(v)
	if got := w.ctxs[i].CommitArg(v); got != want {
		w.c.Failf("CommitArg(%v) of c%d returns %q, want %q", v, i, got, want)
	}
}

// buildTemplates are built in contexts.
const buildTemplates = 8

func (w *world) template(t int) *ref.Frag {
	switch t {
	case 0:
		return &ref.Frag{Raw: "#a()"}
	case 1:
		return &ref.Frag{Raw: "#b()"}
	case 2:
		return &ref.Frag{Raw: "#f1 $1", Args: []any{"s"}, Items: []any{&ref.Frag{Raw: "x=?", Args: []any{"s"}}}}
	case 3:
		w.n++
		return &ref.Frag{Raw: "#join('#fragment', '+')", Items: []any{&ref.Frag{Raw: "?", Args: []any{w.n}}, &ref.Frag{Raw: "#f1", Items: []any{&ref.Frag{Raw: "#a()"}}}}}
	case 4:
		return &ref.Frag{Raw: "#nope()$1", Args: []any{"never"}}
	case 5:
		return &ref.Frag{Raw: "#join('#f')"}
	case 6:
		return &ref.Frag{Raw: "#join('#f', ';')"}
	case 7:
		w.n++
		return &ref.Frag{Raw: "$1#arg1$2", Args: []any{w.n, []byte("b")}}
	}
	panic("ex: template")
}

func (w *world) build(i, t int) {
	f := w.template(t)
	w.log = append(w.log, fmt.Sprintf("build %s in c%d", f.Show(), i))
	e := w.evals[w.root[i]]
	e.Funcs = w.funcs[i]
	before := len(e.Args)
	want, werr := e.Build(f)
	got, err := (&ref.Impl{}).Fragment(f).BuildFragment(w.ctxs[i])
	w.c.Traces(1)
	if (err != nil) != (werr != nil) || got != want {
		w.c.Failf("built to %q (%v), want %q (%v)", got, err, want, werr)
	}
	if err != nil && len(e.Args) != before {
		// what a failed build leaves behind is not specified
		w.c.Skip()
	}
}

// check compares the args of all contexts.
func (w *world) check() {
	for i, ctx := range w.ctxs {
		if got, want := ctx.Args(), w.evals[w.root[i]].Args; !sameArgs(got, want) {
			w.c.Failf("args of c%d are %s, want %s", i, ref.ShowValues(got), ref.ShowValues(want))
		}
	}
}

func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if x, ok := a[i].([]byte); ok {
			if y, ok := b[i].([]byte); !ok || string(x) != string(y) {
				return false
			}
			continue
		}
		if !SameValue(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (w *world) key() string {
	b := new(strings.Builder)
	for i := range w.ctxs {
		fmt.Fprintf(b, "%d:", w.root[i])
		for _, n := range []string{"a", "b", "f", "join", "arg"} {
			if f := w.funcs[i][n]; f != nil {
				b.WriteString(n)
				for k := range w.ctxs {
					if w.funcs[k][n] == f {
						fmt.Fprintf(b, "%d", k)
						break
					}
				}
				fmt.Fprintf(b, "%d%v%v", len(f.Params), f.Join, f.Variadic)
			}
		}
		b.WriteString(";")
	}
	for _, e := range w.evals {
		fmt.Fprintf(b, "%v%s|", e.Dollar, ref.ShowValues(e.Args))
	}
	fmt.Fprint(b, w.n)
	return b.String()
}

// probe resolves every name in every context.
func (w *world) probe() {
	for i := range w.ctxs {
		for t := 0; t < buildTemplates; t++ {
			e := w.evals[w.root[i]]
			e.Funcs = w.funcs[i]
			f := w.template(t)
			want, werr := e.Build(f)
			got, err := (&ref.Impl{}).Fragment(f).BuildFragment(w.ctxs[i])
			w.c.Traces(1)
			if (err != nil) != (werr != nil) || got != want {
				w.c.Failf("finally, %s in c%d builds to %q (%v), want %q (%v)", f.Show(), i, got, err, want, werr)
			}
			if werr != nil {
				e.Args = append([]any{}, w.ctxs[i].Args()...)
			}
		}
	}
	w.check()
	q, args, err := sqlf.Ff("#join('#f', ',')", sqlf.Fa("?", 1), sqlf.F("2")).BuildQuery(ref.Style(true))
	if err != nil || q != "$1,2" || len(args) != 1 {
		w.c.Failf("a new root builds #join('#f', ',') to %q %v (%v)", q, args, err)
	}
}

func init() {
	register(&Check{ID: "C10", Assumptions: []string{
		"What a failed build has committed before failing is not specified.",
	}, Families: func(thorough bool) []*ex.Family {
		const maxCtx = 4
		// operations: new root x2, derive, commit, build
		nOps := 2 + maxCtx*funcSets + maxCtx*3 + maxCtx*buildTemplates
		do := func(w *world, op int) {
			if op < 2 {
				if len(w.ctxs) >= maxCtx+1 {
					w.c.Skip()
				}
				w.newRoot(op == 1)
				return
			}
			op -= 2
			pick := func(n int) (int, int) {
				i, k := op/n, op%n
				if i >= len(w.ctxs) {
					w.c.Skip()
				}
				return i, k
			}
			if op < maxCtx*funcSets {
				i, k := pick(funcSets)
				if len(w.ctxs) >= maxCtx+1 {
					w.c.Skip()
				}
				w.derive(i, k)
				return
			}
			op -= maxCtx * funcSets
			if op < maxCtx*3 {
				i, k := pick(3)
				w.n++
				w.commit(i, []any{"s", w.n, float64(1)}[k])
				return
			}
			op -= maxCtx * 3
			i, k := pick(buildTemplates)
			w.build(i, k)
		}
		apply := func(c *ex.C, hist []int) *world {
			w := &world{c: c}
			c.Desc(func() string { return strings.Join(w.log, "; ") })
			for _, op := range hist {
				do(w, op)
				w.check()
			}
			return w
		}
		// starts: one root of each style, two roots, a derived one
		d := func(i, set int) int { return 2 + i*funcSets + set }
		return []*ex.Family{
			{Name: "histories", Rule: fmt.Sprintf("all states of up to 5 contexts of 1 or 2 roots reachable by %d of %d operations (new root, derive with one of %d sets of functions overriding others and built-in ones, commit, build one of %d templates) from 4 beginnings; in each all names are resolved in all contexts", choose(thorough, 3, 4), nOps, funcSets, buildTemplates),
				Ops: nOps, Depth: choose(thorough, 3, 4), Starts: [][]int{{0}, {1}, {1, 0, d(0, 0)}, {1, d(0, 1), d(1, 2)}},
				Apply: func(c *ex.C, hist []int) string {
					w := apply(c, hist)
					key := w.key()
					w.probe()
					return key
				}},
			{Name: "chains", Rule: fmt.Sprintf("all chains and trees of %d derived contexts with each set of functions, names resolved in each", choose(thorough, 3, 4)),
				Body: func(c *ex.C) {
					w := &world{c: c}
					c.Desc(func() string { return strings.Join(w.log, "; ") })
					w.newRoot(c.Bool())
					for n := choose(thorough, 3, 4); n > 0; n-- {
						w.derive(c.N(len(w.ctxs)), c.N(funcSets))
					}
					w.probe()
					c.State(strings.Join(w.log, ";"))
				}},
			{Name: "commits", Rule: fmt.Sprintf("all sequences of %d commits and builds through 3 contexts of one root and one of another", choose(thorough, 4, 5)),
				Body: func(c *ex.C) {
					w := &world{c: c}
					c.Desc(func() string { return strings.Join(w.log, "; ") })
					w.newRoot(c.Bool())
					w.newRoot(true)
					w.derive(0, 1)
					w.derive(2, 0)
					for n := choose(thorough, 4, 5); n > 0; n-- {
						i := c.N(4)
						switch c.N(5) {
						case 0:
							w.commit(i, "s")
						case 1:
							w.n++
							w.commit(i, w.n)
						case 2:
							w.build(i, 2)
						case 3:
							w.build(i, 3)
						case 4:
							w.build(i, 7)
						}
						w.check()
					}
					c.State(w.key())
				}},
			insideFamily(thorough),
			{Name: "depth", Rule: "chains of 1..100 contexts, each overriding one of 3 functions or none",
				Body: func(c *ex.C) {
					w := &world{c: c}
					c.Desc(func() string { return strings.Join(w.log, "; ") })
					w.newRoot(true)
					n := 1 + c.N(100)
					k := c.N(funcSets)
					for i := 0; i < n; i++ {
						set := 4
						if i%3 == 0 {
							set = k
						}
						if set == 5 {
							set = 0
						}
						w.derive(len(w.ctxs)-1, set)
					}
					w.ctxs, w.funcs, w.root = w.ctxs[n-1:], w.funcs[n-1:], w.root[n-1:]
					w.probe()
					c.State(fmt.Sprint(n, k))
				}},
		}
	}})
}
