package props

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// relate, if set, replaces the comparison with the model by relations between
// builds of the implementation: the cases are those of other checks.
var relate bool

// built is a built query read by the grammar of the templates.
type built struct {
	query string
	args  []any
	err   error
	texts []string // around the placeholders
	binds []int
	plain bool // it reads as a template of its placeholders
}

func newBuilt(query string, args []any, err error) *built {
	b := &built{query: query, args: args, err: err}
	nodes, v := ref.Parse(query)
	b.plain = err == nil && v == ref.OK
	text := ""
	for _, n := range nodes {
		switch n.Kind {
		case ref.Plain:
			text += n.Text
		case ref.Bind:
			b.texts, text = append(b.texts, text), ""
			b.binds = append(b.binds, n.Index)
			if n.Index < 1 || n.Index > len(args) {
				b.plain = false
			}
		default:
			b.plain = false
		}
	}
	b.texts = append(b.texts, text)
	used := make([]bool, len(args))
	for _, i := range b.binds {
		if i <= len(args) {
			used[i-1] = true
		}
	}
	for _, u := range used {
		b.plain = b.plain && u
	}
	for i, t := range b.texts {
		// next to a ? which is a placeholder
		if i > 0 && strings.HasPrefix(t, "?") || i < len(b.binds) && strings.HasSuffix(t, "?") {
			b.plain = false
		}
	}
	return b
}

// judgeRelations judges builds of fresh objects in both styles by each other.
func judgeRelations(c *ex.C, fresh func() builder) ref.Result {
	var r [2]*built
	for i := range r {
		r[i] = newBuilt(fresh().BuildQuery(ref.Style(i == 1)))
		c.Traces(1)
	}
	q, d := r[0], r[1]
	if (q.err == nil) != (d.err == nil) {
		c.Failf("the styles disagree: Question %q %v, Dollar %q %v", q.query, q.err, d.query, d.err)
	}
	if q.err != nil {
		return ref.Result{Err: q.err}
	}
	if !q.plain || !d.plain {
		// adjacent placeholders, or text which looks like one
		c.Class("not a template")
		return ref.Result{Unspec: true}
	}
	if fmt.Sprintf("%q", q.texts) != fmt.Sprintf("%q", d.texts) {
		c.Failf("the styles disagree: Question %q, Dollar %q", q.query, d.query)
	}
	for k := range q.binds {
		a, b := q.args[q.binds[k]-1], d.args[d.binds[k]-1]
		if !SameValue(a, b) && !ref.Equal(a, b) {
			c.Failf("placeholder %d stands for %s in %q and for %s in %q", k+1, ref.ShowValues([]any{a}), q.query, ref.ShowValues([]any{b}), d.query)
		}
	}
	for i, from := range r {
		for j, to := range r {
			c.Traces(2)
			again, args, err := sqlf.Fa(from.query, from.args...).BuildQuery(ref.Style(j == 1))
			if err != nil || again != to.query || !equalValues(args, to.args) {
				c.Failf("%q %s, built as a template in the %s style, gives %q %s %v, want %q %s", from.query, ref.ShowValues(from.args), styleName(j == 1), again, ref.ShowValues(args), err, to.query, ref.ShowValues(to.args))
			}
			if i != j || to.query == "" {
				continue
			}
			again, args, err = sqlf.Ff("(#f1)#f2", sqlf.Fa(from.query, from.args...), fresh()).BuildQuery(ref.Style(j == 1))
			two := newBuilt(again, args, err)
			if err != nil || len(two.binds) != 2*len(to.binds) || two.err != nil || !strings.HasPrefix(again, "("+to.query+")") {
				c.Failf("%q with %s as a template and as a builder gives %q %s %v in one query", to.query, ref.ShowValues(to.args), again, ref.ShowValues(args), err)
			}
			if j == 1 && !mergeable(to.args) {
				for k, i := range two.binds {
					if a, b := args[i-1], to.args[to.binds[k%len(to.binds)]-1]; !SameValue(a, b) && !ref.Equal(a, b) {
						c.Failf("the same twice in the Dollar style gives %q %s, placeholder %d doesn't stand for %s", again, ref.ShowValues(args), k+1, ref.ShowValues([]any{b}))
					}
				}
			} else if j == 1 {
				if again != "("+to.query+")"+to.query || !equalValues(args, to.args) {
					c.Failf("the same twice in the Dollar style gives %q %s, want %q twice with %s", again, ref.ShowValues(args), to.query, ref.ShowValues(to.args))
				}
			} else if again != "("+to.query+")"+to.query || !equalValues(args, append(append([]any{}, to.args...), to.args...)) {
				c.Failf("the same twice in the Question style gives %q %s, want %q and %s twice", again, ref.ShowValues(args), to.query, ref.ShowValues(to.args))
			}
		}
	}
	var t [2]string
	var e [2]error
	t[0], e[0] = util.Interpolate(q.query, represented(q, d))
	t[1], e[1] = util.Interpolate(d.query, d.args)
	if (e[0] == nil) != (e[1] == nil) || t[0] != t[1] {
		c.Failf("interpolated: %q %v in the Question style, %q %v in the Dollar style", t[0], e[0], t[1], e[1])
	}
	if e[0] == nil {
		if again, err := util.Interpolate(t[0], nil); err != nil || again != t[0] {
			c.Failf("%q interpolated again gives %q %v", t[0], again, err)
		}
		if nodes := newBuilt(t[0], nil, nil); len(nodes.binds) > 0 {
			c.Failf("the interpolated %q has bind variables", t[0])
		}
	}
	return ref.Result{Query: d.query, Args: d.args}
}

// represented returns the args of q, with the values by which they are
// represented in d.
func represented(q, d *built) []any {
	r := append([]any{}, q.args...)
	for k, i := range q.binds {
		r[i-1] = d.args[d.binds[k]-1]
	}
	return r
}

// mergeable reports whether all the args are equal to themselves.
func mergeable(args []any) bool {
	for _, a := range args {
		if !ref.Equal(a, a) {
			return false
		}
	}
	return true
}

func equalValues(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !SameValue(a[i], b[i]) && !ref.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// related are the families whose cases are judged by relations.
var related = []struct {
	id    string
	names []string
	more  []string // only if thorough
}{
	{"C03", []string{"flat", "custom-items", "zips", "wide", "deep"}, []string{"two-levels"}},
	{"C04", []string{"look-alikes", "patterns", "numbers", "mixed-references", "dropped"}, nil},
	{"C05", []string{"affixes", "three-levels", "scopes"}, nil},
	{"C06", []string{"ranges", "empties", "templates", "repeated", "nested-joins"}, nil},
	{"C14", []string{"histories", "limits", "long"}, nil},
	{"C15", []string{"placements", "nested"}, nil},
	{"C16", []string{"references", "histories"}, nil},
	{"C17", []string{"chains"}, []string{"bodies"}},
	{"C18", []string{"nested"}, nil},
	{"C19", []string{"repeated", "many"}, nil},
	{"C20", []string{"references"}, nil},
}

func init() {
	register(&Check{ID: "C29", Assumptions: []string{
		"Built text which doesn't read as a template of its placeholders is left out: adjacent ? of two placeholders (the documented escape ??) and a digit behind a $n.",
		"In the Dollar style an arg equal to an earlier one is represented by that one (0.0 and -0.0).",
	}, Families: func(thorough bool) []*ex.Family {
		relate = true
		var l []*ex.Family
		for _, r := range related {
			for _, f := range All[r.id].Families(thorough) {
				names := r.names
				if thorough {
					names = append(append([]string{}, names...), r.more...)
				}
				for _, name := range names {
					if f.Name == name {
						g := *f
						g.Name = r.id + "-" + name
						g.Rule = "the cases of the family " + name + " of " + r.id + " (" + f.Rule + "), judged by relations between their builds in both styles, between these and builds of the built queries as templates, and between their interpolations"
						l = append(l, &g)
					}
				}
			}
		}
		return l
	}})
}
