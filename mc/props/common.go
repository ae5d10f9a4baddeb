package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// SameValue reports whether a and b are the very same value of the same type.
func SameValue(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
	if ra.Type() != rb.Type() {
		return false
	}
	switch ra.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(ra.Float()) == math.Float64bits(rb.Float()) || ra.Float() != ra.Float() && rb.Float() != rb.Float()
	case reflect.Slice:
		return ra.Pointer() == rb.Pointer() && ra.Len() == rb.Len()
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return ra.Pointer() == rb.Pointer()
	case reflect.Array:
		for i := 0; i < ra.Len(); i++ {
			if !SameValue(ra.Index(i).Interface(), rb.Index(i).Interface()) {
				return false
			}
		}
		return true
	case reflect.Struct, reflect.Complex64, reflect.Complex128:
		return reflect.DeepEqual(a, b) || strings.Contains(fmt.Sprint(a), "NaN")
	}
	return a == b
}

// SameValues compares lists.
func SameValues(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !SameValue(a[i], b[i]) {
			return false
		}
	}
	return true
}

// compare judges the result of a build by the model's.
func compare(c *ex.C, what string, query string, args []any, err error, want ref.Result) {
	if err != nil && (query != "" || args != nil) {
		c.Failf("%s: on error (%v) the query is %q and the args are %s", what, err, query, ref.ShowValues(args))
	}
	if want.Unspec {
		c.Class("unspecified")
		return
	}
	if want.Err != nil {
		if err == nil {
			c.Failf("%s: built to %q %s, want an error: %v", what, query, ref.ShowValues(args), want.Err)
		}
		return
	}
	if err != nil {
		c.Failf("%s: failed with %v, want %q %s", what, err, want.Query, ref.ShowValues(want.Args))
	}
	if query != want.Query || !SameValues(args, want.Args) {
		c.Failf("%s: built to %q %s, want %q %s", what, query, ref.ShowValues(args), want.Query, ref.ShowValues(want.Args))
	}
}

func styleName(dollar bool) string {
	if dollar {
		return "Dollar"
	}
	return "Question"
}

type builder = interface {
	sqlf.QueryBuilder
	sqlf.FragmentBuilder
}

// buildFrag builds the fragment in the implementation and in the model.
// With alignCheck the alignment is checked independently of the model too, the
// templates must not have a $ or ? in their text then.
func buildFrag(c *ex.C, f *ref.Frag, dollar, alignCheck bool) ref.Result {
	if relate {
		return judgeRelations(c, func() builder { return (&ref.Impl{}).Fragment(f) })
	}
	im := &ref.Impl{}
	want := ref.BuildQuery(f, dollar, nil)
	c.Steps(want.Steps)
	q, args, err := im.Fragment(f).BuildQuery(ref.Style(dollar))
	compare(c, styleName(dollar), q, args, err, want)
	if err == nil && !want.Unspec && alignCheck {
		if dollar {
			checkPlaceholders(c, q, args)
		} else {
			checkQuestions(c, q, args)
		}
	}
	return want
}

func note(c *ex.C, r ref.Result) {
	switch {
	case r.Unspec:
		c.State("unspec")
	case r.Err != nil:
		c.Class("error")
		c.State("error: " + r.Err.Error())
	default:
		c.Class("ok")
		c.State(r.Query + "\x00" + fmt.Sprint(len(r.Args)))
	}
}

var dollarRe = regexp.MustCompile(`\$[0-9]+`)

// checkPlaceholders is independent of the model: all numbers are in range,
// first referenced in the order 1, 2, 3..., and all args are referenced. The
// query must not have a $ or ? elsewhere.
func checkPlaceholders(c *ex.C, query string, args []any) {
	next := 1
	for _, m := range dollarRe.FindAllString(query, -1) {
		n, _ := strconv.Atoi(m[1:])
		if n > next || n < 1 {
			c.Failf("placeholder %s appears before $%d in %q", m, next, query)
		}
		if n == next {
			next++
		}
	}
	if next != len(args)+1 {
		c.Failf("%d args, but %q has placeholders up to $%d", len(args), query, next-1)
	}
}

func checkQuestions(c *ex.C, query string, args []any) {
	if n := strings.Count(query, "?"); n != len(args) {
		c.Failf("%d args, but %q has %d placeholders", len(args), query, n)
	}
}

// textItem is a custom builder with fixed text.
type textItem struct{ Text string }

func (t textItem) BuildFragment(*sqlf.Context) (string, error) { return t.Text, nil }
func (t textItem) RefBuild(*ref.Eval) (string, error)          { return t.Text, nil }

// argItem is a custom builder committing args itself.
type argItem struct{ Vals []any }

func (t argItem) BuildFragment(ctx *sqlf.Context) (string, error) {
	s := make([]string, len(t.Vals))
	for i, v := range t.Vals {
		s[i] = ctx.CommitArg(v)
	}
	return "(" + strings.Join(s, ",") + ")", nil
}
func (t argItem) RefBuild(e *ref.Eval) (string, error) {
	s := make([]string, len(t.Vals))
	for i, v := range t.Vals {
		s[i] = e.Commit(v)
	}
	return "(" + strings.Join(s, ",") + ")", nil
}

// errItem fails.
type errItem struct{ Err error }

func (t errItem) BuildFragment(*sqlf.Context) (string, error) { return "", t.Err }
func (t errItem) RefBuild(*ref.Eval) (string, error)          { return "", t.Err }

// panicItem panics.
type panicItem struct{ V any }

func (t panicItem) BuildFragment(*sqlf.Context) (string, error) { panic(t.V) }
func (t panicItem) RefBuild(*ref.Eval) (string, error) {
	if e, ok := t.V.(error); ok {
		return "", e
	}
	return "", errors.New("model: panic")
}

var numberParam = []reflect.Kind{reflect.Float64}

var stringParam = []reflect.Kind{reflect.String}
