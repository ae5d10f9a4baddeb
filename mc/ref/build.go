package ref

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

// Frag is the model of a fragment: plain values, nothing else.
type Frag struct {
	Raw            string
	Args           []any
	Items          []any // nil, *Frag or Item
	Prefix, Suffix string
}

// Item is something else than a fragment that can be referenced, it knows
// what it builds to in the model, and is a builder of the implementation.
type Item interface {
	sqlf.FragmentBuilder
	RefBuild(e *Eval) (string, error)
}

// Convertible is an item which is made for the implementation from the model.
type Convertible interface {
	ToImpl(im *Impl) sqlf.FragmentBuilder
	RefBuild(e *Eval) (string, error)
}

// Style is the implementation's constant.
func Style(dollar bool) syntax.BindVarStyle {
	if dollar {
		return syntax.Dollar
	}
	return syntax.Question
}

// Impl makes the fragments of the implementation, the ones shared in the model are shared.
type Impl struct {
	m map[*Frag]*sqlf.Fragment
	o map[any]any
}

// Fragment converts f.
func (im *Impl) Fragment(f *Frag) *sqlf.Fragment {
	if f == nil {
		return nil
	}
	if im.m == nil {
		im.m = map[*Frag]*sqlf.Fragment{}
	}
	if r, ok := im.m[f]; ok {
		return r
	}
	r := &sqlf.Fragment{Raw: f.Raw, Prefix: f.Prefix, Suffix: f.Suffix}
	im.m[f] = r
	if f.Args != nil {
		r.Args = append([]any{}, f.Args...)
	}
	for _, it := range f.Items {
		r.Fragments = append(r.Fragments, im.Item(it))
	}
	return r
}

// Item converts it.
func (im *Impl) Item(it any) sqlf.FragmentBuilder {
	switch it := it.(type) {
	case nil:
		return nil
	case *Frag:
		return im.Fragment(it)
	case Convertible:
		return it.ToImpl(im)
	case Item:
		return it
	}
	panic("ex: unknown item")
}

// Fn is the model of a function.
type Fn struct {
	Params   []reflect.Kind // Float64 for all numbers, String, Bool
	Variadic bool
	Join     bool // usable in #join
	Do       func(e *Eval, sc *Scope, args []any) (string, error)
}

// Eval is the state of a build.
type Eval struct {
	Dollar bool
	Args   []any
	Unspec bool // something was met for which the result is not specified
	Funcs  map[string]*Fn
	Parses map[string]parseResult
	Steps  int
	// OnQuery is called for each query built, inner ones first
	OnQuery func(q *Query)
}

type parseResult struct {
	nodes []Node
	v     Verdict
}

// Scope is the fragment being built.
type Scope struct {
	Frag         *Frag
	usedA, usedF []uint8 // 0 no, 1 maybe, 2 yes
}

// errors of the model
var (
	ErrBuild = errors.New("model: invalid")
)

// indexError is the error of a function for an index without item.
type indexError struct{ i int }

func (e indexError) Error() string        { return fmt.Sprintf("model: invalid index %d", e.i) }
func (e indexError) Is(target error) bool { return target == sqlf.ErrInvalidIndex }

func invalid(format string, args ...any) error {
	return fmt.Errorf("%w: "+format, append([]any{ErrBuild}, args...)...)
}

// Equal reports whether two args share a number in the Dollar style.
func Equal(a, b any) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

// Commit commits an arg.
func (e *Eval) Commit(v any) string {
	if !e.Dollar {
		e.Args = append(e.Args, v)
		return "?"
	}
	for i, a := range e.Args {
		if Equal(a, v) {
			return "$" + strconv.Itoa(i+1)
		}
	}
	e.Args = append(e.Args, v)
	return "$" + strconv.Itoa(len(e.Args))
}

func (e *Eval) parse(s string) ([]Node, Verdict) {
	nodes, v := Parse(s)
	return nodes, v
}

// BuildItem builds an item.
func (e *Eval) BuildItem(it any) (string, error) {
	switch it := it.(type) {
	case nil:
		e.Unspec = true
		return "", invalid("nil item")
	case *Frag:
		return e.Build(it)
	case Convertible:
		return it.RefBuild(e)
	case Item:
		return it.RefBuild(e)
	}
	panic("ex: unknown item")
}

// Build builds a fragment.
func (e *Eval) Build(f *Frag) (string, error) {
	if f == nil {
		return "", nil
	}
	e.Steps++
	nodes, v := e.parse(f.Raw)
	if v != OK {
		e.Unspec = e.Unspec || v == Unspec
		return "", invalid("template %q", f.Raw)
	}
	sc := &Scope{Frag: f, usedA: make([]uint8, len(f.Args)), usedF: make([]uint8, len(f.Items))}
	b := new(strings.Builder)
	for _, n := range nodes {
		s, err := e.node(sc, n)
		if err != nil {
			return "", nest(err)
		}
		b.WriteString(s)
	}
	for i, u := range sc.usedA {
		switch u {
		case 0:
			return "", invalid("arg %d of %q is not used", i+1, f.Raw)
		case 1:
			e.Unspec = true
		}
	}
	for i, u := range sc.usedF {
		switch u {
		case 0:
			return "", invalid("fragment %d of %q is not used", i+1, f.Raw)
		case 1:
			e.Unspec = true
		}
	}
	s := strings.TrimSpace(b.String())
	if s == "" {
		return "", nil
	}
	if f.Prefix != "" {
		s = f.Prefix + " " + s
	}
	if f.Suffix != "" {
		s = s + " " + f.Suffix
	}
	return s, nil
}

// nestErr is an error from inside of an item, never the end of a #join.
type nestErr struct{ error }

func (n nestErr) Unwrap() error { return n.error }

// Nest marks an error as one from inside of an item.
func Nest(err error) error { return nestErr{err} }
func nest(err error) error { return nestErr{err} }

func isEnd(err error) bool {
	var n nestErr
	return errors.Is(err, sqlf.ErrInvalidIndex) && !errors.As(err, &n)
}

func (e *Eval) node(sc *Scope, n Node) (string, error) {
	e.Steps++
	switch n.Kind {
	case Plain:
		return n.Text, nil
	case Bind:
		return e.bind(sc, n.Index)
	case Call:
		return e.call(sc, n.Name, n.Args)
	}
	return "", invalid("function value #%s", n.Name)
}

func (e *Eval) bind(sc *Scope, i int) (string, error) {
	if i < 1 || i > len(sc.Frag.Args) {
		return "", nest(invalid("no arg %d", i))
	}
	sc.usedA[i-1] = 2
	return e.Commit(sc.Frag.Args[i-1]), nil
}

// index is the value of an index argument.
func (e *Eval) index(v any) int {
	f, _ := v.(float64)
	if i, ok := v.(int); ok {
		return i
	}
	if f != float64(int64(f)) && f < 1e15 && f > -1e15 {
		e.Unspec = true
	}
	if f > 1e9 {
		return 2e9 // more than any list has
	}
	if f < -1e9 {
		return -1
	}
	return int(f)
}

var builtins = map[string]*Fn{}

func init() {
	f := &Fn{Params: []reflect.Kind{reflect.Float64}, Join: true, Do: func(e *Eval, sc *Scope, args []any) (string, error) {
		i := e.index(args[0])
		if i < 1 || i > len(sc.Frag.Items) {
			return "", indexError{i}
		}
		sc.usedF[i-1] = 2
		s, err := e.BuildItem(sc.Frag.Items[i-1])
		if err != nil {
			return "", nest(err)
		}
		return s, nil
	}}
	builtins["f"] = f
	builtins["fragment"] = f
	builtins["arg"] = &Fn{Params: []reflect.Kind{reflect.Float64}, Join: true, Do: func(e *Eval, sc *Scope, args []any) (string, error) {
		i := e.index(args[0])
		if i < 1 || i > len(sc.Frag.Args) {
			return "", indexError{i}
		}
		return e.bind(sc, i)
	}}
	builtins["join"] = &Fn{Params: []reflect.Kind{reflect.String, reflect.String, reflect.Float64}, Variadic: true, Do: join}
}

func (e *Eval) fn(name string) *Fn {
	if f := e.Funcs[name]; f != nil {
		return f
	}
	return builtins[name]
}

func kindOf(v any) reflect.Kind {
	switch v.(type) {
	case string:
		return reflect.String
	case bool:
		return reflect.Bool
	case float64, int:
		return reflect.Float64
	}
	return reflect.Invalid
}

func (e *Eval) call(sc *Scope, name string, args []any) (string, error) {
	f := e.fn(name)
	if f == nil {
		return "", invalid("no function #%s", name)
	}
	fixed := len(f.Params)
	if f.Variadic {
		fixed--
	}
	if len(args) < fixed || !f.Variadic && len(args) > fixed {
		return "", invalid("wrong number of args for #%s", name)
	}
	for i, a := range args {
		p := f.Params[len(f.Params)-1]
		if i < fixed {
			p = f.Params[i]
		}
		if kindOf(a) != p {
			return "", invalid("arg %d of #%s has a wrong type", i+1, name)
		}
		if v, ok := a.(float64); ok && (v >= 1<<63 || v < -1<<63) {
			return "", invalid("arg %d of #%s overflows", i+1, name)
		}
	}
	return f.Do(e, sc, args)
}

func join(e *Eval, sc *Scope, args []any) (string, error) {
	tmpl, sep := args[0].(string), args[1].(string)
	from, to := 0, 0
	switch len(args) {
	case 2:
	case 3:
		from = e.index(args[2])
	case 4:
		from, to = e.index(args[2]), e.index(args[3])
	default:
		return "", invalid("too many args for #join")
	}
	if to > 0 && from > to {
		return "", invalid("range %d to %d", from, to)
	}
	nodes, v := e.parse(tmpl)
	if v != OK {
		e.Unspec = e.Unspec || v == Unspec
		return "", invalid("join template %q", tmpl)
	}
	calls := 0
	for _, n := range nodes {
		if n.Kind != Func {
			continue
		}
		f := e.fn(n.Name)
		if f == nil || !f.Join {
			return "", invalid("function #%s in a join template", n.Name)
		}
		calls++
	}
	if calls == 0 {
		return "", invalid("no function in the join template %q", tmpl)
	}
	start := from
	if start < 1 {
		start = 1
	}
	var parts []string
	for i := start; to <= 0 || i <= to; i++ {
		argsBefore := e.Args[:len(e.Args):len(e.Args)]
		usedA, usedF := append([]uint8{}, sc.usedA...), append([]uint8{}, sc.usedF...)
		staticA, staticF := make([]bool, len(usedA)), make([]bool, len(usedF))
		item := ""
		end := false
		for _, n := range nodes {
			if n.Kind == Func {
				s, err := e.call(sc, n.Name, []any{i})
				if err != nil {
					if !isEnd(err) {
						return "", err
					}
					end = true
					break
				}
				item += s
				continue
			}
			a, f := append([]uint8{}, sc.usedA...), append([]uint8{}, sc.usedF...)
			s, err := e.node(sc, n)
			if err != nil {
				return "", nest(err)
			}
			item += s
			for k := range a {
				staticA[k] = staticA[k] || a[k] != sc.usedA[k]
			}
			for k := range f {
				staticF[k] = staticF[k] || f[k] != sc.usedF[k]
			}
		}
		if end {
			e.Args = argsBefore
			if i == from || to > 0 {
				return "", nest(invalid("no item %d to join", i))
			}
			// nothing of the item dropped has happened, except that it is
			// not specified whether references with fixed index count as used
			for k := range usedA {
				if staticA[k] && usedA[k] == 0 {
					usedA[k] = 1
				}
			}
			for k := range usedF {
				if staticF[k] && usedF[k] == 0 {
					usedF[k] = 1
				}
			}
			sc.usedA, sc.usedF = usedA, usedF
			break
		}
		if item != "" {
			parts = append(parts, item)
		}
	}
	return strings.Join(parts, sep), nil
}

// Result of a build.
type Result struct {
	Query  string
	Args   []any
	Err    error
	Unspec bool
	Steps  int
}

// BuildQuery builds f as a query.
func BuildQuery(f *Frag, dollar bool, funcs map[string]*Fn) Result {
	e := &Eval{Dollar: dollar, Funcs: funcs}
	s, err := e.Build(f)
	if err != nil {
		return Result{Err: err, Unspec: e.Unspec, Steps: e.Steps}
	}
	return Result{Query: s, Args: e.Args, Unspec: e.Unspec, Steps: e.Steps}
}

// Show renders f.
func (f *Frag) Show() string {
	if f == nil {
		return "nil"
	}
	b := new(strings.Builder)
	fmt.Fprintf(b, "{%q", f.Raw)
	if len(f.Args) > 0 {
		fmt.Fprintf(b, " args=%s", ShowValues(f.Args))
	}
	if len(f.Items) > 0 {
		b.WriteString(" fragments=[")
		for i, it := range f.Items {
			if i > 0 {
				b.WriteString(" ")
			}
			switch it := it.(type) {
			case nil:
				b.WriteString("<nil>")
			case *Frag:
				b.WriteString(it.Show())
			case interface{ Show() string }:
				b.WriteString(it.Show())
			default:
				fmt.Fprintf(b, "%T%+v", it, it)
			}
		}
		b.WriteString("]")
	}
	if f.Prefix != "" {
		fmt.Fprintf(b, " prefix=%q", f.Prefix)
	}
	if f.Suffix != "" {
		fmt.Fprintf(b, " suffix=%q", f.Suffix)
	}
	b.WriteString("}")
	return b.String()
}

// ShowValues renders values with their types.
func ShowValues(vs []any) string {
	if vs == nil {
		return "nil"
	}
	s := make([]string, len(vs))
	for i, v := range vs {
		s[i] = fmt.Sprintf("%T(%v)", v, v)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// Each visits the fragments made.
func (im *Impl) Each(f func(m *Frag, r *sqlf.Fragment)) {
	for m, r := range im.m {
		f(m, r)
	}
}
