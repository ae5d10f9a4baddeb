package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

type (
	nInt   int
	nU8    uint8
	nF32   float32
	nStr   string
	nBool  bool
	nSlice []int
	nCtx   = *sqlf.Context
)

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// paramTypes are parameter types, the first ones are allowed.
var okTypes = []reflect.Type{
	typeOf[int](), typeOf[string](), typeOf[bool](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](), typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[float32](), typeOf[float64](),
	typeOf[nInt](), typeOf[nU8](), typeOf[nF32](), typeOf[nStr](), typeOf[nBool](),
}
var ctxType = typeOf[*sqlf.Context]()
var badTypes = []reflect.Type{
	typeOf[any](), typeOf[error](), typeOf[[]int](), typeOf[[]byte](), typeOf[*int](), typeOf[*string](), typeOf[sqlf.Context](), typeOf[map[string]int](), typeOf[func()](), typeOf[chan int](), typeOf[complex128](), typeOf[uintptr](), typeOf[struct{}](), typeOf[[2]int](), typeOf[nSlice](), typeOf[**sqlf.Context](), typeOf[reflect.Value](), typeOf[*sqlf.Fragment](), typeOf[[]*sqlf.Context](),
}

var resultLists = func() []struct {
	types []reflect.Type
	ok    bool
} {
	s, e := typeOf[string](), typeOf[error]()
	type r = struct {
		types []reflect.Type
		ok    bool
	}
	l := func(t ...reflect.Type) []reflect.Type { return t }
	return []r{
		{l(s), true}, {l(s, e), true}, {nil, true},
		{l(e), false}, {l(typeOf[int]()), false}, {l(typeOf[any]()), false}, {l(typeOf[nStr]()), false}, {l(typeOf[[]byte]()), false}, {l(typeOf[bool]()), false}, {l(typeOf[*string]()), false},
		{l(s, s), false}, {l(e, s), false}, {l(s, typeOf[any]()), false}, {l(s, typeOf[*panicErr]()), false}, {l(typeOf[any](), e), false}, {l(s, typeOf[bool]()), false}, {l(nil2(), e), false},
		{l(s, e, e), false}, {l(s, e, s), false}, {l(s, s, e), false},
	}
}()

func nil2() reflect.Type { return typeOf[nStr]() }

func isOK(t reflect.Type) bool {
	for _, o := range okTypes {
		if o == t {
			return true
		}
	}
	return false
}

func isNum(t reflect.Type) bool { return t.Kind() != reflect.String && t.Kind() != reflect.Bool }

// literal of an argument list with its value.
type literal struct {
	text string
	v    any // float64, string, bool, nil
}

// beyond is a number which no type can hold.
type beyond struct{}

var someLiterals = []literal{{"1", 1.0}, {"'a''b'", "a'b"}, {"true", true}, {"null", nil}}

// convertible tells what the literal is as a t: known is false if it's not specified.
func convertible(l literal, t reflect.Type) (v reflect.Value, ok, known bool) {
	switch x := l.v.(type) {
	case beyond:
		return v, false, true
	case string:
		if t.Kind() != reflect.String {
			return v, false, true
		}
	case bool:
		if t.Kind() != reflect.Bool {
			return v, false, true
		}
	case float64:
		if !isNum(t) {
			return v, false, true
		}
		r := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Float32, reflect.Float64:
			if t.Kind() == reflect.Float32 && math.Abs(x) > math.MaxFloat32 {
				return v, false, false
			}
			r.SetFloat(x)
			return r, true, true
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if x != math.Trunc(x) || x == 0 && math.Signbit(x) {
				return v, false, false
			}
			if x < 0 || x >= math.Ldexp(1, t.Bits()) {
				return v, false, true
			}
			r.SetUint(uint64(x))
			return r, true, true
		}
		if x != math.Trunc(x) {
			return v, false, false
		}
		lim := math.Ldexp(1, t.Bits()-1)
		if x < -lim || x >= lim {
			return v, false, true
		}
		r.SetInt(int64(x))
		return r, true, true
	case nil:
		return v, false, true
	}
	return reflect.ValueOf(l.v).Convert(t), true, true
}

// callCase calls a function of the parameters with the literals and judges it.
func callCase(c *ex.C, params []reflect.Type, variadic bool, results []reflect.Type, lits []literal, form string) {
	called := 0
	var got []reflect.Value
	retErr := errors.New("returned")
	fail := len(results) == 2 && len(lits)%2 == 1
	inTypes := append([]reflect.Type{}, params...)
	if variadic {
		inTypes[len(inTypes)-1] = reflect.SliceOf(inTypes[len(inTypes)-1])
	}
	fn := reflect.MakeFunc(reflect.FuncOf(inTypes, results, variadic), func(in []reflect.Value) []reflect.Value {
		called++
		got = nil
		for i, v := range in {
			if variadic && i == len(in)-1 {
				for k := 0; k < v.Len(); k++ {
					got = append(got, v.Index(k))
				}
				break
			}
			got = append(got, v)
		}
		var out []reflect.Value
		if len(results) > 0 {
			out = append(out, reflect.ValueOf("<?$1#f1'"))
		}
		if len(results) > 1 {
			e := reflect.Zero(typeOf[error]())
			if fail {
				e = reflect.ValueOf(&retErr).Elem()
			}
			out = append(out, e)
		}
		return out
	})
	hasCtx := len(params) > 0 && params[0] == ctxType
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{"fn": fn.Interface()})
	if err != nil {
		c.Failf("registering %s: %v", fn.Type(), err)
	}
	q, err := sqlf.F("a " + form + " b").BuildFragment(ctx)
	// the model
	ps := params
	if hasCtx {
		ps = ps[1:]
	}
	fixed := len(ps)
	if variadic {
		fixed--
	}
	ok, known := len(lits) == fixed || variadic && len(lits) > fixed, true
	var want []reflect.Value
	for i := 0; ok && i < len(lits); i++ {
		t := ps[len(ps)-1]
		if i < fixed {
			t = ps[i]
		}
		v, o, k := convertible(lits[i], t)
		if !k {
			known = false
		}
		ok = ok && (o || !k)
		want = append(want, v)
	}
	if !known && ok {
		c.Class("unspecified")
		return
	}
	if !ok {
		c.Class("refused")
		if err == nil {
			c.Failf("%s called by %s: no error, built to %q", fn.Type(), form, q)
		}
		if called != 0 {
			c.Failf("%s is called by %s", fn.Type(), form)
		}
		return
	}
	c.Class("called")
	if called != 1 {
		c.Failf("%s is called %d times by %s (%v)", fn.Type(), called, form, err)
	}
	if hasCtx {
		g, _ := got[0].Interface().(*sqlf.Context)
		if g == nil {
			c.Failf("%s: the context is nil", fn.Type())
		}
		if g.CommitArg(12345); len(ctx.Args()) != 1 {
			c.Failf("%s: the context given is not of the build", fn.Type())
		}
		got = got[1:]
	}
	if len(got) != len(want) {
		c.Failf("%s called by %s: got %d args", fn.Type(), form, len(got))
	}
	for i := range got {
		if got[i].Type() != want[i].Type() || !SameValue(got[i].Interface(), want[i].Interface()) {
			c.Failf("%s called by %s: arg %d is %v(%v), want %v(%v)", fn.Type(), form, i+1, got[i].Type(), got[i], want[i].Type(), want[i])
		}
	}
	switch {
	case fail:
		if err == nil || !errors.Is(err, retErr) || q != "" {
			c.Failf("%s: the error returned is lost: %q, %v", fn.Type(), q, err)
		}
	default:
		w := "a <?$1#f1' b"
		if len(results) == 0 {
			w = "a  b"
		}
		if err != nil || q != w {
			c.Failf("%s called by %s: built to %q (%v), want %q", fn.Type(), form, q, err, w)
		}
	}
}

func form(lits []literal, sp string) string {
	var t []string
	for _, l := range lits {
		t = append(t, l.text)
	}
	return "#fn(" + strings.Join(t, ","+sp) + ")"
}

func init() {
	register(&Check{ID: "C09", Assumptions: []string{
		"Types whose kind is allowed (named ones) are numbers, strings and bools too; the results must have exactly the types string and error.",
		"Unspecified: fractional numbers given to integers, numbers beyond the range of float32. Numbers are read as float64, so integers beyond 2^53 are rounded before.",
	}, Families: func(thorough bool) []*ex.Family {
		all := append(append([]reflect.Type{ctxType}, okTypes...), badTypes...)
		few := append(append([]reflect.Type{ctxType}, okTypes[:4]...), badTypes[0], badTypes[2], okTypes[17], okTypes[13])
		sig := func(c *ex.C, params []reflect.Type, variadic bool) {
			res := resultLists[c.N(len(resultLists))]
			in := append([]reflect.Type{}, params...)
			if variadic {
				in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
			}
			t := reflect.FuncOf(in, res.types, variadic)
			c.Desc(func() string { return "signature " + t.String() })
			want := res.ok
			for i, p := range params {
				if i == 0 && p == ctxType && !(variadic && len(params) == 1) {
					continue
				}
				want = want && isOK(p)
			}
			called := false
			fn := reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { called = true; panic("never") })
			_, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{"fn": fn.Interface()})
			if (err == nil) != want {
				c.Failf("registering %s: %v, want success: %v", t, err, want)
			}
			if called {
				c.Failf("registering %s calls the function", t)
			}
			c.State(t.String())
			c.Class(fmt.Sprintf("accepted: %v", want))
		}
		calls := func(c *ex.C, ts []reflect.Type, nP, nL int, lits []literal) {
			var params []reflect.Type
			if c.Bool() {
				params = append(params, ctxType)
			}
			n := c.N(nP + 1)
			for i := 0; i < n; i++ {
				params = append(params, ts[c.N(len(ts))])
			}
			variadic := n > 0 && c.Bool()
			res := resultLists[c.N(3)].types
			var l []literal
			for k := c.N(nL + 1); k > 0; k-- {
				l = append(l, lits[c.N(len(lits))])
			}
			f := form(l, ex.Pick(c, "", " "))
			c.Desc(func() string {
				return fmt.Sprintf("func%v variadic %v returning %v called by %s", params, variadic, res, f)
			})
			callCase(c, params, variadic, res, l, f)
			c.State(fmt.Sprint(params, variadic, len(res), f))
		}
		return []*ex.Family{
			{Name: "signatures", Rule: fmt.Sprintf("every signature of up to 2 parameters of %d types, variadic or not, with %d lists of results", len(all), len(resultLists)),
				Body: func(c *ex.C) {
					var params []reflect.Type
					for n := c.N(3); n > 0; n-- {
						params = append(params, all[c.N(len(all))])
					}
					sig(c, params, len(params) > 0 && c.Bool())
				}},
			{Name: "signatures-3", Rule: fmt.Sprintf("every signature of 3 (thorough 3 and 4) parameters of %d types, variadic or not, with the lists of results", len(few)),
				Body: func(c *ex.C) {
					var params []reflect.Type
					n := 3
					if thorough {
						n += c.N(2)
					}
					for ; n > 0; n-- {
						params = append(params, few[c.N(len(few))])
					}
					sig(c, params, c.Bool())
				}},
			{Name: "no-functions", Rule: "values which are no functions",
				Body: func(c *ex.C) {
					vs := []any{nil, 1, "x", struct{}{}, &struct{}{}, []func(){}, map[string]func(){}, reflect.ValueOf(func() {}), (func())(nil), sqlf.FuncMap{}}
					i := c.N(len(vs))
					c.Desc(func() string { return fmt.Sprintf("registering a %T", vs[i]) })
					_, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{"fn": vs[i]})
					if err == nil && i != 8 {
						c.Failf("registering a %T succeeds", vs[i])
					}
					c.State(fmt.Sprint(i))
				}},
			{Name: "names", Rule: "every code point as name, first, inner and last character of a name, every byte, sampled names of 2..4 symbols exhaustively",
				Body: func(c *ex.C) {
					var name string
					switch c.N(3) {
					case 0:
						hi := c.N(0x1100)
						r := rune(hi<<8 | c.N(256))
						if r >= 0xD800 && r < 0xE000 {
							c.Skip()
						}
						name = string(r)
					case 1:
						name = string([]byte{byte(c.N(256))})
					case 2:
						name = symbols(c, 4, []string{"a", "Z", "_", "é", "1", " ", "-", "日"})
					}
					switch c.N(4) {
					case 1:
						name = "a" + name
					case 2:
						name += "a"
					case 3:
						name = "x_" + name + "y"
					}
					want := name != ""
					for i, r := range name {
						if r == unicode.ReplacementChar && !strings.HasPrefix(name[i:], "\uFFFD") || r != '_' && !unicode.IsLetter(r) {
							want = false
						}
					}
					c.Desc(func() string { return fmt.Sprintf("name %q", name) })
					_, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{name: func() {}})
					if (err == nil) != want {
						c.Failf("name %q: %v, want success: %v", name, err, want)
					}
					c.Class(fmt.Sprintf("accepted: %v", want))
				}},
			{Name: "callable-names", Rule: "functions of every name of up to 3 letters of 6 alphabets, called in 3 forms",
				Body: func(c *ex.C) {
					name := symbols(c, 3, []string{"a", "Z", "_", "é", "日", "ß", "f"})
					if name == "" || name == "f" {
						c.Skip()
					}
					c.Desc(func() string { return fmt.Sprintf("name %q", name) })
					ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(true)), sqlf.FuncMap{name: func(i int) (string, error) { return strconv.Itoa(-i), listEnd(i, 3) }})
					if err != nil {
						c.Failf("registering: %v", err)
					}
					ascii := strings.IndexFunc(name, func(r rune) bool { return r > 127 }) < 0
					q, err := sqlf.F("a#" + name + "2,#" + name + "(3),#join('#" + name + "','+')").BuildFragment(ctx)
					if ascii && (err != nil || q != "a-2,-3,-1+-2+-3") {
						c.Failf("#%s builds to %q (%v)", name, q, err)
					}
					c.Class(fmt.Sprintf("ok: %v", err == nil))
				}},
			{Name: "calls", Rule: "functions of an optional context and up to 2 parameters of 5 types (thorough 3), variadic or not, 3 lists of results, called with all lists of up to 3 of 4 literals",
				Body: func(c *ex.C) {
					calls(c, []reflect.Type{okTypes[0], okTypes[1], okTypes[2], okTypes[17], okTypes[12]}, choose(thorough, 2, 3), 3, someLiterals)
				}},
			{Name: "conversions", Rule: "every allowed parameter type, fixed or variadic, with every literal of 50: bounds of all integer types and of float64, fractions, strings, bools, null",
				Body: func(c *ex.C) {
					var ls []literal
					for _, s := range []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740991", "9007199254740993", "4611686018427387904", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9300000000000000000", "18446744073709551615", "18446744073709551616", "1.5", "-0.5", "0.1", "007", "+3", "-0", "1.0", "100000000000000000000000000000000000000000"} {
						v, _ := strconv.ParseFloat(s, 64)
						ls = append(ls, literal{s, v})
					}
					ls = append(ls, literal{"1" + strings.Repeat("0", 308), 1e308})
					for _, s := range []string{"1" + strings.Repeat("0", 309), "-" + strings.Repeat("9", 309), strings.Repeat("1", 400), "-1" + strings.Repeat("0", 400)} {
						ls = append(ls, literal{s, beyond{}})
					}
					ls = append(ls, literal{"''", ""}, literal{"'1'", "1"}, literal{"'é?#f1$1'", "é?#f1$1"}, literal{"false", false}, literal{"true", true}, literal{"null", nil}, literal{"nil", nil})
					t := okTypes[c.N(len(okTypes))]
					l := ls[c.N(len(ls))]
					params := []reflect.Type{t}
					lits := []literal{l}
					v := c.Bool()
					switch c.N(4) {
					case 1:
						params = []reflect.Type{ctxType, t}
					case 2:
						params = []reflect.Type{typeOf[string](), t}
						lits = []literal{{"'x'", "x"}, l}
					case 3:
						params = []reflect.Type{t, t}
						lits = []literal{l, l}
					}
					f := form(lits, "")
					c.Desc(func() string { return fmt.Sprintf("func%v variadic %v called by %s", params, v, f) })
					callCase(c, params, v, resultLists[0].types, lits, f)
					c.State(fmt.Sprint(params, v, f))
				}},
			{Name: "index-form", Rule: "#fnN for N 0..400 with each allowed parameter type, as a call, and by #join",
				Body: func(c *ex.C) {
					t := okTypes[c.N(len(okTypes))]
					n := c.N(401)
					params := []reflect.Type{t}
					if c.Bool() {
						params = []reflect.Type{ctxType, t}
					}
					v := c.Bool()
					f := fmt.Sprintf("#fn%d", n)
					c.Desc(func() string { return fmt.Sprintf("func%v called by %s", params, f) })
					callCase(c, params, v, resultLists[0].types, []literal{{fmt.Sprint(n), float64(n)}}, f)
					c.State(fmt.Sprint(params, f))
				}},
			{Name: "outcomes", Rule: "functions with and without context returning 8 strings, with or without error, panicking or not, in 6 uses; a context builds other fragments in place",
				Body: func(c *ex.C) {
					text := ex.Pick(c, "", "x", "?", "$1", "#f1", " ' ", "\x00", "a\nb")
					kind := c.N(5)
					boom := errors.New("boom")
					args := 0
					body := func(ctx *sqlf.Context, i int) (string, error) {
						s := text
						if ctx != nil {
							s += ctx.CommitArg(fmt.Sprint("v", i))
							in, err := sqlf.Ff("(#f1#none())", sqlf.Fa("?", fmt.Sprint("w", i))).BuildFragment(ctx)
							if err != nil {
								return "", err
							}
							s += in
							args += 2
						}
						switch kind {
						case 1:
							return s, boom
						case 2:
							panic(boom)
						case 3:
							panic("text")
						case 4:
							return s, fmt.Errorf("w: %w", boom)
						}
						return s, listEnd(i, 3)
					}
					withCtx := c.Bool()
					funcs := sqlf.FuncMap{"none": func() {}}
					if withCtx {
						funcs["g"] = body
					} else {
						funcs["g"] = func(i int) (string, error) { return body(nil, i) }
					}
					raw := ex.Pick(c, "#g1", "a #g(2) b", "#g1,#g2", "$1#g1", "#f1 #g1", "#g3'#g1'")
					dollar := c.Bool()
					c.Desc(func() string { return fmt.Sprintf("%q, kind %d, text %q, context %v", raw, kind, text, withCtx) })
					f := &sqlf.Fragment{Raw: raw}
					if strings.Contains(raw, "$1") {
						f.Args = []any{"own"}
					}
					if strings.Contains(raw, "#f1") {
						f.Fragments = []sqlf.FragmentBuilder{sqlf.Fa("z$1", "own")}
					}
					ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(ref.Style(dollar)), funcs)
					if err != nil {
						c.Failf("registering: %v", err)
					}
					q, err := f.BuildFragment(ctx)
					if kind != 0 {
						if err == nil || q != "" {
							c.Failf("built to %q (%v) although the function fails", q, err)
						}
						if kind != 3 && !errors.Is(err, boom) {
							c.Failf("the error of the function is lost: %v", err)
						}
						c.Class("error")
						return
					}
					if err != nil {
						c.Failf("failed with %v", err)
					}
					e := &ref.Eval{Dollar: dollar}
					g := func(i int) string {
						s := text
						if withCtx {
							s += e.Commit(fmt.Sprint("v", i)) + "(" + e.Commit(fmt.Sprint("w", i)) + ")"
						}
						return s
					}
					var want string
					switch raw {
					case "#g1":
						want = g(1)
					case "a #g(2) b":
						want = "a " + g(2) + " b"
					case "#g1,#g2":
						want = g(1) + "," + g(2)
					case "$1#g1":
						want = e.Commit("own") + g(1)
					case "#f1 #g1":
						want = "z" + e.Commit("own") + " " + g(1)
					case "#g3'#g1'":
						want = g(3) + "'#g1'"
					}
					want = strings.TrimSpace(want)
					if q != want || !SameValues(ctx.Args(), e.Args) {
						c.Failf("built to %q %s, want %q %s", q, ref.ShowValues(ctx.Args()), want, ref.ShowValues(e.Args))
					}
					c.Class("ok")
					c.State(want)
				}},
		}
	}})
}
