package props

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

type (
	myInt     int
	myString  string
	myBool    bool
	myFloat   float64
	myBytes   []byte
	myInts    []int
	myAny     any
	myPair    struct{ A, B any }
	myErr     struct{ s string }
	myStr     interface{ String() string }
	myArr     [2]int
	myPtr     *[]int
	mySelf    []mySelf
	valuerInt int
)

func (e myErr) Error() string   { return e.s }
func (e myErr) String() string  { return e.s }
func (myBytes) String() string  { return "bytes" }
func (v myInts) Error() string  { return "ints" }
func (v valuerInt) Sum() string { return "" }

func ptr[T any](v T) *T { return &v }

// element is a type of elements with three different values of it.
type element struct {
	typ  reflect.Type
	vals [3]any
}

func elem[T any](a, b, c T) element {
	return element{reflect.TypeOf((*T)(nil)).Elem(), [3]any{a, b, c}}
}

var elements = []element{
	elem(1, 0, -1), elem(int8(1), int8(-128), int8(0)), elem(int16(1), int16(2), int16(1)), elem(int32(1), int32(0), int32(math.MinInt32)), elem(int64(1), int64(math.MinInt64), int64(0)),
	elem(uint(1), uint(0), uint(math.MaxUint)), elem(byte(1), byte(0), byte(255)), elem(uint16(1), uint16(0), uint16(9)), elem(uint32(1), uint32(0), uint32(math.MaxUint32)), elem(uint64(1), uint64(0), uint64(math.MaxUint64)), elem(uintptr(1), uintptr(0), uintptr(2)),
	elem(float32(1), float32(0.1), float32(math.Inf(1))), elem(1.0, 0.1, math.NaN()), elem(complex(1, 1), complex(0, 1), complex(1, 0)), elem(complex64(1), complex64(0), complex64(2)),
	elem("a", "", "a b"), elem(true, false, true),
	elem(myInt(1), myInt(0), myInt(2)), elem(myString("a"), myString(""), myString("b")), elem(myBool(true), myBool(false), myBool(true)), elem(myFloat(1), myFloat(0), myFloat(-1)), elem(valuerInt(1), valuerInt(0), valuerInt(2)),
	elem[any](nil, 1, []int{1, 2}), elem[any]("s", [2]int{1, 2}, (*int)(nil)), elem[any]([]any{1}, []any(nil), &[]int{3}), elem[myAny](1, nil, []int{4}),
	elem[error](errors.New("e"), nil, myErr{"x"}), elem[myStr](nil, myErr{"y"}, myBytes("z")), elem[fmt.Stringer](time.Second, nil, myErr{"q"}),
	elem(ptr(1), nil, ptr(1)), elem(ptr("a"), nil, ptr("")), elem(&[]int{1}, nil, &[]int{}), elem(&[2]int{1, 2}, nil, &[2]int{}),
	elem([]int{1}, nil, []int{2, 3}), elem([]any{1}, nil, []any{nil}), elem([]byte("ab"), nil, []byte{}), elem(myInts{1}, nil, myInts{}), elem([2]int{1, 2}, [2]int{}, [2]int{3, 4}), elem(myArr{1, 2}, myArr{}, myArr{2}), elem(mySelf{}, nil, mySelf{nil}), elem([][]string{{"a"}}, nil, [][]string{{}}),
	elem(struct{}{}, struct{}{}, struct{}{}), elem(myPair{1, "a"}, myPair{}, myPair{nil, 2.0}), elem(time.Unix(0, 0), time.Time{}, time.Unix(1, 5)), elem(sql.NullString{String: "a", Valid: true}, sql.NullString{}, sql.NullString{String: "b"}), elem(json.RawMessage("{}"), nil, json.RawMessage("")), elem(net.IP{1, 2, 3, 4}, nil, net.IP{}),
	elem(map[string]int{"a": 1}, nil, map[string]int{}), elem(make(chan int), nil, make(chan int)), elem(func() {}, nil, func() {}),
}

// shapes are the forms of arguments holding the elements.
const shapes = 20

// shape makes an argument and what it is flattened to.
func (t element) shape(k int) (arg any, want []any, name string) {
	sl := reflect.SliceOf(t.typ)
	val := func(i int) reflect.Value {
		if t.vals[i] == nil {
			return reflect.Zero(t.typ)
		}
		return reflect.ValueOf(t.vals[i])
	}
	slice := func(n, spare int) reflect.Value {
		v := reflect.MakeSlice(sl, n+spare, n+spare)
		for i := 0; i < n+spare; i++ {
			v.Index(i).Set(val(i % 3))
		}
		return v.Slice(0, n)
	}
	array := func(n int) reflect.Value {
		v := reflect.New(reflect.ArrayOf(n, t.typ)).Elem()
		for i := 0; i < n; i++ {
			v.Index(i).Set(val(i % 3))
		}
		return v
	}
	pointer := func(v reflect.Value) reflect.Value {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	vals := func(n int) (r []any) {
		for i := 0; i < n; i++ {
			r = append(r, t.vals[i%3])
		}
		return
	}
	self := func(v reflect.Value) (any, []any) { a := v.Interface(); return a, []any{a} }
	var v reflect.Value
	n := 0
	name = "?"
	switch k {
	case 0, 1, 2:
		arg = t.vals[k]
		want = []any{arg}
		if arg != nil {
			rv := reflect.ValueOf(arg)
			if rv.Kind() == reflect.Pointer && !rv.IsNil() {
				rv = rv.Elem()
			}
			if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
				want = nil
				for i := 0; i < rv.Len(); i++ {
					want = append(want, rv.Index(i).Interface())
				}
			}
		}
		return arg, want, fmt.Sprintf("value %d", k)
	case 3:
		v, n, name = reflect.Zero(sl), 0, "nil slice"
	case 4:
		v, n, name = slice(0, 2), 0, "empty slice"
	case 5:
		v, n, name = slice(1, 0), 1, "slice of 1"
	case 6:
		v, n, name = slice(2, 2), 2, "slice of 2 with capacity"
	case 7:
		v, n, name = slice(3, 0), 3, "slice of 3"
	case 8:
		v, n, name = array(0), 0, "array of 0"
	case 9:
		v, n, name = array(2), 2, "array of 2"
	case 10:
		v, n, name = pointer(slice(3, 1)), 3, "pointer to slice"
	case 11:
		v, n, name = pointer(reflect.Zero(sl)), 0, "pointer to nil slice"
	case 12:
		v, n, name = pointer(array(3)), 3, "pointer to array"
	case 13:
		arg, want = self(reflect.Zero(reflect.PointerTo(sl)))
		return arg, want, "nil pointer to slice"
	case 14:
		arg, want = self(reflect.Zero(reflect.PointerTo(reflect.ArrayOf(2, t.typ))))
		return arg, want, "nil pointer to array"
	case 15:
		arg, want = self(pointer(pointer(slice(1, 0))))
		return arg, want, "pointer to pointer to slice"
	case 16:
		s := slice(2, 0)
		v := reflect.MakeSlice(reflect.SliceOf(sl), 1, 1)
		v.Index(0).Set(s)
		return v.Interface(), []any{s.Interface()}, "slice of slice"
	case 17:
		s := slice(2, 0)
		v := reflect.New(reflect.ArrayOf(2, reflect.PointerTo(sl))).Elem()
		p := pointer(s)
		v.Index(1).Set(p)
		return v.Interface(), []any{reflect.Zero(reflect.PointerTo(sl)).Interface(), p.Interface()}, "array of pointers to slice"
	case 18:
		// 12 elements, more than is preallocated
		v, n, name = slice(12, 0), 12, "slice of 12"
	case 19:
		p := reflect.New(t.typ)
		p.Elem().Set(val(0))
		arg = p.Interface()
		want = []any{arg}
		if k := t.typ.Kind(); k == reflect.Slice || k == reflect.Array {
			want = nil
			for i := 0; i < p.Elem().Len(); i++ {
				want = append(want, p.Elem().Index(i).Interface())
			}
		}
		return arg, want, "pointer to the value"
	}
	return v.Interface(), vals(n), name
}

// deepCopy returns what is visible through arg, one level deep.
func visible(arg any) []any {
	rv := reflect.ValueOf(arg)
	if !rv.IsValid() {
		return nil
	}
	if rv.Kind() == reflect.Pointer && !rv.IsNil() {
		rv = rv.Elem()
	}
	if rv.Kind() == reflect.Slice {
		rv = rv.Slice(0, rv.Cap())
	} else if rv.Kind() != reflect.Array {
		return nil
	}
	var r []any
	for i := 0; i < rv.Len(); i++ {
		r = append(r, rv.Index(i).Interface())
	}
	return r
}

func judgeFlat(c *ex.C, args []any, want []any) {
	var before [][]any
	for _, a := range args {
		before = append(before, visible(a))
	}
	in := make([]any, len(args), len(args)+4)
	copy(in, args)
	got := util.ArgsFlatted(in...)
	if !SameValues(got, want) {
		c.Failf("flattened to %s, want %s", ref.ShowValues(got), ref.ShowValues(want))
	}
	// the result is the caller's
	got = append(got, "more")
	for i := range got {
		got[i] = "overwritten"
	}
	got = append(got[:0:0], got...)
	again := util.ArgsFlatted(in...)
	if !SameValues(again, want) {
		c.Failf("after overwriting the result, flattened to %s, want %s", ref.ShowValues(again), ref.ShowValues(want))
	}
	for i := range got {
		if got[i] != any("overwritten") {
			c.Failf("results share their elements")
		}
	}
	if !SameValues(in, args) {
		c.Failf("the list of arguments is changed to %s", ref.ShowValues(in))
	}
	for i, a := range args {
		if v := visible(a); !SameValues(v, before[i]) {
			c.Failf("argument %d is changed to %s", i+1, ref.ShowValues(v))
		}
	}
	for _, v := range in[len(in):cap(in)] {
		if v != nil {
			c.Failf("wrote behind the arguments: %v", v)
		}
	}
}

func init() {
	register(&Check{ID: "C22", Assumptions: []string{"[]byte and other slices with a meaning of their own are slices, as documented."}, Families: func(thorough bool) []*ex.Family {
		seq := func(name string, n int, els []element, ks []int) *ex.Family {
			return &ex.Family{Name: name, Rule: fmt.Sprintf("all lists of %d arguments out of %d types of elements in %d shapes", n, len(els), len(ks)),
				Body: func(c *ex.C) {
					var args, want []any
					var names []string
					c.Desc(func() string { return strings.Join(names, ", ") })
					for i := 0; i < n; i++ {
						t := els[c.N(len(els))]
						a, w, name := t.shape(ks[c.N(len(ks))])
						args = append(args, a)
						want = append(want, w...)
						names = append(names, name+" of "+t.typ.String())
					}
					judgeFlat(c, args, want)
					c.Traces(1)
					c.State(strings.Join(names, ",") + fmt.Sprint(len(want)))
				}}
		}
		var all []int
		for i := 0; i < shapes; i++ {
			all = append(all, i)
		}
		few := []element{elements[0], elements[15], elements[22], elements[24], elements[33], elements[35]}
		fams := []*ex.Family{
			seq("none", 0, elements, all),
			seq("one", 1, elements, all),
			seq("three", 3, choose(thorough, few[:4], few), choose(thorough, []int{1, 3, 4, 6, 9, 10, 13, 16}, all)),
			seq("four", 4, few[1:3], []int{0, 3, 6, 10, 18}),
		}
		if thorough {
			fams = append(fams, seq("two", 2, elements, all))
		} else {
			fams = append(fams, seq("two", 2, elements, []int{1, 3, 6, 9, 10, 16}))
		}
		fams = append(fams,
			&ex.Family{Name: "where-in", Rule: "WhereIn and WhereNotIn with each shape of each type of elements, in both styles, alone and with conditions and args around",
				Body: func(c *ex.C) {
					t := elements[c.N(len(elements))]
					arg, want, name := t.shape(c.N(shapes))
					not, dollar, around := c.Bool(), c.Bool(), c.Bool()
					c.Desc(func() string {
						return fmt.Sprintf("WhereIn(%s of %s) not=%v dollar=%v around=%v", name, t.typ, not, dollar, around)
					})
					im := &ref.Impl{}
					col := ref.C("f", "id")
					q := ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{col}})
					b := im.Builder(q)
					cond := &ref.Frag{Raw: "x=?", Args: []any{"first"}}
					if around {
						q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: cond})
						b.Where(im.Fragment(cond))
					}
					before := visible(arg)
					do := "WhereIn"
					if not {
						do = "WhereNotIn"
						b.WhereNotIn(col.Column(im), arg)
					} else {
						b.WhereIn(col.Column(im), arg)
					}
					if want == nil {
						want = []any{}
					}
					q.Ops = append(q.Ops, ref.Op{Do: do, Cols: []*ref.Col{col}, Val: want})
					if around {
						q.Ops = append(q.Ops, ref.Op{Do: "Where", Frag: cond}, ref.Op{Do: do, Cols: []*ref.Col{col}, Val: want})
						b.Where(im.Fragment(cond))
						list := any(want)
						if not {
							b.WhereNotIn(col.Column(im), list)
						} else {
							b.WhereIn(col.Column(im), list)
						}
					}
					w := q.Result(dollar)
					query, args, err := b.BuildQuery(ref.Style(dollar))
					compare(c, "query", query, args, err, w)
					if v := visible(arg); !SameValues(v, before) {
						c.Failf("the list is changed to %s", ref.ShowValues(v))
					}
					c.State(fmt.Sprint(not, dollar, around, len(want)) + t.typ.String())
				}},
			&ex.Family{Name: "builder-lists", Rule: "conditions with two lists of 6 types of elements in all shapes each, over one or two query builders",
				Body: func(c *ex.C) {
					im := &ref.Impl{}
					col := ref.C("f", "id")
					dollar := c.Bool()
					var desc []string
					c.Desc(func() string { return strings.Join(desc, ", ") })
					var qs []*ref.Query
					var bs []*sqlb.QueryBuilder
					for i := 0; i < 2; i++ {
						qs = append(qs, ref.Q(ref.Op{Do: "From", Tbl: tFoo}, ref.Op{Do: "Select", Cols: []*ref.Col{col}}))
						bs = append(bs, im.Builder(qs[i]))
					}
					two := c.N(2)
					for i := 0; i < 2; i++ {
						t := few[c.N(len(few))]
						a, w, name := t.shape(c.N(shapes))
						desc = append(desc, name+" of "+t.typ.String())
						if w == nil {
							w = []any{}
						}
						k := i * two
						bs[k].WhereIn(col.Column(im), a)
						qs[k].Ops = append(qs[k].Ops, ref.Op{Do: "WhereIn", Cols: []*ref.Col{col}, Val: w})
					}
					for i := range bs {
						w := qs[i].Result(dollar)
						query, args, err := bs[i].BuildQuery(ref.Style(dollar))
						compare(c, "query", query, args, err, w)
						note(c, w)
					}
				}},
			&ex.Family{Name: "Ttoa", Rule: "Ttoa on slices of 5 types of length 0 to 3",
				Body: func(c *ex.C) {
					n := c.N(5)
					k := c.N(5)
					c.Desc(func() string { return fmt.Sprintf("type %d length %d", k, n-1) })
					var got, want []any
					switch k {
					case 0:
						got, want = ttoa(n, 1, 2, 3)
					case 1:
						got, want = ttoa(n, "a", "b", "")
					case 2:
						got, want = ttoa[any](n, nil, []int{1}, "x")
					case 3:
						got, want = ttoa(n, []int{1}, nil, []int{})
					case 4:
						got, want = ttoa[error](n, nil, myErr{"a"}, nil)
					}
					if !SameValues(got, want) {
						c.Failf("%s, want %s", ref.ShowValues(got), ref.ShowValues(want))
					}
					c.State(ref.ShowValues(got))
				}},
		)
		return fams
	}})
}

func ttoa[T any](n int, vs ...T) (got, want []any) {
	if n == 0 {
		return util.Ttoa[T](nil), nil
	}
	for _, v := range vs[:n-1] {
		want = append(want, v)
	}
	return util.Ttoa(vs[:n-1]), want
}
