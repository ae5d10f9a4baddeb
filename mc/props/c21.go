package props

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// lit is a value and its literal.
type lit struct {
	v    any
	want string // "" for an error
	any  bool   // unspecified
}

func quoted(s string) string {
	b := []byte{'\''}
	for i := 0; i < len(s); i++ {
		b = append(b, s[i])
		if s[i] == '\'' {
			b = append(b, '\'')
		}
	}
	return string(append(b, '\''))
}

// reread is what the literal at the start of s means, independently of quoted.
func reread(s string) (v string, rest string, ok bool) {
	if s == "" || s[0] != '\'' {
		return "", s, false
	}
	for i := 1; i < len(s); i++ {
		if s[i] != '\'' {
			v += s[i : i+1]
			continue
		}
		if i+1 < len(s) && s[i+1] == '\'' {
			v += "'"
			i++
			continue
		}
		return v, s[i+1:], true
	}
	return "", s, false
}

type (
	valuerT   struct{ v any }
	valuerErr struct{}
	panicVal  struct{}
	panicStr  struct{}
	nilTime   struct{ *time.Time } // String of a nil pointer panics
	valuerPtr struct{ s string }   // the pointer is a valuer
	valuerNil struct{}             // the pointer is a valuer and handles nil itself
	strT      string
	strPtr    struct{ s string } // the pointer is a stringer
	strInt    int
	both      struct{ s string } // valuer and stringer
	strMap    map[string]int
	strBool   bool
	valInt    int
	plainErr  struct{ s string }
)

func (v valuerT) Value() (driver.Value, error)    { return v.v, nil }
func (valuerErr) Value() (driver.Value, error)    { return "x", errBoom }
func (panicVal) Value() (driver.Value, error)     { panic("no value") }
func (panicStr) String() string                   { panic(errBoom) }
func (v *valuerPtr) Value() (driver.Value, error) { return v.s, nil }
func (v *valuerNil) Value() (driver.Value, error) {
	if v == nil {
		return "nil handled", nil
	}
	return int64(7), nil
}
func (s strT) String() string                 { return "str:" + string(s) }
func (s *strPtr) String() string              { return "ptr:" + s.s }
func (s strInt) String() string               { return "it's " + strconv.Itoa(int(s)) }
func (b both) String() string                 { return "wrong" }
func (b both) Value() (driver.Value, error)   { return b.s, nil }
func (m strMap) String() string               { return fmt.Sprint("map of ", len(m)) }
func (b strBool) String() string              { return "a'b" }
func (v valInt) Value() (driver.Value, error) { return int64(v) * 2, nil }
func (e plainErr) Error() string              { return e.s }

var errBoom = errors.New("boom")

// fixedLits are values of all kinds.
func fixedLits() []lit {
	zone := time.FixedZone("a'b", 3600)
	l := []lit{
		{v: nil, want: "NULL"}, {v: true, want: "TRUE"}, {v: false, want: "FALSE"}, {v: myBool(true), want: "TRUE"}, {v: myBool(false), want: "FALSE"},
		{v: int64(math.MinInt64), want: "-9223372036854775808"}, {v: int64(math.MaxInt64), want: "9223372036854775807"}, {v: uint64(math.MaxUint64), want: "18446744073709551615"}, {v: uint(math.MaxUint), want: "18446744073709551615"},
		{v: int8(-128), want: "-128"}, {v: int16(-32768), want: "-32768"}, {v: int32(math.MinInt32), want: "-2147483648"}, {v: uint8(255), want: "255"}, {v: uint16(65535), want: "65535"}, {v: uint32(math.MaxUint32), want: "4294967295"},
		{v: 0, want: "0"}, {v: 1, want: "1"}, {v: -1, want: "-1"}, {v: 1000000, want: "1000000"}, {v: 'a', want: "97"}, {v: myInt(5), want: "5"}, {v: myInt(-5), want: "-5"}, {v: byte(7), want: "7"},
		{v: 1.5, want: "1.500000"}, {v: -1.5, want: "-1.500000"}, {v: 0.1, want: "0.100000"}, {v: 0.0, want: "0.000000"}, {v: 1e20, want: "100000000000000000000.000000"}, {v: 123456.789, want: "123456.789000"}, {v: float32(0.5), want: "0.500000"}, {v: float32(-2.25), want: "-2.250000"}, {v: myFloat(0.25), want: "0.250000"},
		{v: math.NaN(), any: true}, {v: math.Inf(1), any: true}, {v: math.Inf(-1), any: true},
		{v: (*int)(nil), want: "NULL"}, {v: (*string)(nil), want: "NULL"}, {v: (*[]int)(nil), want: "NULL"}, {v: (*time.Time)(nil), want: "NULL"}, {v: (*valuerT)(nil), want: "NULL"}, {v: (*strT)(nil), want: "NULL"}, {v: (*strPtr)(nil), want: "NULL"}, {v: (*both)(nil), want: "NULL"}, {v: (*struct{})(nil), want: "NULL"}, {v: (**int)(nil), want: "NULL"}, {v: (*any)(nil), want: "NULL"},
		{v: (*valuerNil)(nil), want: "'nil handled'"}, {v: &valuerNil{}, want: "7"}, {v: &valuerPtr{"p'p"}, want: "'p''p'"}, {v: &strPtr{"q'"}, want: "'ptr:q'''"},
		{v: valuerErr{}}, {v: &valuerErr{}}, {v: valuerT{valuerErr{}}}, {v: valuerT{[]int{1}}}, {v: valuerT{struct{}{}}},
		{v: panicVal{}}, {v: &panicVal{}}, {v: panicStr{}}, {v: &panicStr{}}, {v: valuerT{panicStr{}}}, {v: nilTime{}},
		{v: valuerT{nil}, want: "NULL"}, {v: valuerT{"a'b"}, want: "'a''b'"}, {v: valuerT{int64(-3)}, want: "-3"}, {v: valuerT{true}, want: "TRUE"}, {v: valuerT{2.5}, want: "2.500000"}, {v: valuerT{valuerT{"deep"}}, want: "'deep'"}, {v: &valuerT{"ptr"}, want: "'ptr'"}, {v: valuerT{strT("x")}, want: "'str:x'"},
		{v: sql.NullString{String: "a'", Valid: true}, want: "'a'''"}, {v: sql.NullString{String: "a"}, want: "NULL"}, {v: &sql.NullString{String: "z", Valid: true}, want: "'z'"}, {v: sql.NullInt64{Int64: -4, Valid: true}, want: "-4"}, {v: sql.NullBool{Bool: false, Valid: true}, want: "FALSE"}, {v: sql.NullFloat64{}, want: "NULL"}, {v: (*sql.NullString)(nil), want: "NULL"},
		{v: strT("it's"), want: "'str:it''s'"}, {v: strInt(3), want: "'it''s 3'"}, {v: strBool(true), want: "'a''b'"}, {v: both{"v'"}, want: "'v'''"}, {v: &both{"v"}, want: "'v'"}, {v: strMap{"a": 1}, want: "'map of 1'"}, {v: strMap(nil), want: "'map of 0'"}, {v: valInt(4), want: "8"}, {v: time.Second, want: "'1s'"}, {v: time.March, want: "'March'"}, {v: &url.URL{Scheme: "http", Host: "h", Path: "/"}, want: "'http://h/'"},
		{v: myString("n'"), want: "'n'''"},
		{v: []int{1}}, {v: []byte("x")}, {v: []any(nil)}, {v: map[string]int{}}, {v: struct{}{}}, {v: [2]int{}}, {v: func() {}}, {v: make(chan int)}, {v: complex(1, 1)}, {v: ptr(1)}, {v: ptr("s")}, {v: plainErr{"e"}}, {v: myPair{}},
		{v: time.Time{}, want: "'0000-00-00'"}, {v: time.Unix(0, 0).UTC(), want: "'1970-01-01T00:00:00Z'"}, {v: time.Date(2020, 1, 2, 3, 4, 5, 123456000, zone), want: "'2020-01-02T03:04:05+01:00'"},
		{v: sql.NullTime{Time: time.Unix(0, 0).UTC(), Valid: true}, want: "'1970-01-01T00:00:00Z'"}, {v: valuerT{time.Unix(0, 0).UTC()}, want: "'1970-01-01T00:00:00Z'"},
	}
	return l
}

// interp is the model of the interpolation.
func interp(query string, lits []lit) (want string, fail, unspec bool) {
	nodes, v := ref.Parse(query)
	if v == ref.Unspec {
		return "", false, true
	}
	if v != ref.OK {
		return "", true, false
	}
	b := ""
	for _, n := range nodes {
		switch n.Kind {
		case ref.Plain:
			b += n.Text
		case ref.Bind:
			if n.Index < 1 || n.Index > len(lits) {
				return "", true, unspec
			}
			l := lits[n.Index-1]
			if l.any {
				unspec = true
			}
			if l.want == "" && !l.any {
				return "", true, unspec
			}
			if strings.HasPrefix(l.want, "-") && strings.HasSuffix(b, "-") {
				b += " "
			}
			b += l.want
		default:
			return "", true, unspec
		}
	}
	return b, false, unspec
}

func judgeInterp(c *ex.C, query string, lits []lit, opts ...util.InterpolateOption) {
	args := make([]any, len(lits), len(lits)+2)
	for i, l := range lits {
		args[i] = l.v
	}
	before := append([]any{}, args...)
	want, fail, unspec := interp(query, lits)
	got, err := util.Interpolate(query, args, opts...)
	if !SameValues(before, args) || args[:cap(args)][len(args)] != nil {
		c.Failf("the args are changed to %s", ref.ShowValues(args[:cap(args)]))
	}
	switch {
	case unspec:
		c.Class("unspecified")
		return
	case fail:
		if err == nil {
			c.Failf("interpolated to %q, want an error", got)
		}
		if got != "" {
			c.Failf("error %v, and the result %q", err, got)
		}
		c.Class("error")
		return
	case err != nil:
		c.Failf("failed with %v, want %q", err, want)
	case got != want:
		c.Failf("interpolated to %q, want %q", got, want)
	}
	c.Class("ok")
	c.State(got)
}

func init() {
	var words []string
	for _, w := range []string{"", "'", "''", "a", "?", "$1", "#f1", "--", "/*", "*/", ";", "\\", "\"", "`", "\n", "\x00", "é", "\xff", "-", "%s", " ", "\r", "\x1a", "$$", "??"} {
		words = append(words, w)
	}
	register(&Check{ID: "C21", Assumptions: []string{
		"Floats are rendered with 6 decimals (%f); NaN and infinities are not specified.",
		"The query is in the template language: ?? and $$ are escapes there, and a # function is an error.",
		"Values are separated from neighbouring string literals by the query, as valid SQL does.",
	}, Families: func(thorough bool) []*ex.Family {
		return []*ex.Family{
			{Name: "values", Rule: "every value of a catalogue of all kinds, in 6 templates",
				Body: func(c *ex.C) {
					ls := fixedLits()
					l := ls[c.N(len(ls))]
					q := ex.Pick(c, "?", "$1", "a = ? b", "x-$1", "(-?)", "$1 - $1")
					c.Desc(func() string { return fmt.Sprintf("%q with %s", q, ref.ShowValues([]any{l.v})) })
					judgeInterp(c, q, []lit{l})
				}},
			{Name: "value-pairs", Rule: "all pairs of values of the catalogue in 3 templates",
				Body: func(c *ex.C) {
					ls := fixedLits()
					a, b := ls[c.N(len(ls))], ls[c.N(len(ls))]
					q := ex.Pick(c, "?,?", "$2,$1 $2", "? - ? -", "-$1")
					c.Desc(func() string { return fmt.Sprintf("%q with %s", q, ref.ShowValues([]any{a.v, b.v})) })
					judgeInterp(c, q, []lit{a, b})
				}},
			{Name: "strings", Rule: fmt.Sprintf("all strings of up to %d of %d dangerous words, as string, named string, valuer and stringer: the literal re-reads as the value and the text around it stays", choose(thorough, 3, 4), len(words)),
				Body: func(c *ex.C) {
					s := strings.Join(ex.Seq(c, choose(thorough, 3, 4), words...), "")
					var l lit
					switch c.N(4) {
					case 0:
						l = lit{v: s}
					case 1:
						l = lit{v: myString(s)}
					case 2:
						l = lit{v: valuerT{s}}
					case 3:
						l = lit{v: &strPtr{s}}
						s = "ptr:" + s
					}
					l.want = quoted(s)
					c.Desc(func() string { return fmt.Sprintf("%T %q", l.v, s) })
					q := "a=? AND b=? -- ?"
					judgeInterp(c, q, []lit{l, l, {v: 1, want: "1"}})
					got, err := util.Interpolate(q, []any{l.v, l.v, 1})
					if err != nil {
						c.Failf("failed: %v", err)
					}
					rest, ok := strings.CutPrefix(got, "a=")
					v1, rest, ok1 := reread(rest)
					rest, ok2 := strings.CutPrefix(rest, " AND b=")
					v2, rest, ok3 := reread(rest)
					if !ok || !ok1 || !ok2 || !ok3 || v1 != s || v2 != s || rest != " -- 1" {
						c.Failf("%q re-reads as %q and %q, and is followed by %q", got, v1, v2, rest)
					}
				}},
			{Name: "times", Rule: "all of 12 times in 4 zones with all of 9 formats",
				Body: func(c *ex.C) {
					format := ex.Pick(c, "", time.RFC3339, time.RFC3339Nano, "2006-01-02 15:04:05", "2006-01-02 15:04:05.000000", "MST", "'06", "15h''04", "?", "$1 Jan")
					zone := ex.Pick(c, time.UTC, time.FixedZone("CET", 3600), time.FixedZone("a'b", -5400), time.FixedZone("", 3600))
					sec := ex.Pick(c, int64(0), 1, 1e9, 1577934245, -1)
					ns := ex.Pick(c, int64(0), 999999999, 123456789, 123456499, 500, 499)
					t := time.Unix(sec, ns).In(zone)
					f := format
					var opts []util.InterpolateOption
					if format != "" {
						opts = append(opts, util.WithTimeFormat(ex.Pick(c, "", "X")), util.WithTimeFormat(format))
					} else {
						f = time.RFC3339
					}
					var v any = t
					switch c.N(3) {
					case 1:
						v = sql.NullTime{Time: t, Valid: true}
					case 2:
						v = valuerT{valuerT{t}}
					}
					c.Desc(func() string { return fmt.Sprintf("%v in format %q", t, f) })
					judgeInterp(c, "a ? b", []lit{{v: v, want: quoted(t.Round(time.Microsecond).Format(f))}}, opts...)
				}},
			{Name: "queries", Rule: fmt.Sprintf("all queries of up to %d of 24 words in 5 lists of up to 3 args", choose(thorough, 4, 5)),
				Body: func(c *ex.C) {
					ps := ex.Seq(c, choose(thorough, 4, 5), "?", "$1", "a", "-", " ", "'", "$2", "$3", "?1", "'?'", "\"$1\"", "`?`", "??", "$$", "$0", "''", "#f1", "#", "\n", "é", "\x00", "--", "/*", "+")
					args := ex.Pick(c, []lit{{v: "x?$1'", want: "'x?$1'''"}, {v: -1, want: "-1"}}, nil, []lit{{v: -2.5, want: "-2.500000"}}, []lit{{v: struct{}{}}, {v: 1, want: "1"}}, []lit{{v: "a", want: "'a'"}, {v: "-", want: "'-'"}, {v: nil, want: "NULL"}})
					q := strings.Join(ps, "")
					c.Desc(func() string { return fmt.Sprintf("%q with %d args", q, len(args)) })
					judgeInterp(c, q, args)
				}},
			{Name: "indexes", Rule: "0..3 args, bind variables before and behind one with an index at every boundary: n+1, n+2, around powers of two up to 2^64 and beyond",
				Body: func(c *ex.C) {
					n := c.N(4)
					var args []any
					for i := 1; i <= n; i++ {
						args = append(args, i)
					}
					idx := ex.Pick(c, fmt.Sprint(n+1), fmt.Sprint(n+2), "127", "128", "255", "256", "257", "32768", "65536", "65537", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967298", "9007199254740993", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999")
					q := "$" + idx
					for i := c.N(n + 1); i > 0; i-- {
						q = fmt.Sprintf("$%d,%s", i, q)
					}
					q += ex.Pick(c, "", " x", ",$1", "-$2")
					c.Desc(func() string { return fmt.Sprintf("%q with %d args", q, n) })
					got, err := util.Interpolate(q, args)
					if err == nil || got != "" {
						c.Failf("interpolated to %q, %v, want an error", got, err)
					}
					c.State(idx)
				}},
			{Name: "built", Rule: "all fragment trees of two levels of up to 2 pieces: the query built, interpolated, is the same text in both styles, and the one the model makes",
				Body: func(c *ex.C) {
					g := &treeGen{c: c, exact: true, pieces: []int{2, 1}, maxArgs: []int{2, 1}, maxFrags: []int{choose(thorough, 1, 2), 1}, leaves: leafItems, shared: true}
					g.dollar = c.Bool()
					f := g.frag(0)
					c.Desc(func() string { return "interpolate the build of " + f.Show() })
					im := &ref.Impl{}
					var texts [2]string
					adjacent := false // two ? in a row are an escape
					for i := range texts {
						w := ref.BuildQuery(f, i == 1, nil)
						if w.Unspec || w.Err != nil {
							c.Skip()
						}
						q, args, err := im.Fragment(f).BuildQuery(ref.Style(i == 1))
						compare(c, styleName(i == 1), q, args, err, w)
						adjacent = adjacent || strings.Contains(q, "??")
						var ls []lit
						for _, a := range args {
							switch a := a.(type) {
							case int:
								ls = append(ls, lit{v: a, want: strconv.Itoa(a)})
							case string:
								ls = append(ls, lit{v: a, want: quoted(a)})
							}
						}
						judgeInterp(c, q, ls)
						texts[i], _ = util.Interpolate(q, args)
					}
					if texts[0] != texts[1] && !adjacent {
						c.Failf("interpolated to %q in the Question style, but %q in the Dollar style", texts[0], texts[1])
					}
				}},
		}
	}})
}
