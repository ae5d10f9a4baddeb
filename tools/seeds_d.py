from seedlib import seed

seed('C28-lazy', 'C28',
  'a write to the slice of args after the list was made of it and before the item is built',
  'a list of args refers to the slice of the caller instead of the values',
  [('properties.go', '''	for _, a := range args {
		r = append(r, newDefaultProperty(&arg{a}))
	}
''', '''	for i := range args {
		r = append(r, newDefaultProperty(&arg{&args[i]}))
	}
'''), ('properties.go', '''type arg struct {
	any
}
''', '''type arg struct {
	value *any
}
'''), ('properties.go', '''ctx.CommitArg(c.any)''', '''ctx.CommitArg(*c.value)''')],
  """
func TestDemo(t *testing.T) {
	args := []any{1, 2}
	p := sqlf.NewArgsProperties(args...)
	args[1] = "x"
	ctx := sqlf.NewContext(syntax.Dollar)
	if _, err := p.Build(ctx, 2); err != nil || ctx.Args()[0] != 2 {
		t.Fatal(ctx.Args(), err)
	}
}""")

seed('C28-negative', 'C28',
  'a negative index down to minus the length of the list',
  'negative indexes count from the end of the list',
  [('properties.go', '''	if i < 1 || i > len(p) {
''', '''	if i < 0 {
		i += len(p) + 1
	}
	if i < 1 || i > len(p) {
'''), ('properties.go', '''	for i, prop := range p {
		if !prop.Used() {
			return fmt.Errorf("#%d unused", i+1)
		}
	}
''', '''	for i := range p {
		if !p[i].Used() {
			return fmt.Errorf("#%d unused", i+1)
		}
	}
''')],
  """
func TestDemo(t *testing.T) {
	p := sqlf.NewArgsProperties(1, 2)
	if s, err := p.Build(sqlf.NewContext(syntax.Dollar), -1); !errors.Is(err, sqlf.ErrInvalidIndex) {
		t.Fatal(s, err)
	}
}""")

seed('C28-used-late', 'C28',
  'an item which fails, in a function that goes on with something else',
  'an item is marked as used only after it was built successfully',
  [('property.go', '''	p.used = true
	if p.value == nil {
		return "", errors.New("nil fragment builder")
	}
	return p.value.BuildFragment(ctx)
''', '''	if p.value == nil {
		p.used = true
		return "", errors.New("nil fragment builder")
	}
	s, err := p.value.BuildFragment(ctx)
	p.used = p.used || err == nil
	return s, err
''')],
  """
func TestDemo(t *testing.T) {
	p := sqlf.NewFragmentProperties(sqlf.F("#f1"))
	if _, err := p.Build(sqlf.NewContext(syntax.Dollar), 1); err == nil || !p[0].Used() {
		t.Fatal(err, p[0].Used())
	}
}""")

seed('C28-shared', 'C28',
  'the same fragment twice in a list of fragments',
  'equal fragments of a list share one property, so one counts as used if the other is',
  [('properties.go', '''	for _, f := range fragments {
		r = append(r, newDefaultProperty(f))
	}
''', '''	known := make(map[*Fragment]*defaultProperty)
	for _, f := range fragments {
		frag, ok := f.(*Fragment)
		if !ok {
			r = append(r, newDefaultProperty(f))
			continue
		}
		if known[frag] == nil {
			known[frag] = newDefaultProperty(f)
		}
		r = append(r, known[frag])
	}
''')],
  """
func TestDemo(t *testing.T) {
	f := sqlf.F("a")
	if q, _, err := sqlf.Ff("#f1", f, f).BuildQuery(syntax.Dollar); err == nil {
		t.Fatal(q)
	}
}""")

seed('C29-cte-late', 'C29',
  'args in a CTE and in the columns or joins of the same query, in the Question style',
  'the CTEs are built after the parts of the query which use them, the values of the Question style are in another order than the placeholders',
  [('sqlb/query_builder_build.go', '''	sq, err := b.buildCTEs(ctx, dep)
	if err != nil {
		return "", err
	}
	if sq != "" {
		clauses = append(clauses, sq)
	}

''', ''), ('sqlb/query_builder_build.go', '''	clauses = append(clauses, sel)
	from, err := b.buildFrom(ctx, dep)
	if err != nil {
		return "", err
	}
''', '''	from, err := b.buildFrom(ctx, dep)
	if err != nil {
		return "", err
	}
	sq, err := b.buildCTEs(ctx, dep)
	if err != nil {
		return "", err
	}
	if sq != "" {
		clauses = append(clauses, sq)
	}
	clauses = append(clauses, sel)
''')],
  """
func TestDemo(t *testing.T) {
	tb := sqlb.NewTableAliased("c", "")
	q := sqlb.NewQueryBuilder().With("c", sqlf.Fa("SELECT ?", 1)).Select(sqlb.ExprColumn(sqlf.Fa("?", 2))).From(tb)
	query, args, err := q.BuildQuery(syntax.Question)
	if err != nil || args[0] != 1 {
		t.Fatal(query, args, err)
	}
}""")

seed('C29-join-distinct', 'C29',
  'a #join by AND or OR whose items build to the same text in the Dollar style',
  'a condition which a #join by AND or OR has already rendered is not repeated (a OR a is a) unless it has a ?, which may be another arg each time: conditions get fewer in the Dollar style than in the Question style',
  [('func_builtin.go', '''	b := new(strings.Builder)
	var calls []*syntax.FuncCallExpr
''', '''	b := new(strings.Builder)
	joined := make(map[string]bool)
	var calls []*syntax.FuncCallExpr
'''), ('func_builtin.go', '''		if s != "" {
			if b.Len() > 0 {
''', '''		logical := separator == " AND " || separator == " OR "
		if s != "" && !(logical && joined[s] && !strings.Contains(s, "?")) {
			joined[s] = true
			if b.Len() > 0 {
''')],
  """
func TestDemo(t *testing.T) {
	query, args, err := sqlf.Fa("#join('a = #arg', ' OR ')", 1, 2, 1).BuildQuery(syntax.Dollar)
	if err != nil || query != "a = $1 OR a = $2 OR a = $1" {
		t.Fatal(query, args, err)
	}
}""")

seed('C29-interpolate-scratch', 'C29',
  'a placeholder which is repeated behind a different one in the interpolated query',
  'literals of repeated placeholders are kept, in memory which the next literal overwrites',
  [('util/interpolate.go', '''	b := new(strings.Builder)
	for _, decl := range exprs.ExprList {
''', '''	b := new(strings.Builder)
	literals := make([][]byte, len(args))
	var scratch []byte
	for _, decl := range exprs.ExprList {
'''), ('util/interpolate.go', '''			v, err := encodeValue(args[decl.Index-1], opts)
			if err != nil {
				return "", err
			}
''', '''			v := literals[decl.Index-1]
			if v == nil {
				enc, err := encodeValue(args[decl.Index-1], opts)
				if err != nil {
					return "", err
				}
				scratch = append(scratch[:0], enc...)
				v = scratch
				literals[decl.Index-1] = v
			}
''')],
  """
func TestDemo(t *testing.T) {
	s, err := util.Interpolate("$1 $2 $1", []any{"aa", "bb"})
	if err != nil || s != "'aa' 'bb' 'aa'" {
		t.Fatal(s, err)
	}
}""")

seed('C29-nil', 'C29',
  'an arg which is a nil pointer, in the Dollar style',
  'a nil pointer is written as NULL in the Dollar style, which has one placeholder less then',
  [('properties.go', '''	built := ctx.CommitArg(c.any)
	return built, nil
''', '''	if v := reflect.ValueOf(c.any); v.Kind() == reflect.Ptr && v.IsNil() && ctx.root().bindVarStyle == syntax.Dollar {
		// lib/pq can't tell the type of a nil
		return "NULL", nil
	}
	return ctx.CommitArg(c.any), nil
'''), ('properties.go', '''import "fmt"
''', '''import (
	"fmt"
	"reflect"

	"github.com/qjebbs/go-sqlf/v2/syntax"
)
''')],
  """
func TestDemo(t *testing.T) {
	query, args, err := sqlf.Fa("a = $1 AND b = $2", (*string)(nil), 1).BuildQuery(syntax.Dollar)
	if err != nil || len(args) != 2 {
		t.Fatal(query, args, err)
	}
}""")
