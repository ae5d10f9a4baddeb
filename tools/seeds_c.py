from seedlib import seed

seed('C07-bitmask', 'C07',
  'a fragment with more than 64 args or fragments where one behind the 64th is not referenced',
  'the used items are kept in a bit set of 64 bits, so an unused item can hide behind the one 64 places before',
  [('properties.go', '''	for i, prop := range p {
		if !prop.Used() {
			return fmt.Errorf("#%d unused", i+1)
		}
	}
	return nil
''', '''	var used uint64
	for i, prop := range p {
		if prop.Used() {
			used |= 1 << (i % 64)
		}
	}
	for i := range p {
		if used&(1<<(i%64)) == 0 {
			return fmt.Errorf("#%d unused", i+1)
		}
	}
	return nil
''')],
  """
func TestDemo(t *testing.T) {
	args := make([]any, 65)
	for i := range args {
		args[i] = i
	}
	if q, _, err := sqlf.Fa("#join('#arg', ',', 1, 64)", args...).BuildQuery(syntax.Dollar); err == nil {
		t.Fatal(q)
	}
}""")

seed('C10-fold', 'C10',
  'an inner and an outer context which register functions whose names differ by case only',
  'names are looked up by folding case if a context has no function of exactly that name, before the outer contexts are considered',
  [('context_func.go', '''		fn, ok := c.funcs[name]
		return fn, ok
''', '''		if fn, ok := c.funcs[name]; ok {
			return fn, true
		}
		if c.parent == nil {
			return nil, false
		}
		for k, fn := range c.funcs {
			if strings.EqualFold(k, name) {
				return fn, true
			}
		}
		return nil, false
'''), ('context_func.go', '''package sqlf
''', '''package sqlf

import "strings"
''')],
  """
func TestDemo(t *testing.T) {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"F": func(i int) string { return "F" }})
	if err != nil {
		t.Fatal(err)
	}
	if q, err := sqlf.Ff("#f1", sqlf.F("x")).BuildFragment(ctx); err != nil || q != "x" {
		t.Fatal(q, err)
	}
}""")

seed('C10-deep', 'C10',
  'fragments nested deeper than 64 levels and a function registered in the context which is used at the innermost',
  'the lookup gives up after 64 contexts, each fragment has one',
  [('contex_with.go', '''	for ctx := c; ctx != nil; ctx = ctx.parent {
		if v, ok := fn(ctx); ok {
			return v, true
		}
	}
''', '''	root := c.root()
	for ctx, i := c, 0; ctx != root && i < 64; ctx, i = ctx.parent, i+1 {
		if v, ok := fn(ctx); ok {
			return v, true
		}
	}
	if root != nil {
		if v, ok := fn(root); ok {
			return v, true
		}
	}
''')],
  """
func TestDemo(t *testing.T) {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"x": func() string { return "X" }})
	if err != nil {
		t.Fatal(err)
	}
	f := sqlf.F("#x()")
	for i := 0; i < 70; i++ {
		f = sqlf.Ff("#f1", f)
	}
	if q, err := f.BuildFragment(ctx); err != nil || q != "X" {
		t.Fatal(q, err)
	}
}""")

seed('C16-limit', 'C16',
  'a column referenced by fragments nested more than 10 levels deep, whose table is joined optionally',
  'the search for tables stops at a depth of 10',
  [('sqlb/query_builder_dependecy.go', '''	extractTables2(fragments, &tables, dict)
	return tables
''', '''	extractTables2(fragments, &tables, dict, 10)
	return tables
'''), ('sqlb/query_builder_dependecy.go', '''tables *[]Table, dict map[Table]bool) {
	for _, f := range fragments {
''', '''tables *[]Table, dict map[Table]bool, depth int) {
	if depth < 0 {
		return
	}
	for _, f := range fragments {
'''), ('sqlb/query_builder_dependecy.go', '''				extractTables2(fragment.Fragments, tables, dict)
''', '''				extractTables2(fragment.Fragments, tables, dict, depth-1)
'''), ('sqlb/query_builder_dependecy.go', '''				extractTables2(column.fragment.Fragments, tables, dict)
''', '''				extractTables2(column.fragment.Fragments, tables, dict, depth-1)
''')],
  """
func TestDemo(t *testing.T) {
	foo, bar := sqlb.NewTableAliased("foo", "f"), sqlb.NewTableAliased("bar", "b")
	f := sqlf.Ff("#f1 = 1", bar.Column("x"))
	for i := 0; i < 12; i++ {
		f = sqlf.Ff("(#f1)", f)
	}
	q, _, err := sqlb.NewQueryBuilder().Distinct().Select(foo.Column("id")).From(foo).
		LeftJoinOptional(bar, sqlf.Ff("#f1 = #f2", foo.Column("id"), bar.Column("id"))).Where(f).BuildQuery(syntax.Dollar)
	if err != nil || !strings.Contains(q, "LEFT JOIN") {
		t.Fatal(q, err)
	}
}""")

seed('C19-ten', 'C19',
  'SELECT DISTINCT with at least 10 ordering columns',
  'the number of the alias is written as one character',
  [('sqlb/query_builder_order.go', '''		alias := fmt.Sprintf("_order_%d", i+1)
''', '''		alias := "_order_" + string("0123456789"[(i+1)%10])
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	b := sqlb.NewQueryBuilder().Distinct().Select(foo.Column("id")).From(foo)
	for i := 0; i < 11; i++ {
		b.OrderBy(foo.Column(fmt.Sprintf("c%d", i)), sqlb.Asc)
	}
	q, _, err := b.BuildQuery(syntax.Dollar)
	if err != nil || !strings.Contains(q, "f.c10 AS _order_11") {
		t.Fatal(q, err)
	}
}""")

seed('C25-uint16', 'C25',
  'a reference behind 65535 characters on one line',
  'columns are kept in 16 bits',
  [('syntax/lexer.go', '''		l.current.col++
''', '''		l.current.col = uint(uint16(l.current.col + 1))
''')],
  """
func TestDemo(t *testing.T) {
	c, err := syntax.Parse(strings.Repeat("x", 70000) + "?")
	if err != nil {
		t.Fatal(err)
	}
	if got := c.ExprList[1].Pos().Col(); got != 70001 {
		t.Fatal(got)
	}
}""")

seed('C26-text', 'C26',
  'an item of a #join which fails with an error of its own that mentions an invalid index',
  'the end of the list is recognized by the text of the error',
  [('func_builtin.go', '''	start := from
	if start <= 0 {
		start = 1
	}
	for i := start; ; i++ {
''', '''	start := 1
	if from > 1 {
		start = from
	}
	for i := start; ; i++ {
'''),   ('func_builtin.go', '''			end = isCall && errors.Is(err, ErrInvalidIndex) && !errors.As(err, &inner)
''', '''			end = isCall && !errors.As(err, &inner) && strings.Contains(err.Error(), ErrInvalidIndex.Error())
''')],
  """
func TestDemo(t *testing.T) {
	failed := errors.New("no row: invalid index of table")
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"x": func(i int) (string, error) {
		switch i {
		case 1:
			return "a", nil
		case 2:
			return "", failed
		}
		return "", sqlf.ErrInvalidIndex
	}})
	if err != nil {
		t.Fatal(err)
	}
	if q, err := sqlf.F("#join('#x', ',')").BuildFragment(ctx); !errors.Is(err, failed) {
		t.Fatal(q, err)
	}
}""")

seed('C27-format', 'C27',
  'a debugged query with a % in it or in a value',
  'the query is used as a format',
  [('sqlb/query_builder_build.go', '''		log.Println(interpolated)
''', '''		log.Printf(interpolated + "\\n")
''')],
  """
func TestDemo(t *testing.T) {
	w := new(bytes.Buffer)
	log.SetOutput(w)
	foo := sqlb.NewTableAliased("foo", "f")
	b := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).Where2(foo.Column("x"), " LIKE ", "%d")
	b.Debug()
	if _, _, err := b.BuildQuery(syntax.Dollar); err != nil || !strings.Contains(w.String(), "f.x LIKE '%d'\\n") {
		t.Fatal(w.String(), err)
	}
}""")

seed('C18-forgiven', 'C18',
  'an invalid From or join followed by a valid From',
  'setting the from table drops the errors collected before',
  [('sqlb/query_builder_join.go', '''	tableAndAlias := string(t.Name)
	if t.Alias != "" {
		tableAndAlias = tableAndAlias + " AS " + string(t.Alias)
	}
	table := &fromTable{
		Names:    t,
		Fragment: sqlf.F(tableAndAlias),
		Optional: false,
	}
	joined,''', '''	tableAndAlias := t.Name
	if t.Alias != "" {
		tableAndAlias += " AS " + t.Alias
	}
	table := &fromTable{
		Names:    t,
		Fragment: sqlf.F(string(tableAndAlias)),
	}
	b.errors = nil
	joined,''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	q, _, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).LeftJoin(sqlb.NewTableAliased("", "b"), nil).From(foo).BuildQuery(syntax.Dollar)
	if err == nil {
		t.Fatal(q)
	}
}""")

seed('C20-same-alias', 'C20',
  'a table with an alias equal to its name',
  'the alias is left away if it is the same as the name, in FROM but not in joins',
  [('sqlb/query_builder_join.go', '''	tableAndAlias := string(t.Name)
	if t.Alias != "" {
''', '''	tableAndAlias := string(t.Name)
	if t.Alias != "" && t.Alias != t.Name {
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "foo")
	q, _, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).BuildQuery(syntax.Dollar)
	if err != nil || q != "SELECT foo.id FROM foo AS foo" {
		t.Fatal(q, err)
	}
}""")

seed('C05-memo', 'C05',
  'an item without args which is referenced twice and builds to something else the second time, such as a custom builder with a counter',
  'what a fragment property built to is remembered and used for further references if building it committed no args',
  [('property.go', '''	return p.value.BuildFragment(ctx)
''', '''	if p.memo != "" {
		return p.memo, nil
	}
	n := len(ctx.Args())
	s, err := p.value.BuildFragment(ctx)
	if _, ok := p.value.(*Fragment); !ok && err == nil && len(ctx.Args()) == n {
		if _, ok := p.value.(*arg); !ok {
			p.memo = s
		}
	}
	return s, err
'''), ('property.go', '''	value FragmentBuilder
	used  bool
''', '''	value FragmentBuilder
	used  bool
	memo  string
''')],
  """
type counter struct{ n int }

func (c *counter) BuildFragment(*sqlf.Context) (string, error) {
	c.n++
	return fmt.Sprint("c", c.n), nil
}

func TestDemo(t *testing.T) {
	if q, _, err := sqlf.Ff("#f1 #f1 #f1", &counter{}).BuildQuery(syntax.Dollar); err != nil || q != "c1 c2 c3" {
		t.Fatal(q, err)
	}
}""")

seed('C02-spaces', 'C02',
  'a fragment which starts or ends with white space other than space, tab and line breaks, such as a no-break space',
  'only ASCII white space is trimmed',
  [('build.go', '''	body = strings.TrimSpace(body)
''', '''	body = strings.Trim(body, " \\t\\r\\n\\v\\f")
''')],
  """
func TestDemo(t *testing.T) {
	if q, _, err := sqlf.F("\\u00a0a\\u3000").BuildQuery(syntax.Dollar); err != nil || q != "a" {
		t.Fatalf("%q %v", q, err)
	}
}""")

seed('C02-uint16', 'C02',
  'a piece of plain text longer than 65535 bytes, quoted or not',
  'a token keeps its length in 16 bits',
  [('syntax/scanner.go', '''		lit:   s.input[s.start.offset:s.current.offset],
''', '''		lit:   s.input[s.start.offset : s.start.offset+int(uint16(s.current.offset-s.start.offset))],
''')],
  """
func TestDemo(t *testing.T) {
	s := strings.Repeat("x", 70000)
	if q, _, err := sqlf.F(s).BuildQuery(syntax.Dollar); err != nil || q != s {
		t.Fatal(len(q), err)
	}
}""")

seed('C11-lock', 'C11',
  'a build which is started inside of a registered function of another build',
  'the builder of a clause is a package variable protected by a lock which is held while functions are called, so nested builds through functions hang',
  [('func_exec.go', '''	ret := fun.Call(args)
	switch len(ret) {
''', '''	callLock.Lock()
	ret := func() []reflect.Value {
		defer callLock.Unlock()
		if fun.Type().NumIn() > 0 && fun.Type().In(0) == contextPointerType {
			// builds with the context, which calls others
			callLock.Unlock()
			defer callLock.Lock()
		}
		return fun.Call(args)
	}()
	switch len(ret) {
'''), ('func_exec.go', '''	"reflect"
)
''', '''	"reflect"
	"sync"
)

// callLock serializes the calls, functions are not safe for concurrent use.
var callLock sync.Mutex
''')],
  """
func TestDemo(t *testing.T) {
	done := make(chan error)
	go func() {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{
			"x": func() (string, error) {
				ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"y": func() string { return "Y" }})
				if err != nil {
					return "", err
				}
				return sqlf.F("#y()").BuildFragment(ctx)
			},
		})
		if err == nil {
			_, err = sqlf.F("#x()").BuildFragment(ctx)
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}
}""")

seed('C12-pooled', 'C12',
  'the args returned by a build with more than 8 args in the Question style, read after another such build',
  'the backing array of the args is put back for the next build although it is returned',
  [('context_args.go', '''	s.args = append(s.args, arg)
	return "?"
''', '''	s.args = append(grown(s.args), arg)
	return "?"
'''), ('context_args.go', '''import (
	"strconv"
)
''', '''import (
	"strconv"
	"sync"
)

// bigArgs are arrays for the args of larger queries.
var bigArgs sync.Pool

func grown(args []any) []any {
	if args == nil {
		return make([]any, 0, 4)
	}
	if len(args) != 8 || cap(args) >= 64 {
		return args
	}
	big, _ := bigArgs.Get().(*[64]any)
	if big == nil {
		big = new([64]any)
	}
	defer bigArgs.Put(big)
	return append(big[:0], args...)
}
''')],
  """
func TestDemo(t *testing.T) {
	build := func(v int) []any {
		args := make([]any, 12)
		for i := range args {
			args[i] = v
		}
		_, got, err := sqlf.Fa("#join('#arg', ',')", args...).BuildQuery(syntax.Question)
		if err != nil {
			t.Fatal(err)
		}
		return got
	}
	a := build(1)
	for i := 0; i < 20; i++ {
		build(2)
	}
	for _, v := range a {
		if v != 1 {
			t.Fatal(a)
		}
	}
}""")

seed('C14-replace-kind', 'C14',
  'joining an alias again with another table name or kind of join',
  'a join that is declared again only gets its ON condition replaced',
  [('sqlb/query_builder_join.go', '''		*target = *table
		return b
''', '''		if target.Names == table.Names {
			*target = *table
			return b
		}
		target.Names, target.Optional = table.Names, table.Optional
		target.Fragment.WithFragments(on)
		return b
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	on := sqlf.F("1=1")
	q, _, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).
		LeftJoin(sqlb.NewTableAliased("bar", "b"), on).InnerJoin(sqlb.NewTableAliased("baz", "b"), on).BuildQuery(syntax.Dollar)
	if err != nil || q != "SELECT f.id FROM foo AS f INNER JOIN baz AS b ON 1=1" {
		t.Fatal(q, err)
	}
}""")

seed('C21-float32', 'C21',
  'an integer value of a named type with a String method by pointer, or an unsigned 64 bit one',
  'integers are formatted by way of float64, which is exact up to 2^53 only',
  [('util/interpolate.go', '''			buf.WriteString(fmt.Sprintf("%d", primative.Int()))
''', '''			buf.WriteString(fmt.Sprintf("%.0f", float64(primative.Int())))
''')],
  """
func TestDemo(t *testing.T) {
	if q, err := util.Interpolate("?", []any{int64(9007199254740993)}); err != nil || q != "9007199254740993" {
		t.Fatal(q, err)
	}
}""")

seed('C22-bytes', 'C22',
  'a slice whose elements are bytes, of a named type',
  'slices of bytes other than []byte itself are kept as one value',
  [('util/args.go', '''	case reflect.Slice:
		if rv.IsNil() {
			return nil
		}
''', '''	case reflect.Slice:
		if rv.Len() == 0 {
			return nil
		}
		if t := rv.Type(); t.Name() != "" && t.Elem().Kind() == reflect.Uint8 {
			return []any{slice}
		}
''')],
  """
type raw []byte

func TestDemo(t *testing.T) {
	if got := util.ArgsFlatted(raw("ab")); len(got) != 2 {
		t.Fatal(got)
	}
}""")

seed('C23-eof', 'C23',
  'a conversion which fails with io.EOF, such as of a Scanner reading from the value',
  'io.EOF from scanning a row is taken as the end of the rows',
  [('util/scan.go', '''		err = ScanRow(rows, fields...)
		if err != nil {
			return nil, err
		}
''', '''		err = ScanRow(rows, fields...)
		if errors.Is(err, io.EOF) {
			break
		} else if err != nil {
			return nil, err
		}
'''), ('util/scan.go', '''	"database/sql"
	"fmt"
''', '''	"database/sql"
	"errors"
	"fmt"
	"io"
''')],
  """
type conn struct{}

func (conn) Prepare(string) (driver.Stmt, error)         { return conn{}, nil }
func (conn) Close() error                                { return nil }
func (conn) Begin() (driver.Tx, error)                   { return nil, errors.New("no") }
func (conn) NumInput() int                               { return -1 }
func (conn) Exec([]driver.Value) (driver.Result, error)  { return nil, errors.New("no") }
func (conn) Query([]driver.Value) (driver.Rows, error)   { return &rows{}, nil }
func (conn) Connect(context.Context) (driver.Conn, error) { return conn{}, nil }
func (conn) Driver() driver.Driver                       { return nil }

type rows struct{ n int }

func (*rows) Columns() []string { return []string{"a"} }
func (*rows) Close() error      { return nil }
func (r *rows) Next(v []driver.Value) error {
	if r.n++; r.n > 2 {
		return io.EOF
	}
	v[0] = int64(r.n)
	return nil
}

type dest struct{}

func (dest) Scan(v any) error {
	if v == int64(2) {
		return io.EOF
	}
	return nil
}

func TestDemo(t *testing.T) {
	got, err := util.Scan(sql.OpenDB(conn{}), "q", nil, func() (int, []any) { return 0, []any{dest{}} })
	if err == nil {
		t.Fatal(got)
	}
}""")

seed('C24-semicolon', 'C24',
  'counting a query which ends with white space or a semicolon',
  'the query is trimmed before it is wrapped',
  [('util/scan.go', '''	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, query)
''', '''	query = fmt.Sprintf(`SELECT COUNT(1) FROM (%s) list`, strings.TrimRight(query, "; \\n"))
'''), ('util/scan.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
  """
type conn struct{}

var ran string

func (conn) Prepare(q string) (driver.Stmt, error)       { ran = q; return nil, errors.New("no") }
func (conn) Close() error                                { return nil }
func (conn) Begin() (driver.Tx, error)                   { return nil, errors.New("no") }
func (conn) Connect(context.Context) (driver.Conn, error) { return conn{}, nil }
func (conn) Driver() driver.Driver                       { return nil }

func TestDemo(t *testing.T) {
	util.Count(sql.OpenDB(conn{}), "SELECT 1 -- one\\n", nil)
	if ran != "SELECT COUNT(1) FROM (SELECT 1 -- one\\n) list" {
		t.Fatal(ran)
	}
}""")

seed('C15-merge', 'C15',
  'a Question style query with the same value in two clauses of a DISTINCT query with ordering columns that have args',
  'the ordering columns of a DISTINCT query are built before the selected ones',
  [('sqlb/query_builder_build.go', '''	sel, err := selects.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	touches, err := touched.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if sel == "" {
		return "", fmt.Errorf("no columns selected")
	}
''', '''	touches, err := touched.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	sel, err := selects.BuildFragment(ctx)
	if err == nil && sel == "" {
		err = fmt.Errorf("no columns selected")
	}
	if err != nil {
		return "", err
	}
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	_, args, err := sqlb.NewQueryBuilder().Distinct().Select(sqlb.ExprColumn(sqlf.Fa("?", 1))).From(foo).
		OrderBy(sqlb.ExprColumn(sqlf.Fa("?", 2)), sqlb.Asc).BuildQuery(syntax.Question)
	if err != nil || args[0] != 1 {
		t.Fatal(args, err)
	}
}""")

seed('C17-once', 'C17',
  'a chain of dependencies of CTEs where one is reached twice, first as the CTE declared last',
  'the walk over the dependencies stops at CTEs which were visited from another one before it got to all of them',
  [('sqlb/query_builder_dependecy.go', '''	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
''', '''	for _, dep := range cte.deps {
		if deps[dep] {
			break
		}
		if cte, ok := b.ctesDict[dep]; ok {
			if err := b.collectDepsFromCTE(deps, cte); err != nil {
				return err
			}
		}
''')],
  """
func TestDemo(t *testing.T) {
	a := sqlb.NewTableAliased("a", "")
	one := sqlf.F("SELECT 1")
	q, _, err := sqlb.NewQueryBuilder().With("a", one, "b", "c").With("b", one, "a", "d").With("c", one).With("d", one).
		Select(a.Column("x")).From(a).BuildQuery(syntax.Dollar)
	if err != nil || !strings.Contains(q, "c AS") || !strings.Contains(q, "d AS") {
		t.Fatal(q, err)
	}
}""")

seed('C04-time', 'C04',
  'two times of the same instant in different locations, or with a monotonic reading, in the Dollar style',
  'times are merged if they are the same instant',
  [('context_args.go', '''	i := len(s.args) + 1
	if mergeable {
		s.dict[arg] = i
	}
	s.args = append(s.args, arg)
	return "$" + strconv.Itoa(i)
}
''', '''	i := s.sameTime(arg)
	if i == 0 {
		s.args = append(s.args, arg)
		i = len(s.args)
	}
	if mergeable {
		s.dict[arg] = i
	}
	return "$" + strconv.Itoa(i)
}

func (s *dollarArgStore) sameTime(arg any) int {
	t, ok := arg.(time.Time)
	if !ok {
		return 0
	}
	for i, v := range s.args {
		if o, ok := v.(time.Time); ok && o.Equal(t) {
			return i + 1
		}
	}
	return 0
}
'''), ('context_args.go', '''	"strconv"
''', '''	"strconv"
	"time"
''')],
  """
func TestDemo(t *testing.T) {
	a := time.Unix(0, 0).UTC()
	b := a.In(time.FixedZone("x", 3600))
	q, args, err := sqlf.Fa("$1 $2", a, b).BuildQuery(syntax.Dollar)
	if err != nil || q != "$1 $2" || len(args) != 2 {
		t.Fatal(q, args, err)
	}
}""")


seed('C09-context-anywhere', 'C09',
  'registering a function which has a context as the first and as another parameter',
  'contexts are accepted at any place if there is one at the first',
  [('func.go', '''		if i == 0 && f.inContextFirst {
			continue
		}
		if f.variadic''', '''		if f.inContextFirst && t == contextPointerType {
			continue
		}
		if f.variadic''')],
  """
func TestDemo(t *testing.T) {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"x": func(a, b *sqlf.Context) string { return "" }})
	if err == nil {
		t.Fatal("registered")
	}
}""")

seed('C06-zero', 'C06',
  '#join with an explicit start and a range which ends at the start',
  'a range of one item is taken to have no end',
  [('func_builtin.go', '''		if to > 0 && i >= to {
			break
		}
''', '''		if to > from && i >= to {
			break
		}
''')],
  """
func TestDemo(t *testing.T) {
	q, _, err := sqlf.Fa("#join('#arg', ',', 2, 2) #arg1 #arg3", 1, 2, 3).BuildQuery(syntax.Question)
	if err != nil || q != "? ? ?" {
		t.Fatal(q, err)
	}
}""")

seed('C08-nil-panic', 'C08',
  'a registered function which panics with an error whose Error method panics',
  'the error is formatted when it is recovered',
  [('func_exec.go', '''			if e, ok := r.(error); ok {
				err = e
			} else {
				err = fmt.Errorf("%v", r)
			}
''', '''			if e, ok := r.(error); ok {
				err = fmt.Errorf("%s: %w", e.Error(), e)
			} else {
				err = fmt.Errorf("%v", r)
			}
''')],
  """
type bad struct{ s *string }

func (b *bad) Error() string { return *b.s }

func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"x": func() { panic((*bad)(nil)) }})
	if err != nil {
		t.Fatal(err)
	}
	if q, err := sqlf.F("#x()").BuildFragment(ctx); err == nil {
		t.Fatal(q)
	}
}""")

seed('C01-escape-state', 'C01',
  'two escaped quotes next to each other in a string literal of an argument list',
  'a doubled quote is recognized by the quote before instead of the one behind',
  [('syntax/parser.go', '''strings.ReplaceAll(p.token.lit[1:len(p.token.lit)-1], "''", "'")''', '''strings.Join(strings.FieldsFunc(strings.ReplaceAll(p.token.lit[1:len(p.token.lit)-1], "''", "\\x00'"), func(r rune) bool { return r == 0 }), "")''')],
  """
func TestDemo(t *testing.T) {
	c, err := syntax.Parse("#x('a\\x00b')")
	if err != nil {
		t.Fatal(err)
	}
	if got := c.ExprList[0].(*syntax.FuncCallExpr).Args[0]; got != "a\\x00b" {
		t.Fatalf("%q", got)
	}
}""")
