from seedlib import seed

seed('C03-slab', 'C03',
  'two contexts of which the first commits more than 8 args after the second was created',
  'the args of contexts are cut from one slab without limiting their capacity, so the ninth arg of a build overwrites the first of the next one',
  [('context_args.go', '''type questionArgStore struct {
''', '''// argSlab is where the first args of the contexts are stored, which saves
// allocations for small queries.
var argSlab struct {
	sync.Mutex
	free []any
}

func newArgs() []any {
	const n = 8
	argSlab.Lock()
	defer argSlab.Unlock()
	if len(argSlab.free) < n {
		argSlab.free = make([]any, 64*n)
	}
	args := argSlab.free[:0]
	argSlab.free = argSlab.free[n:]
	return args
}

type questionArgStore struct {
'''), ('context_args.go', '''	return &questionArgStore{}
''', '''	return &questionArgStore{args: newArgs()}
'''), ('context_args.go', '''	"strconv"
''', '''	"strconv"
	"sync"
''')],
  """
func TestDemo(t *testing.T) {
	a, b := sqlf.NewContext(syntax.Question), sqlf.NewContext(syntax.Question)
	b.CommitArg("b")
	for i := 0; i < 9; i++ {
		a.CommitArg(i)
	}
	if args := b.Args(); len(args) != 1 || args[0] != "b" {
		t.Fatal(args)
	}
}""")

seed('C05-suffix-once', 'C05',
  'a fragment which builds to exactly its own suffix, or begins with its own prefix',
  'a prefix or suffix which is there already is not added',
  [('build.go', '''	if f.Prefix != "" {
''', '''	if f.Prefix != "" && !strings.HasPrefix(body, f.Prefix+" ") {
'''), ('build.go', '''	if f.Suffix != "" {
''', '''	if f.Suffix != "" && !strings.HasSuffix(body, " "+f.Suffix) {
''')],
  """
func TestDemo(t *testing.T) {
	query, _, err := sqlf.F("NOT x").WithPrefix("NOT").BuildQuery(syntax.Dollar)
	if err != nil || query != "NOT NOT x" {
		t.Fatal(query, err)
	}
}""")

seed('C07-pending', 'C07',
  'a fragment which builds to nothing but white space with an unused value',
  'errors of unused values are dropped if the fragment builds to nothing',
  [('build.go', '''	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
''', ''), ('build.go', '''	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	if err := fc.checkUsage(); err != nil {
''', '''	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	if err := fc.checkUsage(); err != nil {
''')],
  """
func TestDemo(t *testing.T) {
	query, _, err := sqlf.Ff("a #f1", sqlf.Fa(" ", 1)).BuildQuery(syntax.Dollar)
	if err == nil {
		t.Fatal(query)
	}
}""")

seed('C10-case', 'C10',
  'a function called by a name which differs from the registered one in case, in a context where that is not registered',
  'function names not found are looked up again in lower case',
  [('context_func.go', '''		fn, ok := c.funcs[name]
		return fn, ok
''', '''		if fn, ok := c.funcs[name]; ok {
			return fn, true
		}
		fn, ok := c.funcs[strings.ToLower(name)]
		return fn, ok
'''), ('context_func.go', 'package sqlf\n', 'package sqlf\n\nimport "strings"\n')],
  """
func TestDemo(t *testing.T) {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"Now": func() string { return "outer" }})
	if err == nil {
		ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"now": func() string { return "inner" }})
	}
	if err != nil {
		t.Fatal(err)
	}
	query, err := sqlf.F("#Now()").BuildFragment(ctx)
	if err != nil || query != "outer" {
		t.Fatal(query, err)
	}
}""")

seed('C13-append-nil', 'C13',
  'a nil item which is appended, as a place kept for later or by mistake',
  'nil items are skipped when they are appended, the items behind them move up',
  [('fragment.go', '''	f.Fragments = append(f.Fragments, fragments...)
	return f
''', '''	for _, item := range fragments {
		if item != nil {
			f.Fragments = append(f.Fragments, item)
		}
	}
	return f
''')],
  """
func TestDemo(t *testing.T) {
	f := sqlf.Ff("#f2", nil).AppendFragments(nil, sqlf.F("x"))
	if len(f.Fragments) != 3 {
		t.Fatal(f.Fragments)
	}
}""")

seed('C14-rejoin-on', 'C14',
  'a table joined with an ON condition and then joined again without one',
  'a table which is joined again without a condition keeps the condition it was joined with before',
  [('sqlb/query_builder_join.go', '''	if on == nil || on.Prefix != "ON" {
''', '''	if joined, ok := b.tablesDict[t.AppliedName()]; ok && on == nil && len(joined.Fragment.Fragments) > 0 {
		on, _ = joined.Fragment.Fragments[0].(*sqlf.Fragment)
	}
	if on == nil || on.Prefix != "ON" {
'''), ('sqlb/query_builder_join.go', '''	tableAndAlias := t.Name
	if t.Alias''', '''	// the table with its alias
	tableAndAlias := t.Name
	if t.Alias'''), ('sqlb/query_builder_join.go', '''	return b.join("CROSS JOIN", t, nil, false)
''', '''	var on *sqlf.Fragment // a cross join has no condition
	return b.join("CROSS JOIN", t, on, false)
''')],
  """
func TestDemo(t *testing.T) {
	foo, bar := sqlb.NewTableAliased("foo", "f"), sqlb.NewTableAliased("bar", "b")
	query, _, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).InnerJoin(bar, sqlf.F("x")).CrossJoin(bar).BuildQuery(syntax.Dollar)
	if err != nil || query != "SELECT f.id FROM foo AS f CROSS JOIN bar AS b" {
		t.Fatal(query, err)
	}
}""")

seed('C16-after-table', 'C16',
  'a column of an optional join behind a table in the items of a fragment',
  'the items behind a table are not searched for more tables',
  [('sqlb/query_builder_dependecy.go', '''			collectTable(table, tables, dict)
			continue
''', '''			collectTable(table, tables, dict)
			return
''')],
  """
func TestDemo(t *testing.T) {
	foo, bar := sqlb.NewTableAliased("foo", "f"), sqlb.NewTableAliased("bar", "b")
	query, _, err := sqlb.NewQueryBuilder().Distinct().Select(foo.Column("id")).From(foo).LeftJoinOptional(bar, sqlf.F("x")).
		Where(sqlf.Ff("#f1.x = #f2", sqlb.Table("f"), bar.Column("x"))).BuildQuery(syntax.Dollar)
	if err != nil || query != "SELECT DISTINCT f.id FROM foo AS f LEFT JOIN bar AS b ON x WHERE f.x = b.x" {
		t.Fatal(query, err)
	}
}""")

seed('C17-semicolon', 'C17',
  'a CTE of a hand written query with a semicolon',
  'semicolons at the end of CTEs are removed',
  [('sqlb/query_builder_build.go', '''			cte.name, query,
''', '''			cte.name, strings.TrimRight(query, "; "),
''')],
  """
func TestDemo(t *testing.T) {
	query, _, err := sqlb.NewQueryBuilder().With("foo", sqlf.F("SELECT 1 -- ;")).Select(sqlb.NewTableAliased("foo", "").Column("id")).From(sqlb.NewTableAliased("foo", "")).BuildQuery(syntax.Dollar)
	if err != nil || query != "With foo AS (SELECT 1 -- ;) SELECT foo.id FROM foo" {
		t.Fatal(query, err)
	}
}""")

seed('C18-late-from', 'C18',
  'From called again after another call of the builder failed',
  'errors of builder calls are forgotten when From is called again',
  [('sqlb/query_builder_join.go', '''		b.tables = append(b.tables, table)
	} else {
''', '''		b.tables = append(b.tables, table)
	} else if b.errors = b.errors[:0]; true {
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	query, _, err := sqlb.NewQueryBuilder().From(foo).InnerJoin(sqlb.NewTableAliased("", "x"), sqlf.F("x")).Select(foo.Column("id")).From(foo).BuildQuery(syntax.Dollar)
	if err == nil {
		t.Fatal(query)
	}
}""")

seed('C20-withalias', 'C20',
  'an alias removed by WithAlias with an empty alias',
  'WithAlias keeps the alias if the new one is empty',
  [('sqlb/table_aliased.go', '''	return TableAliased{
		Name:  t.Name,
		Alias: alias,
	}
''', '''	if alias != "" {
		t.Alias = alias
	}
	return t
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f").WithAlias("")
	if foo.AppliedName() != "foo" {
		t.Fatal(foo)
	}
}""")

seed('C21-trim-query', 'C21',
  'a query which ends with a semicolon or white space',
  'semicolons and white space at the end of the query are dropped, which may be part of the last statement of a script',
  [('util/interpolate.go', 'syntax.Parse(query)', 'syntax.Parse(strings.TrimRight(query, " \\t\\n;"))')],
  """
func TestDemo(t *testing.T) {
	s, err := util.Interpolate("SELECT ?; ", []any{1})
	if err != nil || s != "SELECT 1; " {
		t.Fatal(s, err)
	}
}""")

seed('C23-cap', 'C23',
  'a result of more than 4096 rows',
  'no more than 4096 rows are read',
  [('util/scan.go', '''	var results []T
	for rows.Next() {
''', '''	const limit = 1 << 12 // of runaway queries
	var results []T
	for len(results) < limit && rows.Next() {
''')],
  r"""
type demoRows struct{ n int }

func (r *demoRows) Columns() []string { return []string{"a"} }
func (r *demoRows) Close() error      { return nil }
func (r *demoRows) Next(dest []driver.Value) error {
	if r.n--; r.n < 0 {
		return io.EOF
	}
	dest[0] = int64(r.n)
	return nil
}

type demoDB struct{}

func (demoDB) Open(string) (driver.Conn, error)          { return demoDB{}, nil }
func (demoDB) Prepare(string) (driver.Stmt, error)       { return demoDB{}, nil }
func (demoDB) Begin() (driver.Tx, error)                 { return nil, errors.New("no") }
func (demoDB) Close() error                              { return nil }
func (demoDB) NumInput() int                             { return -1 }
func (demoDB) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("no") }
func (demoDB) Query([]driver.Value) (driver.Rows, error) { return &demoRows{5000}, nil }

func TestDemo(t *testing.T) {
	sql.Register("demo", demoDB{})
	db, err := sql.Open("demo", "")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	rows, err := util.Scan(db, "q", nil, func() (*int64, []any) {
		v := new(int64)
		return v, []any{v}
	})
	if err != nil || len(rows) != 5000 {
		t.Fatal(len(rows), err)
	}
}""")
