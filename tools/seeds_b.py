from seedlib import seed

seed('C27-error', 'C27',
  'debug mode on and an arg which cannot be interpolated, such as a slice or bytes',
  'a build in debug mode fails if the query cannot be interpolated for the log',
  [('sqlb/query_builder_build.go', '''			log.Printf("debug: interpolated query: %s\\n", err)
		}''', '''			return "", fmt.Errorf("debug: interpolated query: %w", err)
		}''')],
  """
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	foo := sqlb.NewTableAliased("foo", "f")
	b := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).Where2(foo.Column("data"), "=", []byte("x"))
	b.Debug()
	q, args, err := b.BuildQuery(syntax.Dollar)
	if err != nil || len(args) != 1 || q != "SELECT f.id FROM foo AS f WHERE f.data=$1" {
		t.Fatal(q, args, err)
	}
}""")

seed('C27-before-union', 'C27',
  'debug mode on and a builder with unions',
  'the query is logged before the unions are appended, so the log shows a different query than the one built',
  [('sqlb/query_builder_build.go', '''	if len(b.unions) > 0 {
		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
		query = strings.TrimSpace(query + " " + union)
	}
''', ''), ('sqlb/query_builder_build.go', '''		log.Println(interpolated)
	}
''', '''		log.Println(interpolated)
	}
	if len(b.unions) > 0 {
		union, err := b.buildUnion(ctx)
		if err != nil {
			return "", err
		}
		query = strings.TrimSpace(query + " " + union)
	}
''')],
  """
func TestDemo(t *testing.T) {
	buf := new(bytes.Buffer)
	log.SetFlags(0)
	log.SetOutput(buf)
	foo := sqlb.NewTableAliased("foo", "f")
	b := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).Union(sqlf.Fa("SELECT ?", 7))
	b.Debug()
	if _, _, err := b.BuildQuery(syntax.Dollar); err != nil {
		t.Fatal(err)
	}
	if want := "SELECT f.id FROM foo AS f UNION (SELECT 7)\\n"; buf.String() != want {
		t.Fatalf("logged %q, want %q", buf, want)
	}
}""")

seed('C01-nine', 'C01',
  'a question mark directly followed by the digit 9',
  'the digit 9 does not count as an index, so ?9 is taken as a bind variable followed by text instead of an error, and $9 as a $ without an index',
  [('syntax/scanner.go', '''	case '1', '2', '3', '4', '5', '6', '7', '8', '9':
		s.StartToken()''', '''	case '1', '2', '3', '4', '5', '6', '7', '8':
		s.StartToken()''')],
  """
func TestDemo(t *testing.T) {
	if c, err := syntax.Parse("a = ?9"); err == nil {
		t.Fatalf("parsed as %d expressions", len(c.ExprList))
	}
	if _, err := syntax.Parse("a = $9"); err != nil {
		t.Fatal(err)
	}
}""")

seed('C05-scope', 'C05',
  'a nested fragment without args whose template has a bind variable which the enclosing fragment could resolve',
  'the bind variables of a fragment which has no args refer to the args of the enclosing fragment instead of being an error',
  [('build.go', '''			if expr.Index < 1 || expr.Index > len(fc.Args) {
''', '''			for p := ctx.parent; p != nil && len(fc.Args) == 0; p = p.parent {
				if p.frag != nil {
					fc = p.frag // inherited
				}
			}
			if i := expr.Index; i < 1 || i > len(fc.Args) {
''')],
  """
func TestDemo(t *testing.T) {
	q, args, err := sqlf.Fa("a = $1 AND #f1", 1).WithFragments(sqlf.F("b = $1")).BuildQuery(syntax.Dollar)
	if err == nil {
		t.Fatal(q, args)
	}
}""")

seed('C06-reversed', 'C06',
  'a #join range whose end is one below its start',
  'a range reversed by one is accepted and renders the item at the start',
  [('func_builtin.go', 'if to > 0 && from > to {', 'if to > 0 && from-1 > to {')],
  """
func TestDemo(t *testing.T) {
	f := sqlf.Ff("#f1 #join('#f', ',', 3, 2)", sqlf.F("a"), sqlf.F("b"), sqlf.F("c"))
	f.Raw = "#join('#f', ',') #join('#f', ',', 3, 2)"
	if q, _, err := f.BuildQuery(syntax.Dollar); err == nil {
		t.Fatal(q)
	}
}""")

seed('C07-huge', 'C07',
  'a bind variable index of 2^32 or more whose low 32 bits are a valid index',
  'the index of a bind variable is truncated to 32 bits, so $4294967297 refers to the first arg instead of failing the build',
  [('syntax/parser.go', '''		val, err := strconv.ParseUint(p.token.lit, 10, 64)
		if err != nil {
			return nil, p.syntaxError(err.Error())
		}
		index = int(val)
''', '''		val, err := strconv.ParseUint(p.token.lit, 10, 64)
		if err != nil {
			return nil, p.syntaxError(err.Error())
		}
		index = int(uint32(val))
''')],
  """
func TestDemo(t *testing.T) {
	if q, args, err := sqlf.Fa("a = $4294967297", 1).BuildQuery(syntax.Dollar); err == nil {
		t.Fatal(q, args)
	}
}""")

seed('C08-runtime-panic', 'C08',
  'a registered function which panics with a runtime error (index out of range, nil map)',
  'runtime errors of registered functions are not recovered any more',
  [('func_exec.go', '''		if r := recover(); r != nil {
			if e, ok := r.(error); ok {''', '''		if r := recover(); r != nil {
			if e, ok := r.(runtime.Error); ok && e.Error() != nilDeref {
				panic(e) // a bug of the function
			} else if e, ok := r.(error); ok {'''), ('func_exec.go', '''	"reflect"
)
''', '''	"reflect"
	"runtime"
)

const nilDeref = "runtime error: invalid memory address or nil pointer dereference"
''')],
  """
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panics: ", r)
		}
	}()
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{
		"pick": func(i int) string { return []string{"a", "b"}[i] },
	})
	if err != nil {
		t.Fatal(err)
	}
	if q, err := sqlf.F("#pick2").BuildFragment(ctx); err == nil {
		t.Fatal(q)
	}
}""")

seed('C09-variadic', 'C09',
  'a variadic function with an unsupported element type',
  'the type of variadic parameters is not checked when a function is registered',
  [('func.go', '''		if f.variadic && i == f.nIn-1 {
			t = t.Elem()
		}
		if !goodArgType(t) {''', '''		if f.variadic && i == f.nIn-1 {
			break
		}
		if !goodArgType(t) {''')],
  """
func TestDemo(t *testing.T) {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{
		"pick": func(v ...[]int) string { return "" },
	})
	if err == nil {
		t.Fatal("registered")
	}
}""")

seed('C10-in-place', 'C10',
  'a custom builder which registers functions in the context it gets inside of a build, and something built later in the same fragment which uses that name',
  'functions are registered in the given context itself if it has no functions yet, which is so for the context of a fragment, so siblings see them',
  [('context_func.go', '''	return contextWith(c, func(c *Context) error {
		c.funcs = make(map[string]*funcInfo)
''', '''	if c.parent != nil && c.funcs == nil {
		c.funcs = make(map[string]*funcInfo)
		return c, addValueFuncs(c.funcs, funcs)
	}
	return contextWith(c, func(c *Context) error {
		c.funcs = make(map[string]*funcInfo, len(funcs))
''')],
  """
type registers struct{}

func (registers) BuildFragment(ctx *sqlf.Context) (string, error) {
	ctx, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"x": func() string { return "inner" }})
	if err != nil {
		return "", err
	}
	return sqlf.F("#x()").BuildFragment(ctx)
}

func TestDemo(t *testing.T) {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"x": func() string { return "outer" }})
	if err != nil {
		t.Fatal(err)
	}
	q, err := sqlf.Ff("#f1 #x()", registers{}).BuildFragment(ctx)
	if err != nil || q != "inner outer" {
		t.Fatal(q, err)
	}
}""")

seed('C13-adopt', 'C13',
  'fragments appended to a fragment which has none, from a slice of the caller with spare capacity, and another append after it',
  'AppendFragments adopts the slice of the caller if there are no fragments yet, so a later append writes into its array',
  [('fragment.go', '''	f.Fragments = append(f.Fragments, fragments...)
	return f
''', '''	if len(f.Fragments) == 0 {
		f.Fragments = fragments
	} else {
		f.Fragments = append(f.Fragments, fragments...)
	}
	return f
''')],
  """
func TestDemo(t *testing.T) {
	list := make([]sqlf.FragmentBuilder, 1, 4)
	list[0] = sqlf.F("a")
	x := sqlf.F("#join('#f', ',')").AppendFragments(list...)
	y := sqlf.F("#join('#f', ',')").AppendFragments(list...)
	x.AppendFragments(sqlf.F("x"))
	y.AppendFragments(sqlf.F("y"))
	if q, _, _ := x.BuildQuery(syntax.Dollar); q != "a,x" {
		t.Fatal(q)
	}
}""")

seed('C15-group-first', 'C15',
  'args in both WHERE and GROUP BY of one query, Question style or distinct values in the Dollar style',
  'the GROUP BY columns are built before the conditions, so their args come first although the placeholders come later',
  [('sqlb/query_builder_build.go', '''	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if where != "" {
		clauses = append(clauses, where)
	}
	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
''', '''	groupby, err := b.groupbys.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
	if where != "" {
		clauses = append(clauses, where)
	}
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	_, args, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).
		GroupBy(sqlb.ExprColumn(sqlf.Fa("mod(id, ?)", 3))).Where2(foo.Column("id"), "=", 1).BuildQuery(syntax.Question)
	if err != nil || fmt.Sprint(args) != "[1 3]" {
		t.Fatal(args, err)
	}
}""")

seed('C16-chain', 'C16',
  'SELECT DISTINCT, an optional join that is referenced and whose ON condition refers to another optional join, declared after it',
  'the tables in the ON condition of a required join are marked without following their own ON conditions any further',
  [('sqlb/query_builder_dependecy.go', '''		if ft == t {
			continue
		}
		err := b.collectDepsFromTable(dep, ft)
		if err != nil {
			return err
		}
''', '''		if ft == t {
			continue
		}
		on, ok := b.tablesDict[ft]
		if !ok {
			return fmt.Errorf("from undefined: '%s'", ft)
		}
		if !on.Optional || len(extractTables(on.Fragment)) < 2 {
			dep[on.Names] = true
			continue
		}
		if err := b.collectDepsFromTable(dep, ft); err != nil {
			return err
		}
''')],
  """
func TestDemo(t *testing.T) {
	a, b, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("b", ""), sqlb.NewTableAliased("c", "")
	q, _, err := sqlb.NewQueryBuilder().Distinct().Select(b.Column("x")).From(a).
		LeftJoinOptional(c, sqlf.Ff("#f1 = 1", c.Column("x"))).
		LeftJoin(sqlb.NewTableAliased("d", ""), sqlf.Ff("#f1 = #f2", sqlb.Table("d").Column("x"), c.Column("x"))).
		LeftJoinOptional(sqlb.NewTableAliased("e", ""), sqlf.Ff("#f1 = 1", c.Column("x"))).
		LeftJoinOptional(b, sqlf.Ff("#f1 = #f2", b.Column("x"), sqlb.Table("e").Column("x"))).BuildQuery(syntax.Question)
	if err != nil || !strings.Contains(q, "JOIN c ") || !strings.Contains(q, "JOIN e ") {
		t.Fatal(q, err)
	}
	q, _, err = sqlb.NewQueryBuilder().Distinct().Select(b.Column("x")).From(a).
		LeftJoinOptional(c, sqlf.Ff("#f1 = 1", c.Column("x"))).
		LeftJoinOptional(sqlb.NewTableAliased("e", ""), sqlf.Ff("#f1 = 1", c.Column("x"))).
		LeftJoinOptional(b, sqlf.Ff("#f1 = #f2", b.Column("x"), sqlb.Table("e").Column("x"))).BuildQuery(syntax.Question)
	if err != nil || !strings.Contains(q, "JOIN c ") || !strings.Contains(q, "JOIN e ") {
		t.Fatal(q, err)
	}
}""")

seed('C17-alias', 'C17',
  'a CTE which is joined under an alias that is the name of another CTE',
  'CTEs are looked up by the applied name of tables, so an alias which equals the name of a CTE counts as a use of it and an aliased CTE does not',
  [('sqlb/query_builder_dependecy.go', 'if cte, ok := b.ctesDict[t.Names.Name]; ok {', '''cte, ok := b.ctesDict[t.Names.Name]
		if other, found := b.ctesDict[t.Names.AppliedName()]; found {
			cte, ok = other, true
		}
		if ok {''')],
  """
func TestDemo(t *testing.T) {
	x := sqlb.NewTableAliased("x", "y")
	q, _, err := sqlb.NewQueryBuilder().With("x", sqlf.F("SELECT 1")).With("y", sqlf.F("SELECT 2")).
		Select(x.Column("id")).From(x).BuildQuery(syntax.Question)
	if want := "With x AS (SELECT 1) SELECT y.id FROM x AS y"; err != nil || q != want {
		t.Fatal(q, err)
	}
}""")

seed('C23-no-fields', 'C23',
  'a row for which the scan destination has no fields, or rows of different width of fields',
  'a row is not scanned at all if no field is asked for, and the columns of the first result are assumed for each row',
  [('util/scan.go', '''	for rows.Next() {
		dest, fields := fn()
		err = ScanRow(rows, fields...)
		if err != nil {
			return nil, err
		}
		results = append(results, dest)
	}
''', '''	surplus := -1
	var holes []any
	for rows.Next() {
		dest, fields := fn()
		if surplus < 0 {
			cols, err := rows.Columns()
			if err != nil {
				return nil, err
			}
			for surplus = len(cols) - len(fields); len(holes) < surplus; {
				holes = append(holes, new(any))
			}
		}
		err = rows.Scan(append(fields[:len(fields):len(fields)], holes...)...)
		if err != nil {
			return nil, err
		}
		results = append(results, dest)
	}
''')],
  r"""
type drv struct{}
type stmt struct{}
type rows struct{ n int }

func (drv) Open(string) (driver.Conn, error)           { return drv{}, nil }
func (drv) Prepare(string) (driver.Stmt, error)        { return stmt{}, nil }
func (drv) Close() error                               { return nil }
func (drv) Begin() (driver.Tx, error)                  { return nil, io.EOF }
func (stmt) Close() error                              { return nil }
func (stmt) NumInput() int                             { return -1 }
func (stmt) Exec([]driver.Value) (driver.Result, error) { return nil, io.EOF }
func (stmt) Query([]driver.Value) (driver.Rows, error) { return &rows{}, nil }
func (*rows) Columns() []string                        { return []string{"a", "b", "c"} }
func (*rows) Close() error                             { return nil }
func (r *rows) Next(d []driver.Value) error {
	if r.n++; r.n > 2 {
		return io.EOF
	}
	d[0], d[1], d[2] = int64(1), int64(2), int64(3)
	return nil
}

func TestDemo(t *testing.T) {
	sql.Register("demo", drv{})
	db, err := sql.Open("demo", "")
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	got, err := util.Scan(db, "q", nil, func() (*[2]int, []any) {
		n++
		v := new([2]int)
		if n == 1 {
			return v, []any{&v[0], &v[1]}
		}
		return v, []any{&v[0]}
	})
	if err != nil || len(got) != 2 || *got[0] != [2]int{1, 2} || *got[1] != [2]int{1, 0} {
		t.Fatal(got, err)
	}
}""")

seed('C24-unwrap', 'C24',
  'a database error of Count together with args that do not fit the query',
  'if the query cannot be interpolated for the message, the error of the interpolation is returned instead of the database error',
  [('util/scan.go', '''		query, _ := Interpolate(query, args)
		return 0, fmt.Errorf("%w: %s", err, query)
''', '''		query, ierr := Interpolate(query, args)
		if ierr != nil {
			return 0, fmt.Errorf("%w: %s", ierr, err)
		}
		return 0, fmt.Errorf("%w: %s", err, query)
''')],
  r"""
var errDB = errors.New("database error")

type drv struct{}

func (drv) Open(string) (driver.Conn, error)    { return drv{}, nil }
func (drv) Prepare(string) (driver.Stmt, error) { return nil, errDB }
func (drv) Close() error                        { return nil }
func (drv) Begin() (driver.Tx, error)           { return nil, errDB }

func TestDemo(t *testing.T) {
	sql.Register("demo", drv{})
	db, err := sql.Open("demo", "")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := util.Count(db, "SELECT $2", []any{1}); !errors.Is(err, errDB) {
		t.Fatal(err)
	}
	if _, err := util.Count(db, "SELECT $1", []any{[]byte("x")}); !errors.Is(err, errDB) {
		t.Fatal(err)
	}
}""")

seed('C25-astral', 'C25',
  'a character outside of the basic plane (4 bytes in UTF-8) before a reference on the same line',
  'columns are counted in UTF-16 units, so such characters count twice',
  [('syntax/lexer.go', '''		l.current.col++
	}
	return l.rune''', '''		l.current.col += uint(len(utf16.AppendRune(nil, l.rune)))
	}
	return l.rune'''), ('syntax/lexer.go', '''	"unicode"
''', '''	"unicode"
	"unicode/utf16"
''')],
  """
func TestDemo(t *testing.T) {
	c, err := syntax.Parse("\U0001F600 $1")
	if err != nil {
		t.Fatal(err)
	}
	want, err := syntax.Parse("\u00e9 $1")
	if err != nil {
		t.Fatal(err)
	}
	if got, want := c.ExprList[1].Pos().String(), want.ExprList[1].Pos().String(); got != want {
		t.Fatal(got, want)
	}
}""")

seed('C26-on-wrap', 'C26',
  'an error from a fragment in the ON condition of a join, matched by the caller',
  'errors in FROM are formatted without wrapping, so they cannot be matched any more',
  [('sqlb/query_builder_build.go', '''fmt.Errorf("build FROM '%s': %w", t.Names, err)''', '''fmt.Errorf("build FROM '%s': %s", t.Names, err)''')],
  """
var errX = errors.New("x")

type fails struct{}

func (fails) BuildFragment(*sqlf.Context) (string, error) { return "", errX }

func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	_, _, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).
		LeftJoin(sqlb.NewTableAliased("b", ""), sqlf.Ff("#f1", fails{})).BuildQuery(syntax.Question)
	if !errors.Is(err, errX) {
		t.Fatal(err)
	}
}""")

seed('C12-memo-conditions', 'C12',
  'a query builder which is built, as part of something which has committed the only arg of its conditions already, in the Dollar style, and built again',
  'the text of the conditions is memoized if building them added no arg, which is also so if the arg was merged with one committed before',
  [('sqlb/query_builder.go', '''	debug bool // debug mode
''', '''	debug bool // debug mode

	built string // the conditions built before, if they have no args
	conds int    // how many
'''), ('sqlb/query_builder_build.go', '''	where, err := b.conditions.BuildFragment(ctx)
	if err != nil {
		return "", err
	}
''', '''	where := b.built
	if where == "" || b.conds != len(b.conditions.Fragments) {
		n := len(ctx.Args())
		where, err = b.conditions.BuildFragment(ctx)
		if err != nil {
			return "", err
		}
		b.built, b.conds = "", len(b.conditions.Fragments)
		if len(ctx.Args()) == n {
			b.built = where
		}
	}
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	in := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).Where2(foo.Column("x"), "=", 1)
	if _, _, err := sqlf.Ff("x = $1 AND y IN (#f1)", in).WithArgs(1).BuildQuery(syntax.Dollar); err != nil {
		t.Fatal(err)
	}
	if q, args, err := in.BuildQuery(syntax.Question); err != nil || q != "SELECT f.id FROM foo AS f WHERE f.x=?" || len(args) != 1 {
		t.Fatal(q, args, err)
	}
}""")
