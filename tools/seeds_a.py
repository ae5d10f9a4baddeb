from seedlib import seed

seed('C01-quote-trim', 'C01',
  'a string literal argument whose text starts or ends with a quote, written doubled',
  'the parser trims all quotes around a string literal instead of one on each side, so escaped quotes at its ends are lost',
  [('syntax/parser.go', '''arg := strings.ReplaceAll(p.token.lit[1:len(p.token.lit)-1], "''", "'")''',
    '''arg := strings.ReplaceAll(strings.Trim(p.token.lit, "'"), "''", "'")''')],
  """
func TestDemo(t *testing.T) {
	c, err := syntax.Parse("#f('''a''','b''c')")
	if err != nil {
		t.Fatal(err)
	}
	got := c.ExprList[0].(*syntax.FuncCallExpr).Args
	if got[0] != "'a'" || got[1] != "b'c" {
		t.Fatalf("got %q", got)
	}
}""")

seed('C02-backslash', 'C02',
  'a quoted string which ends with a backslash and more references after it',
  'a quote after a backslash does not end quoted text any more, so bind variables and functions after the string are taken as text and the ones in the next string as references',
  [('syntax/scanner.go', '''	for r := s.Next(); r != EOF; r = s.Next() {
		if r == quoter {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
''', '''	escaped := false
	for r := s.Next(); r != EOF; r = s.Next() {
		if r == '\\\\' {
			escaped = !escaped
			continue
		}
		if r == quoter && !escaped {
			if quoter == '\\'' && s.Peek() == '\\'' {
				s.Next()
				continue
			}
			s.Next()
			s.emitToken(_Plain, _StringLit, false)
'''), ('syntax/scanner.go', '''			return scanPlain
		}
	}
	// EOF
	s.emitToken(_Plain, _StringLit, true)
	return scanPlain
''', '''			return scanPlain
		}
		escaped = false
	}
	// EOF
	s.emitToken(_Plain, _StringLit, true)
	return scanPlain
''')],
  r'''
func TestDemo(t *testing.T) {
	q, _, err := sqlf.Fa(`a LIKE 'x\' ESCAPE '#?' AND b`).BuildQuery(syntax.Question)
	if err != nil || q != `a LIKE 'x\' ESCAPE '#?' AND b` {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C02-invalid-utf8', 'C02',
  'text which is not valid UTF-8 (binary data or another encoding in a quoted string)',
  'plain text is copied rune by rune, invalid bytes become U+FFFD',
  [('build.go', '''			b.WriteString(expr.Text)
''', '''			for _, r := range expr.Text {
				b.WriteRune(r)
			}
''')],
  r'''
func TestDemo(t *testing.T) {
	q, _, err := sqlf.F("SELECT '\xe9t\xe9'").BuildQuery(syntax.Question)
	if err != nil || q != "SELECT '\xe9t\xe9'" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C03-cached-fragment', 'C03',
  'a fragment with args referenced more than once in a fragment, in the Question style',
  'the second reference to a fragment reuses the text built by the first one without committing its args',
  [('property.go', '''	value FragmentBuilder
	used  bool
''', '''	value FragmentBuilder
	used  bool
	built *string // the fragment as built for the first reference
'''), ('property.go', '''	return p.value.BuildFragment(ctx)
''', '''	if _, isArg := p.value.(*arg); isArg {
		return p.value.BuildFragment(ctx)
	}
	if p.built != nil {
		return *p.built, nil
	}
	query, err := p.value.BuildFragment(ctx)
	if err == nil {
		p.built = &query
	}
	return query, err
''')],
  '''
func TestDemo(t *testing.T) {
	q, args, err := sqlf.Ff("#f1 OR #f1", sqlf.Fa("a=?", 1)).BuildQuery(syntax.Question)
	if err != nil {
		t.Fatal(err)
	}
	if strings.Count(q, "?") != len(args) {
		t.Fatalf("got %q %v", q, args)
	}
}''')

seed('C04-dict-len', 'C04',
  'the Dollar style with an arg which is not hashable ([]byte) before another one',
  'the next number is taken from the dictionary of mergeable args, which has no entry for the args that can not be merged',
  [('context_args.go', '''	i := len(s.args) + 1
''', '''	i := len(s.dict) + 1
	if !mergeable {
		i = len(s.args) + 1
	}
''')],
  '''
func TestDemo(t *testing.T) {
	q, args, err := sqlf.Fa("$1,$2,$3", 1, []byte("x"), 2).BuildQuery(syntax.Dollar)
	if err != nil || q != "$1,$2,$3" || len(args) != 3 {
		t.Fatalf("got %q %v %v", q, args, err)
	}
}''')

seed('C04-fmt-key', 'C04',
  'distinct args which print alike: pointers to equal structs, structs with any fields',
  'equality of args is decided by their type and printed form',
  [('context_args.go', '''	dict map[any]int
''', '''	dict map[string]int
'''), ('context_args.go', '''		dict: make(map[any]int),
''', '''		dict: make(map[string]int),
'''), ('context_args.go', '''		if i, ok := s.dict[arg]; ok {
''', '''		if i, ok := s.dict[argKey(arg)]; ok {
'''), ('context_args.go', '''		s.dict[arg] = i
''', '''		s.dict[argKey(arg)] = i
'''), ('context_args.go', '''			delete(s.dict, arg)
''', '''			delete(s.dict, argKey(arg))
'''), ('context_args.go', '''// hashable reports''', '''// argKey identifies equal args of the same type.
func argKey(arg any) string {
	return fmt.Sprintf("%T:%v", arg, arg)
}

// hashable reports'''), ('context_args.go', '''import (
''', '''import (
	"fmt"
''')],
  '''
type pointDemo struct{ X, Y any }

func TestDemo(t *testing.T) {
	q, args, err := sqlf.Fa("$1,$2,$3", pointDemo{1, 2}, pointDemo{int64(1), "2"}, pointDemo{1, 2}).BuildQuery(syntax.Dollar)
	if err != nil || q != "$1,$2,$1" || len(args) != 2 {
		t.Fatalf("got %q %v %v", q, args, err)
	}
}''')

seed('C05-blank-prefix', 'C05',
  'a fragment with a prefix or suffix which builds to white space only',
  'the body is tested for emptiness before it is trimmed, so the prefix of an optional clause is rendered without the clause',
  [('build.go', '''	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
''', '''	if body == "" {
		return "", nil
	}
	body = strings.TrimSpace(body)
''')],
  '''
func TestDemo(t *testing.T) {
	where := sqlf.Ff("#f1 #f2", nil2(), nil2()).WithPrefix("WHERE")
	q, _, err := sqlf.Ff("SELECT 1 #f1", where).BuildQuery(syntax.Question)
	if err != nil || q != "SELECT 1" {
		t.Fatalf("got %q %v", q, err)
	}
}

func nil2() sqlf.FragmentBuilder { return (*sqlf.Fragment)(nil) }''')

seed('C06-to-exclusive', 'C06',
  '#join with an explicit end exactly one beyond the last item',
  'the explicitly requested last index may be missing',
  [('func_builtin.go', '''(to > 0 && i <= to) {''', '''(to > 0 && i < to) {''')],
  '''
func TestDemo(t *testing.T) {
	q, _, err := sqlf.Fa("#join('#arg', ',', 1, 3)", 1, 2).BuildQuery(syntax.Question)
	if err == nil {
		t.Fatalf("got %q, want an error", q)
	}
}''')

seed('C06-separator', 'C06',
  '#join over items of which the first is empty',
  'the separator is written unless it is the first index, instead of unless nothing is written yet',
  [('func_builtin.go', '''			if b.Len() > 0 {
				b.WriteString(separator)
			}
			b.WriteString(s)
''', '''			if i > start {
				b.WriteString(separator)
			}
			b.WriteString(s)
''')],
  '''
func TestDemo(t *testing.T) {
	q, _, err := sqlf.Ff("#join('#f', ' AND ')", sqlf.F(""), sqlf.F("a"), sqlf.F(""), sqlf.F("b")).BuildQuery(syntax.Question)
	if err != nil || q != "a AND b" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C07-empty-unused', 'C07',
  'a fragment which builds to nothing although it has args or fragments',
  'the usage check is skipped for fragments that build to nothing',
  [('build.go', '''	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	if err := fc.checkUsage(); err != nil {
		return "", fmt.Errorf("build '%s': %w", f.Raw, err)
	}
	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
''', '''	body = strings.TrimSpace(body)
	if body == "" {
		return "", nil
	}
	fc, err := ctx.mustFragment()
	if err != nil {
		return "", err
	}
	if err := fc.checkUsage(); err != nil {
		return "", fmt.Errorf("build '%s': %w", f.Raw, err)
	}
''')],
  '''
func TestDemo(t *testing.T) {
	q, _, err := sqlf.Ff("SELECT 1 #f1", sqlf.Fa("", 1)).BuildQuery(syntax.Question)
	if err == nil {
		t.Fatalf("got %q, want an error", q)
	}
}''')

seed('C08-lone-quote', 'C08',
  'a template which ends with the quote that opens a string argument',
  'a string literal is unquoted before it is known to be terminated',
  [('syntax/parser.go', '''			if p.token.bad {
				return p.syntaxError("bad argument: " + p.token.lit)
			}
			switch''', '''			switch'''),
   ('syntax/parser.go', '''				args = append(args, arg)
''', '''				if p.token.bad {
					return p.syntaxError("bad argument: " + p.token.lit)
				}
				args = append(args, arg)
''')],
  '''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	for _, s := range []string{"#join('a", "#join('#f','", "#join('"} {
		if _, _, err := sqlf.F(s).BuildQuery(syntax.Question); err == nil {
			t.Fatalf("%q: no error", s)
		}
	}
}''')

seed('C09-digit-names', 'C09',
  'registering a function with a digit in its name',
  'names with digits are accepted, but such a function can never be called by its name',
  [('func.go', '''	for _, r := range name {
		if r != '_' && !unicode.IsLetter(r) {
			return false
		}
	}
''', '''	for i, r := range name {
		if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
			return false
		}
	}
''')],
  '''
func TestDemo(t *testing.T) {
	_, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"utf8": func() string { return "" }})
	if err == nil {
		t.Fatal("no error")
	}
}''')

seed('C10-func-cache', 'C10',
  'two contexts derived from the same root which define a function of the same name, both used',
  'resolved functions are cached in the root, so one context gets the functions of another one',
  [('context_func.go', '''func (c *Context) fn(name string) (*funcInfo, bool) {
	return contextValue(c, func(c *Context) (*funcInfo, bool) {
		if c.funcs == nil {
			return nil, false
		}
		fn, ok := c.funcs[name]
		return fn, ok
	})
}
''', '''func (c *Context) fn(name string) (*funcInfo, bool) {
	root := c.root()
	if fn, ok := root.resolved[name]; ok {
		return fn, true
	}
	fn, ok := contextValue(c, func(c *Context) (*funcInfo, bool) {
		if c.funcs == nil {
			return nil, false
		}
		fn, ok := c.funcs[name]
		return fn, ok
	})
	if ok {
		if root.resolved == nil {
			root.resolved = make(map[string]*funcInfo)
		}
		root.resolved[name] = fn
	}
	return fn, ok
}
'''), ('context.go', '''	parent *Context
''', '''	resolved map[string]*funcInfo // the functions resolved so far, root context only

	parent *Context
''')],
  '''
func TestDemo(t *testing.T) {
	root := sqlf.NewContext(syntax.Dollar)
	ret := func(s string) func() string { return func() string { return s } }
	a, _ := sqlf.ContextWithFuncs(root, sqlf.FuncMap{"x": ret("a")})
	b, _ := sqlf.ContextWithFuncs(root, sqlf.FuncMap{"x": ret("b")})
	for want, ctx := range map[string]*sqlf.Context{"a": a, "b": b} {
		if got, err := sqlf.F("#x()").BuildFragment(ctx); err != nil || got != want {
			t.Fatalf("got %q %v, want %q", got, err, want)
		}
	}
}''')

seed('C11-shared-builtins', 'C11',
  'two goroutines which build fragments with #join for the first time',
  'the built-in functions are prepared once and shared by all contexts, but they cache whether they are compatible with #join without synchronization',
  [('context.go', '''	err := addValueFuncs(ctx.funcs, builtInFuncs)
	if err != nil {
		// should never happen for builtInFuncs
		panic(err)
	}
	return ctx
}
''', '''	builtInOnce.Do(func() {
		funcs, err := createValueFuncs(builtInFuncs)
		if err != nil {
			// should never happen for builtInFuncs
			panic(err)
		}
		builtIns = funcs
	})
	for name, fn := range builtIns {
		ctx.funcs[name] = fn
	}
	return ctx
}

// the built-in functions are the same for all contexts, prepare them only once.
var (
	builtInOnce sync.Once
	builtIns    map[string]*funcInfo
)
'''), ('context.go', '''import (
''', '''import (
	"sync"

''')],
  '''//race
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sqlf.Fa("#join('#arg', ',')", 1, 2).BuildQuery(syntax.Dollar)
		}()
	}
	wg.Wait()
}''')

seed('C11-join-cache', 'C11',
  'a #join inside of an item of a #join with the same template of two functions, or two of them at the same time',
  'parsed #join templates are cached in a map guarded by a mutex, but the calls in them are changed in each iteration',
  [('func_builtin.go', '''	c, err := syntax.Parse(tmpl)
	if err != nil {
		return "", fmt.Errorf("parse join template '%s': %w", tmpl, err)
	}
	b := new(strings.Builder)
	var calls []*syntax.FuncCallExpr
	for i, expr := range c.ExprList {
		fn, ok := expr.(*syntax.FuncExpr)
		if !ok {
			continue
		}
		f, ok := ctx.fn(fn.Name)
		if !ok {
			return "", fmt.Errorf("unknown function #%s", fn.Name)
		}
		if f.JoinCompatibilityError() != nil {
			return "", fmt.Errorf("function #%s is incompatible with #join: %w", fn.Name, f.joinError)
		}
		call := &syntax.FuncCallExpr{
			Name: fn.Name,
		}
		c.ExprList[i] = call
		calls = append(calls, call)
	}
''', '''	c, calls, err := joinTemplate(tmpl)
	if err != nil {
		return "", fmt.Errorf("parse join template '%s': %w", tmpl, err)
	}
	b := new(strings.Builder)
	for _, fn := range calls {
		f, ok := ctx.fn(fn.Name)
		if !ok {
			return "", fmt.Errorf("unknown function #%s", fn.Name)
		}
		if f.JoinCompatibilityError() != nil {
			return "", fmt.Errorf("function #%s is incompatible with #join: %w", fn.Name, f.joinError)
		}
	}
'''), ('func_builtin.go', '''func funcArg(''', '''// parsedTemplate is a parsed #join template, whose functions are the calls.
type parsedTemplate struct {
	clause *syntax.Clause
	calls  []*syntax.FuncCallExpr
}

var (
	templatesMu sync.Mutex
	templates   = make(map[string]*parsedTemplate)
)

// joinTemplate returns the parsed template, most applications use a few ones only.
func joinTemplate(tmpl string) (*syntax.Clause, []*syntax.FuncCallExpr, error) {
	templatesMu.Lock()
	defer templatesMu.Unlock()
	if t, ok := templates[tmpl]; ok {
		return t.clause, t.calls, nil
	}
	c, err := syntax.Parse(tmpl)
	if err != nil {
		return nil, nil, err
	}
	t := &parsedTemplate{clause: c}
	for i, expr := range c.ExprList {
		if fn, ok := expr.(*syntax.FuncExpr); ok {
			call := &syntax.FuncCallExpr{Name: fn.Name}
			c.ExprList[i] = call
			t.calls = append(t.calls, call)
		}
	}
	templates[tmpl] = t
	return t.clause, t.calls, nil
}

func funcArg('''), ('func_builtin.go', '''	"strings"
''', '''	"strings"
	"sync"
''')],
  '''
func TestDemo(t *testing.T) {
	inner := sqlf.Fa("#join('#f#arg', ',')", 5, 6, 7).WithFragments(sqlf.F("x"), sqlf.F("y"), sqlf.F("z"))
	outer := sqlf.Fa("#join('#f#arg', ',')", 1, 2, 3).WithFragments(inner, sqlf.F("b"), sqlf.F("c"))
	q, _, err := outer.BuildQuery(syntax.Dollar)
	if err != nil || q != "x$1,y$2,z$3$4,b$5,c$6" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C12-stale-deps', 'C12',
  'building a query builder, then adding a condition with Where2 on another table, then building again',
  'the dependencies are cached in the builder and not invalidated by all of the methods which change them',
  [('sqlb/query_builder.go', '''	debug bool // debug mode
''', '''	deps *dependencies // collected dependencies, nil if outdated

	debug bool // debug mode
'''), ('sqlb/query_builder.go', '''	b.selects.WithFragments(''', '''	b.deps = nil
	b.selects.WithFragments('''),
   ('sqlb/query_builder.go', '''	b.distinct = true
''', '''	b.deps = nil
	b.distinct = true
'''), ('sqlb/query_builder.go', '''	for _, c := range columns {
		b.groupbys''', '''	b.deps = nil
	for _, c := range columns {
		b.groupbys'''),
   ('sqlb/query_builder_where.go', '''	b.conditions.AppendFragments(s)
''', '''	b.deps = nil
	b.conditions.AppendFragments(s)
'''), ('sqlb/query_builder_order.go', '''	b.orders = append(b.orders, &orderItem''', '''	b.deps = nil
	b.orders = append(b.orders, &orderItem'''),
   ('sqlb/query_builder_with.go', '''	b.ctes = append(b.ctes, cte)
''', '''	b.deps = nil
	b.ctes = append(b.ctes, cte)
'''), ('sqlb/query_builder_join.go', '''	if t.Name == "" {
		b.pushError(fmt.Errorf("from table is empty"))
''', '''	b.deps = nil
	if t.Name == "" {
		b.pushError(fmt.Errorf("from table is empty"))
'''), ('sqlb/query_builder_join.go', '''	if t.Name == "" {
		b.pushError(fmt.Errorf("join table name is empty"))
''', '''	b.deps = nil
	if t.Name == "" {
		b.pushError(fmt.Errorf("join table name is empty"))
'''), ('sqlb/query_builder_build.go', '''	dep, err := b.collectDependencies()
	if err != nil {
		return "", err
	}
''', '''	dep := b.deps
	if dep == nil {
		var err error
		if dep, err = b.collectDependencies(); err != nil {
			return "", err
		}
		b.deps = dep
	}
''')],
  '''
func TestDemo(t *testing.T) {
	foo, bar := sqlb.NewTableAliased("foo", "f"), sqlb.NewTableAliased("bar", "b")
	b := sqlb.NewQueryBuilder().Distinct().Select(foo.Column("id")).From(foo).
		LeftJoinOptional(bar, sqlf.Ff("#f1=#f2", foo.Column("id"), bar.Column("id")))
	if _, _, err := b.BuildQuery(syntax.Dollar); err != nil {
		t.Fatal(err)
	}
	b.Where2(bar.Column("x"), "=", 1)
	q, _, err := b.BuildQuery(syntax.Dollar)
	if err != nil || !strings.Contains(q, "JOIN bar AS b") {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C13-append-alias', 'C13',
  'appending a slice with spare capacity to an empty fragment, then appending more',
  'the first append takes over the slice of the caller, the next one writes into it',
  [('fragment.go', '''	f.Args = append(f.Args, args...)
	return f
''', '''	if len(f.Args) > 0 {
		args = append(f.Args, args...)
	}
	f.Args = args
	return f
''')],
  '''
func TestDemo(t *testing.T) {
	all := []any{1, 2, 3}
	a := sqlf.F("#join('#arg', ',')").AppendArgs(all[:1]...)
	a.AppendArgs("x")
	_, args, err := sqlf.Fa("?,?,?", all...).BuildQuery(syntax.Question)
	if err != nil || !reflect.DeepEqual(args, []any{1, 2, 3}) {
		t.Fatalf("got %v %v", args, err)
	}
}''')

seed('C14-limit-zero', 'C14',
  'Limit(n) followed by Limit(0)',
  'a limit of zero removes the limit set before instead of being ignored',
  [('sqlb/query_builder.go', '''	if limit > 0 {
''', '''	if limit >= 0 {
''')],
  '''
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "")
	q, _, err := sqlb.NewQueryBuilder().Select(foo.Column("id")).From(foo).Limit(5).Limit(0).BuildQuery(syntax.Dollar)
	if err != nil || q != "SELECT foo.id FROM foo LIMIT 5" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C14-rejoin-order', 'C14',
  'joining an alias again after another table which depends on it was joined',
  'the replaced join moves to the end of the FROM clause',
  [('sqlb/query_builder_join.go', '''		*target = *table
		return b
	}
''', '''		for i, t := range b.tables {
			if t == target {
				b.tables = append(b.tables[:i], b.tables[i+1:]...)
				break
			}
		}
	}
''')],
  '''
func TestDemo(t *testing.T) {
	a, b, c := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("b", ""), sqlb.NewTableAliased("c", "")
	on := func(x, y sqlb.TableAliased) *sqlf.Fragment { return sqlf.Ff("#f1=#f2", x.Column("id"), y.Column("id")) }
	q, _, err := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).LeftJoin(b, on(a, b)).LeftJoin(c, on(b, c)).
		InnerJoin(b, on(a, b)).BuildQuery(syntax.Dollar)
	if err != nil || q != "SELECT a.id FROM a INNER JOIN b ON a.id=b.id LEFT JOIN c ON b.id=c.id" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C15-union-first', 'C15',
  'a CTE with args together with args elsewhere, in the Question style',
  'the CTEs are built after the selection, so that their args come later than those of the selected columns',
  [('sqlb/query_builder_build.go', '''	sq, err := b.buildCTEs(ctx, dep)
	if err != nil {
		return "", err
	}
	if sq != "" {
		clauses = append(clauses, sq)
	}
''', ''), ('sqlb/query_builder_build.go', '''	clauses = append(clauses, sel)
''', '''	sq, err := b.buildCTEs(ctx, dep)
	if err != nil {
		return "", err
	}
	if sq != "" {
		clauses = append(clauses, sq)
	}
	clauses = append(clauses, sel)
''')],
  '''
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "")
	b := sqlb.NewQueryBuilder().With("foo", sqlf.Fa("SELECT ?", "cte")).From(foo).
		Select(sqlb.ExprColumn(sqlf.Fa("#f1+?", "sel").WithFragments(foo.Column("x"))))
	q, args, err := b.BuildQuery(syntax.Question)
	if err != nil || !reflect.DeepEqual(args, []any{"cte", "sel"}) {
		t.Fatalf("got %q %v %v", q, args, err)
	}
}''')

seed('C16-one-level', 'C16',
  'a chain of three optional joins of which only the last one is referenced',
  'only the direct dependencies of a referenced table are kept',
  [('sqlb/query_builder_dependecy.go', '''		err := b.collectDepsFromTable(dep, ft)
		if err != nil {
			return err
		}
	}
	return nil
}

func extractTables(''', '''		required, ok := b.tablesDict[ft]
		if !ok {
			return fmt.Errorf("from undefined: '%s'", ft)
		}
		dep[required.Names] = true
	}
	return nil
}

func extractTables(''')],
  '''
func TestDemo(t *testing.T) {
	a, b, c, d := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("b", ""), sqlb.NewTableAliased("c", ""), sqlb.NewTableAliased("d", "")
	on := func(x, y sqlb.TableAliased) *sqlf.Fragment { return sqlf.Ff("#f1=#f2", x.Column("id"), y.Column("id")) }
	q, _, err := sqlb.NewQueryBuilder().Distinct().Select(d.Column("id")).From(a).LeftJoinOptional(b, on(a, b)).LeftJoinOptional(c, on(b, c)).
		LeftJoinOptional(d, on(c, d)).BuildQuery(syntax.Dollar)
	if err != nil || !strings.Contains(q, "JOIN b") {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C17-reverse-pass', 'C17',
  'a CTE which depends on one declared after it, which has dependencies itself',
  'the dependencies of CTEs are collected in a single pass from the last to the first, which misses those of CTEs declared after the one requiring them',
  [('sqlb/query_builder_dependecy.go', '''			b.collectDepsFromCTE(ctes, cte)
		}
	}
''', '''			ctes[cte.name] = true
		}
	}
	// a CTE depends on the ones declared before it
	for i := len(b.ctes) - 1; i >= 0; i-- {
		if ctes[b.ctes[i].name] {
			b.collectDepsFromCTE(ctes, b.ctes[i])
		}
	}
'''), ('sqlb/query_builder_dependecy.go', '''func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) error {
	if deps[cte.name] {
		return nil
	}
	deps[cte.name] = true
	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
	return nil
}
''', '''func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) {
	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			deps[cte.name] = true
		}
	}
}
''')],
  '''
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "")
	q, _, err := sqlb.NewQueryBuilder().
		With("foo", sqlf.F("1"), "b").With("a", sqlf.F("2")).With("c", sqlf.F("3")).With("b", sqlf.F("4"), "a").
		Select(foo.Column("x")).From(foo).BuildQuery(syntax.Question)
	if err != nil || q != "With foo AS (1), a AS (2), b AS (4) SELECT foo.x FROM foo" {
		t.Fatalf("got %q %v", q, err)
	}
	q, _, err = sqlb.NewQueryBuilder().
		With("foo", sqlf.F("1"), "a").With("b", sqlf.F("2")).With("a", sqlf.F("4"), "b", "c").With("c", sqlf.F("5"), "d").With("d", sqlf.F("6")).
		Select(foo.Column("x")).From(foo).BuildQuery(syntax.Question)
	if err != nil || q != "With foo AS (1), b AS (2), a AS (4), c AS (5), d AS (6) SELECT foo.x FROM foo" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C18-on-undefined', 'C18',
  'an ON condition of a kept join which refers to a table that is not declared',
  'tables referenced by ON conditions are not checked to be declared',
  [('sqlb/query_builder_dependecy.go', '''		if ft == t {
			continue
		}
''', '''		if _, joined := b.tablesDict[ft]; !joined || ft == t {
			continue
		}
''')],
  '''
func TestDemo(t *testing.T) {
	a, b := sqlb.NewTableAliased("a", ""), sqlb.NewTableAliased("b", "")
	q, _, err := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).
		LeftJoin(b, sqlf.Ff("#f1=#f2", sqlb.Table("typo").Column("id"), b.Column("id"))).BuildQuery(syntax.Dollar)
	if err == nil {
		t.Fatalf("got %q, want an error", q)
	}
}''')

seed('C18-errors-once', 'C18',
  'building an invalid query builder twice',
  'the collected errors are dropped when they are reported, the second build succeeds',
  [('sqlb/query_builder_errors.go', '''	for _, err := range b.errors {
''', '''	errs := b.errors
	b.errors = nil
	for _, err := range errs {
''')],
  '''
func TestDemo(t *testing.T) {
	a := sqlb.NewTableAliased("a", "")
	b := sqlb.NewQueryBuilder().Select(a.Column("id")).From(a).OrderBy(a.Column("id"), 77)
	for i := 0; i < 2; i++ {
		if q, _, err := b.BuildQuery(syntax.Dollar); err == nil {
			t.Fatalf("build %d: got %q, want an error", i+1, q)
		}
	}
}''')

seed('C19-same-column', 'C19',
  'ordering by the same *Column twice, in a query that is DISTINCT',
  'an ordering column that is selected already reuses its alias, so the aliases are numbered by distinct columns',
  [('sqlb/query_builder_order.go', '''	for i, item := range b.orders {
''', '''	aliases := make(map[*Column]string)
	for _, item := range b.orders {
'''), ('sqlb/query_builder_order.go', '''		alias := fmt.Sprintf("_order_%d", i+1)
		orderStr''', '''		alias, ok := aliases[item.column]
		if !ok {
			alias = fmt.Sprintf("_order_%d", len(aliases)+1)
			aliases[item.column] = alias
		}
		orderStr'''), ('sqlb/query_builder_order.go', '''		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
''', '''		if !ok {
			touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
		}
''')],
  '''
func TestDemo(t *testing.T) {
	a := sqlb.NewTableAliased("a", "")
	id := a.Column("id")
	q, _, err := sqlb.NewQueryBuilder().Distinct().Select(a.Column("x")).From(a).
		OrderBy(id, sqlb.Asc).OrderBy(id, sqlb.Desc).BuildQuery(syntax.Dollar)
	if err != nil || q != "SELECT DISTINCT a.x, a.id AS _order_1, a.id AS _order_2 FROM a ORDER BY _order_1 ASC, _order_2 DESC" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C20-dotted', 'C20',
  'a column name which has a dot in it (a field of a composite or a quoted identifier)',
  'column names with a dot are taken as qualified already',
  [('sqlb/table.go', '''	if t == "" {
		return name
	}
''', '''	if t == "" || strings.ContainsRune(name, '.') {
		return name
	}
'''), ('sqlb/table.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
  '''
func TestDemo(t *testing.T) {
	q, _, err := sqlf.Ff("#f1", sqlb.Table("t").Column(`"a.b"`)).BuildQuery(syntax.Dollar)
	if err != nil || q != `t."a.b"` {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C20-plural', 'C20',
  'Columns with an empty name among others',
  'the plural forms skip empty names, so there are less columns than names',
  [('sqlb/table.go', '''	for _, name := range names {
		r = append(r, t.Column(name))
	}
''', '''	for _, name := range names {
		if c := t.Column(name); c.fragment.Raw != "" {
			r = append(r, c)
		}
	}
''')],
  '''
func TestDemo(t *testing.T) {
	cols := sqlb.Table("t").Columns("a", "", "b")
	if len(cols) != 3 {
		t.Fatalf("got %d columns", len(cols))
	}
}''')

seed('C21-uint64', 'C21',
  'an unsigned arg of 1<<63 or more',
  'unsigned integers are converted to int64',
  [('util/interpolate.go', '''			buf.WriteString(fmt.Sprintf("%d", primative.Uint()))
''', '''			buf.WriteString(strconv.FormatInt(int64(primative.Uint()), 10))
'''), ('util/interpolate.go', '''	"reflect"
''', '''	"reflect"
	"strconv"
''')],
  '''
func TestDemo(t *testing.T) {
	q, err := util.Interpolate("?", []any{uint64(1<<64 - 1)})
	if err != nil || q != "18446744073709551615" {
		t.Fatalf("got %q %v", q, err)
	}
}''')

seed('C21-double-escape', 'C21',
  'a string arg with two quotes in a row',
  'strings which seem to be escaped already are not escaped',
  [('util/interpolate.go', '''	buf.WriteString(strings.ReplaceAll(s, "'", "''"))
''', '''	if strings.Contains(strings.ReplaceAll(s, "''", ""), "'") {
		s = strings.ReplaceAll(s, "'", "''")
	}
	buf.WriteString(s)
''')],
  """
func TestDemo(t *testing.T) {
	q, err := util.Interpolate("?", []any{"a''b"})
	if err != nil || q != "'a''''b'" {
		t.Fatalf("got %q %v", q, err)
	}
}""")

seed('C22-alias', 'C22',
  'flattening a single []any and appending to or writing to the result',
  'the slice of the caller is returned as it is if there is nothing else to flatten',
  [('util/args.go', '''	args := make([]any, 0, 10)
''', '''	if len(valueOrSlices) == 1 {
		// nothing to concatenate
		return argsFrom(valueOrSlices[0])
	}
	args := make([]any, 0, 10)
''')] and [('util/args.go', '''	args := make([]any, 0, 10)
	for _, v := range valueOrSlices {
		args = append(args, argsFrom(v)...)
	}
''', '''	var args []any
	for _, v := range valueOrSlices {
		if flatted := argsFrom(v); args == nil {
			args = flatted
		} else {
			args = append(args, flatted...)
		}
	}
	if args == nil {
		args = []any{}
	}
''')],
  '''
func TestDemo(t *testing.T) {
	list := []any{1, 2, 3}
	_ = util.ArgsFlatted(list[:1], "x")
	if !reflect.DeepEqual(list, []any{1, 2, 3}) {
		t.Fatalf("got %v", list)
	}
}''')

seed('C22-pointers', 'C22',
  'a pointer to a pointer to a slice or array',
  'any number of pointers is followed to find a slice',
  [('util/args.go', '''	if rv.Kind() == reflect.Pointer {
		rv = rv.Elem()
	}
''', '''	for rv.Kind() == reflect.Pointer {
		rv = rv.Elem()
	}
''')],
  '''
func TestDemo(t *testing.T) {
	s := &[]int{1, 2}
	got := util.ArgsFlatted(&s)
	if len(got) != 1 || got[0] != &s {
		t.Fatalf("got %v", got)
	}
}''')

FAKE = '''
type fakeDB struct {
	cols   int
	rows   [][]driver.Value
	err    error
	closed *int
	query  string
}

func (d *fakeDB) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *fakeDB) Driver() driver.Driver                         { return nil }
func (d *fakeDB) Begin() (driver.Tx, error)                     { return nil, nil }
func (d *fakeDB) Close() error                                  { return nil }
func (d *fakeDB) Prepare(q string) (driver.Stmt, error)         { return &fakeStmt{d}, nil }

type fakeStmt struct{ *fakeDB }

func (s *fakeStmt) NumInput() int                               { return -1 }
func (s *fakeStmt) Exec([]driver.Value) (driver.Result, error)  { return nil, nil }
func (s *fakeStmt) Query([]driver.Value) (driver.Rows, error) {
	if s.rows == nil {
		return nil, s.err
	}
	return &fakeRows{s.fakeDB, 0}, nil
}

type fakeRows struct {
	*fakeDB
	i int
}

func (r *fakeRows) Columns() []string { return make([]string, r.cols) }
func (r *fakeRows) Close() error      { *r.closed++; return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.i >= len(r.rows) {
		if r.err != nil {
			return r.err
		}
		return io.EOF
	}
	copy(dest, r.rows[r.i])
	r.i++
	return nil
}
'''

seed('C23-leak', 'C23',
  'a row which can not be converted to its destination, with more rows after it',
  'the rows are closed at the end only, not on the error of a row',
  [('util/scan.go', '''	defer rows.Close()

''', '''
'''), ('util/scan.go', '''		return nil, err
	}
	return results, nil
}
''', '''		return nil, err
	}
	return results, rows.Close()
}
''')],
  FAKE + '''
func TestDemo(t *testing.T) {
	n := 0
	db := sql.OpenDB(&fakeDB{cols: 1, rows: [][]driver.Value{{"x"}, {int64(1)}}, closed: &n})
	defer db.Close()
	_, err := util.Scan(db, "q", nil, func() (*int, []any) { v := new(int); return v, []any{v} })
	if err == nil || n != 1 {
		t.Fatalf("closed %d times, error %v", n, err)
	}
}''')

seed('C24-lost-error', 'C24',
  'a database error in Count with args that do not fit the query',
  'the error of the database is replaced by the one of interpolating the query for the message',
  [('util/scan.go', '''		query, _ := Interpolate(query, args)
		return''', '''		query, interpolateErr := Interpolate(query, args)
		if interpolateErr != nil {
			return 0, interpolateErr
		}
		return''')],
  FAKE + '''
func TestDemo(t *testing.T) {
	n := 0
	want := errors.New("too few args")
	db := sql.OpenDB(&fakeDB{err: want, closed: &n})
	defer db.Close()
	_, err := util.Count(db, "SELECT ?", nil)
	if !errors.Is(err, want) {
		t.Fatalf("got %v", err)
	}
}''')

seed('C25-cr', 'C25',
  'a carriage return that is not followed by a newline before an expression',
  'carriage returns are not counted as characters',
  [('syntax/lexer.go', '''	} else {
		l.current.col++
	}
''', '''	} else if l.rune != '\\r' {
		l.current.col++
	}
''')],
  r'''
func TestDemo(t *testing.T) {
	c, err := syntax.Parse("a\rb$1")
	if err != nil {
		t.Fatal(err)
	}
	if got := c.ExprList[1].Pos().String(); got != "1:4" {
		t.Fatalf("got %s", got)
	}
}''')

seed('C26-cte-error', 'C26',
  'an error returned by a custom builder used as CTE',
  'the error is formatted into a new one and can not be matched any more',
  [('sqlb/query_builder_build.go', '''"build CTE '%s': %w"''', '''"build CTE '%s': %v"''')],
  '''
type failing struct{ error }

func (f failing) BuildFragment(*sqlf.Context) (string, error) { return "", f.error }

func TestDemo(t *testing.T) {
	want := errors.New("custom")
	a := sqlb.NewTableAliased("a", "")
	_, _, err := sqlb.NewQueryBuilder().With("a", failing{want}).Select(a.Column("x")).From(a).BuildQuery(syntax.Dollar)
	if !errors.Is(err, want) {
		t.Fatalf("got %v", err)
	}
}''')
