from seedlib import seed
seed('C14-null-condition', 'C14',
  'Where2 with = and a nil arg',
  'Where2(column, "=", nil) renders IS NULL instead of the condition and the arg asked for',
  [('sqlb/query_builder_where.go', '''	b.conditions.AppendFragments(
		sqlf.F("#f1" + op + "$1").
			WithFragments(column).
			WithArgs(arg),
	)
	return b
''', '''	if arg == nil && op == "=" {
		// a = NULL is never true
		return b.Where(sqlf.Ff("#f1 IS NULL", column))
	}
	return b.Where(sqlf.F("#f1" + op + "$1").WithFragments(column).WithArgs(arg))
''')],
  """
func TestDemo(t *testing.T) {
	f := sqlb.NewTableAliased("foo", "f")
	q := sqlb.NewQueryBuilder().Select(f.Column("id")).From(f).Where2(f.Column("x"), "=", nil)
	query, args, err := q.BuildQuery(syntax.Dollar)
	if err != nil || query != "SELECT f.id FROM foo AS f WHERE f.x=$1" || len(args) != 1 {
		t.Fatal(query, args, err)
	}
}""")

seed('C21-whole-float32', 'C21',
  'a float32 without fraction',
  'whole values of float32 are written with one decimal, and beyond 2^63 as the wrong number',
  [('util/interpolate.go', '''			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
''', '''			f := primative.Float()
			if k == reflect.Float32 && f == float64(int64(f)) {
				buf.WriteString(fmt.Sprintf("%d.0", int64(f)))
				break
			}
			buf.WriteString(fmt.Sprintf("%f", f))
''')],
  """
func TestDemo(t *testing.T) {
	s, err := util.Interpolate("? ?", []any{float32(2), 2.0})
	if err != nil || s != "2.000000 2.000000" {
		t.Fatal(s, err)
	}
}""")

seed('C10-join-fast', 'C10',
  "#join('#arg', ...) in a context which registers its own #arg",
  'the most frequent template of #join is rendered without parsing it, by the built-in #arg, not by the one registered in the context',
  [('func_builtin.go', '''	c, err := syntax.Parse(tmpl)
	if err != nil {
		return "", fmt.Errorf("parse join template '%s': %w", tmpl, err)
	}
''', '''	if tmpl == "#arg" && len(indexes) == 0 {
		fc, err := ctx.mustFragment()
		if err != nil {
			return "", err
		}
		items := make([]string, len(fc.Args))
		for i := range items {
			if items[i], err = fc.Args.Build(ctx, i+1); err != nil {
				return "", err
			}
		}
		return strings.Join(items, separator), nil
	}
	c, err := syntax.Parse(tmpl)
	if err != nil {
		return "", fmt.Errorf("parse template '%s' of #join: %w", tmpl, err)
	}
''')],
  """
func TestDemo(t *testing.T) {
	ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{
		"arg": func(i int) (string, error) {
			if i < 1 || i > 2 {
				return "", sqlf.ErrInvalidIndex
			}
			return "mine", nil
		},
	})
	if err != nil {
		t.Fatal(err)
	}
	query, err := sqlf.F("#join('#arg', ', ')").BuildFragment(ctx)
	if err != nil || query != "mine, mine" {
		t.Fatal(query, err)
	}
}""")

seed('C14-group-one', 'C14',
  'grouping by the constant 1 alone',
  'GROUP BY 1 is taken for a constant and dropped',
  [('sqlb/query_builder_build.go', '''	if groupby != "" {
''', '''	if groupby != "" && groupby != "GROUP BY 1" {
''')],
  """
func TestDemo(t *testing.T) {
	f := sqlb.NewTableAliased("foo", "f")
	q := sqlb.NewQueryBuilder().Select(f.Column("id")).From(f).GroupBy(sqlb.ExprColumn(sqlf.F("1")))
	query, args, err := q.BuildQuery(syntax.Dollar)
	if err != nil || query != "SELECT f.id FROM foo AS f GROUP BY 1" {
		t.Fatal(query, args, err)
	}
}""")
