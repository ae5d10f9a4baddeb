from seedlib import seed
seed('C17-dep-stop', 'C17',
  'a CTE whose declared dependencies name something undeclared before a declared CTE',
  'the dependencies behind one which is not a CTE of the query are not followed, so a CTE the query needs is left out of WITH',
  [('sqlb/query_builder_dependecy.go', '''	for _, dep := range cte.deps {
		if cte, ok := b.ctesDict[dep]; ok {
			err := b.collectDepsFromCTE(deps, cte)
			if err != nil {
				return err
			}
		}
	}
''', '''	for _, name := range cte.deps {
		dep, ok := b.ctesDict[name]
		if !ok {
			break
		}
		if err := b.collectDepsFromCTE(deps, dep); err != nil {
			return err
		}
	}
''')],
  """
func TestDemo(t *testing.T) {
	a := sqlb.NewTableAliased("a", "x")
	q := sqlb.NewQueryBuilder().
		With("b", sqlf.F("SELECT 1")).
		With("a", sqlf.F("SELECT * FROM b"), "some_view", "b").
		Select(a.Column("id")).From(a)
	query, _, err := q.BuildQuery(syntax.Dollar)
	if err != nil || query != "With b AS (SELECT 1), a AS (SELECT * FROM b) SELECT x.id FROM a AS x" {
		t.Fatal(query, err)
	}
}""")

seed('C17-replaced-name', 'C17',
  'a join replaced by one of another table with the same alias, one of them a CTE',
  'the replaced join keeps the name of its first table, so WITH has the CTE of the table no longer joined instead of the one which is',
  [('sqlb/query_builder_join.go', '''		*target = *table
''', '''		target.Fragment, target.Optional = table.Fragment, table.Optional
''')],
  """
func TestDemo(t *testing.T) {
	foo := sqlb.NewTableAliased("foo", "f")
	on := sqlf.F("TRUE")
	q := sqlb.NewQueryBuilder().
		With("a", sqlf.F("SELECT 1")).
		With("b", sqlf.F("SELECT 2")).
		Select(foo.Column("id")).From(foo).
		LeftJoin(sqlb.NewTableAliased("a", "j"), on).
		LeftJoin(sqlb.NewTableAliased("b", "j"), on)
	query, _, err := q.BuildQuery(syntax.Dollar)
	if err != nil || query != "With b AS (SELECT 2) SELECT f.id FROM foo AS f LEFT JOIN b AS j ON TRUE" {
		t.Fatal(query, err)
	}
}""")
