From fefcf69a1818f8dac27ee472877ac2d95fbc749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 01/37] fix: don't take a NUL in the template as end of input

Everything after a NUL rune was silently dropped from the built query.
---
 syntax/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..7bdba60 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,8 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, it's not a valid rune so that it never appears in the input.
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From 886ed2dbc593ef26768685e65ef932371d9b6cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 02/37] fix: report mixed bindvar styles when Dollar comes
 first

Dollar is the zero BindVarStyle, so it couldn't be told from 'not seen
yet', and '$1,?' was accepted.
---
 syntax/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..6183013 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From 61a0d782ed651f8be906267b733eb579b4d0211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 03/37] fix: keep the bindvar or function following a function
 value

In '#f?' the bindvar was turned into plain text, which is a placeholder
without argument, and '#f#arg' failed to parse.
---
 syntax/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syntax/parser.go b/syntax/parser.go
index 6183013..52ead3b 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -189,6 +189,16 @@ func (p *parser) funcExpr() error {
 				expr: expr{node{pos}},
 			},
 		)
+	case _Hash, _Ref:
+		// not a part of this expression, leave it to the next one
+		p.tokens = append([]*token{p.token}, p.tokens...)
+		p.c.ExprList = append(
+			p.c.ExprList,
+			&FuncExpr{
+				Name: nameToken.lit,
+				expr: expr{node{pos}},
+			},
+		)
 	default:
 		// EOF or _Plain
 		p.c.ExprList = append(
-- 
2.43.0


From 1f87d83f6e527839e948c75be8195694a51420aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 04/37] fix: report the error when a number is passed to a
 string or bool parameter

e.g. #join(1, 2): reflect panicked out of BuildQuery.
---
 func_exec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..29d9d4e 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,7 +116,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-- 
2.43.0


From 5d32311fdbe78dae9808f7977394d74cedf7d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 05/37] fix: accept unhashable args with the Dollar style

An arg such as []byte panicked out of BuildQuery. They are committed
without being merged.
---
 context_args.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..0d85a3e 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,11 +55,26 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
-		return "$" + strconv.Itoa(i)
+	mergeable := hashable(arg)
+	if mergeable {
+		if i, ok := s.dict[arg]; ok {
+			return "$" + strconv.Itoa(i)
+		}
 	}
 	i := len(s.args) + 1
-	s.dict[arg] = i
+	if mergeable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// hashable reports whether v can be a map key, []byte for example is not.
+// The type is not enough to tell, a struct may hold a slice in its any field.
+func hashable(v any) (ok bool) {
+	defer func() {
+		ok = recover() == nil
+	}()
+	_ = map[any]struct{}{v: {}}
+	return true
+}
-- 
2.43.0


From dcc2dd5bdfb4c0d6734740a39caaf8be6a3fbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 06/37] fix: don't take an error inside of an item as the end
 of #join

#join ended silently at the first item which has an invalid reference of
its own, so the item was dropped from the query without any error.
---
 build.go        |  2 +-
 errors.go       | 18 ++++++++++++++++++
 func_builtin.go | 27 +++++++++++++++++++++++++--
 properties.go   |  3 ++-
 4 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..dc11c0c 100644
--- a/build.go
+++ b/build.go
@@ -63,7 +63,7 @@ func build(ctx *Context, fragment *Fragment) (string, error) {
 	}
 	built, err := buildClause(ctx, clause)
 	if err != nil {
-		return "", fmt.Errorf("build '%s': %w", fragment.Raw, err)
+		return "", nested(fmt.Errorf("build '%s': %w", fragment.Raw, err))
 	}
 	return built, nil
 }
diff --git a/errors.go b/errors.go
index d99120b..e1d514a 100644
--- a/errors.go
+++ b/errors.go
@@ -7,3 +7,21 @@ var (
 	// It's a required behaviour for a custom #func to be compatible with #join.
 	ErrInvalidIndex = errors.New("invalid index")
 )
+
+// nestedError is an error from inside of a referenced item. An ErrInvalidIndex
+// wrapped by it does not mean that the index of the item itself is invalid.
+type nestedError struct {
+	error
+}
+
+func nested(err error) error {
+	if err == nil {
+		return nil
+	}
+	return &nestedError{err}
+}
+
+// Unwrap returns the wrapped error.
+func (e *nestedError) Unwrap() error {
+	return e.error
+}
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..57b7871 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -69,8 +69,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
-		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		s, end, err := buildJoinItem(ctx, c, calls)
+		if end {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
@@ -94,6 +94,29 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
+// buildJoinItem builds the #join template for the current index of calls.
+//
+// end is true only if one of the calls itself has no such index. It's not
+// the end if an item exists but fails to build, even if it's because of an
+// invalid index inside of it.
+func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr) (s string, end bool, err error) {
+	b := new(strings.Builder)
+	for _, expr := range tmpl.ExprList {
+		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
+		if err != nil {
+			var inner *nestedError
+			if errors.Is(err, ErrInvalidIndex) && !errors.As(err, &inner) {
+				for _, call := range calls {
+					end = end || expr == syntax.Expr(call)
+				}
+			}
+			return "", end, err
+		}
+		b.WriteString(s)
+	}
+	return b.String(), false, nil
+}
+
 func funcArg(ctx *Context, i int) (string, error) {
 	c, err := ctx.mustFragment()
 	if err != nil {
diff --git a/properties.go b/properties.go
index cde4a8a..0dde716 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,8 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	query, err := p[i-1].BuildFragment(ctx)
+	return query, nested(err)
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From b3c62d769fa93b23f81fa72225809417959cdaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 07/37] fix: drop the side effects of the item where #join
 meets the end

The template was built until the function which has no such index, what
it had committed by then stayed in the args without a placeholder, and a
fragment having no counterpart arg in '#f=#arg' was dropped silently.
---
 context_args.go     | 15 +++++++++++++++
 context_fragment.go | 17 +++++++++++++++++
 func_builtin.go     | 27 ++++++++++++++++++++++++---
 3 files changed, 56 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 0d85a3e..f3a3d7c 100644
--- a/context_args.go
+++ b/context_args.go
@@ -20,6 +20,8 @@ func (c *Context) CommitArg(arg any) string {
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// Truncate drops the args after the first n.
+	Truncate(n int)
 }
 
 type questionArgStore struct {
@@ -39,6 +41,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) Truncate(n int) {
+	s.args = s.args[:n:n]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -69,6 +75,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) Truncate(n int) {
+	for _, arg := range s.args[n:] {
+		if hashable(arg) {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = s.args[:n:n]
+}
+
 // hashable reports whether v can be a map key, []byte for example is not.
 // The type is not enough to tell, a struct may hold a slice in its any field.
 func hashable(v any) (ok bool) {
diff --git a/context_fragment.go b/context_fragment.go
index abf19ca..d2b20ec 100644
--- a/context_fragment.go
+++ b/context_fragment.go
@@ -24,6 +24,23 @@ func (c *Context) mustFragment() (*FragmentContext, error) {
 	return fc, nil
 }
 
+// unusedProperties returns the properties of current fragment not used yet.
+func (c *Context) unusedProperties() []*defaultProperty {
+	fc, ok := c.fragment()
+	if !ok {
+		return nil
+	}
+	var unused []*defaultProperty
+	for _, props := range []Properties{fc.Args, fc.Fragments} {
+		for _, prop := range props {
+			if p, ok := prop.(*defaultProperty); ok && !p.used {
+				unused = append(unused, p)
+			}
+		}
+	}
+	return unused
+}
+
 // contextWithFragment returns a new context with the fragment.
 func contextWithFragment(ctx *Context, f *Fragment) *Context {
 	c, _ := contextWith(ctx, func(c *Context) error {
diff --git a/func_builtin.go b/func_builtin.go
index 57b7871..2143918 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -101,17 +101,38 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 // invalid index inside of it.
 func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr) (s string, end bool, err error) {
 	b := new(strings.Builder)
+	// The item is dropped at the end, so are the args it has committed, and
+	// the usages reported by calls, e.g. in '#f=#arg' if there are more
+	// fragments than args.
+	store := ctx.root().argStore
+	nArgs := len(store.Args())
+	var reported []*defaultProperty
 	for _, expr := range tmpl.ExprList {
+		isCall := false
+		for _, call := range calls {
+			isCall = isCall || expr == syntax.Expr(call)
+		}
+		var unused []*defaultProperty
+		if isCall && len(calls) > 1 {
+			unused = ctx.unusedProperties()
+		}
 		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
 		if err != nil {
 			var inner *nestedError
-			if errors.Is(err, ErrInvalidIndex) && !errors.As(err, &inner) {
-				for _, call := range calls {
-					end = end || expr == syntax.Expr(call)
+			end = isCall && errors.Is(err, ErrInvalidIndex) && !errors.As(err, &inner)
+			if end {
+				store.Truncate(nArgs)
+				for _, p := range reported {
+					p.used = false
 				}
 			}
 			return "", end, err
 		}
+		for _, p := range unused {
+			if p.used {
+				reported = append(reported, p)
+			}
+		}
 		b.WriteString(s)
 	}
 	return b.String(), false, nil
-- 
2.43.0


From 5dc317b8e210146f1d0f1dedea69f0770b173e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 08/37] fix: don't panic on nil fragments in collecting
 dependencies

A nil *sqlf.Fragment is a valid fragment, which is built empty.
---
 sqlb/query_builder_dependecy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..3cb8237 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -91,7 +91,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
-			extractTables2(fragment.Fragments, tables, dict)
+			if fragment != nil {
+				extractTables2(fragment.Fragments, tables, dict)
+			}
 			continue
 		}
 		if column, ok := f.(*Column); ok && column != nil {
@@ -99,7 +101,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From 590ab85a15eeaed47b2b2a919c1ccab438068458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 09/37] fix: don't set the ON prefix to the fragment passed to
 joins

CrossJoin has no ON fragment, it always panicked, and the prefix showed
up wherever else the caller uses the fragment.
---
 sqlb/query_builder_join.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..01c849c 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -99,11 +99,16 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + t.Alias
 	}
+	if on == nil || on.Prefix != "ON" {
+		// don't set the prefix to "on", which is nil for CROSS JOIN and
+		// may be used elsewhere by the caller.
+		on = sqlf.Ff("#f1", on).WithPrefix("ON")
+	}
 	table := &fromTable{
 		Names: t,
 		Fragment: sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
+			on,
 		),
 		Optional: optional,
 	}
-- 
2.43.0


From fd251486bc321d6003c341aa9dddf60f10a824e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 10/37] fix: report the error when the from table is not set

It panicked without any table, or built 'FROM  INNER JOIN...' with joins only.
---
 sqlb/query_builder_dependecy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 3cb8237..696f279 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -20,6 +20,9 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 
 	tables := extractTables(builders...)
 	deps := make(map[TableAliased]bool)
+	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
+		return nil, fmt.Errorf("from table is not set")
+	}
 	// first table is the main table and always included
 	deps[b.tables[0].Names] = true
 	for _, table := range tables {
-- 
2.43.0


From 8b72146914811f904853eb28fb3c22e258bf021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 11/37] fix: don't trim optional joins required by joins never
 trimmed

The dependencies of a table were followed only if it's referenced by the
query, so that its ON clause could refer to a table trimmed or undefined.
---
 sqlb/query_builder_dependecy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 696f279..561901e 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -31,6 +31,16 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 			return nil, err
 		}
 	}
+	// tables never trimmed depend on the ones in their ON clauses
+	for _, t := range b.tables {
+		if b.distinct && t.Optional {
+			continue
+		}
+		err := b.collectDepsFromTable(deps, t.Names.AppliedName())
+		if err != nil {
+			return nil, err
+		}
+	}
 	// mark for CTEs
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
-- 
2.43.0


From 203d71f8e1b3fd78ad4c40af71a91f8687475fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 12/37] fix: collect the dependencies of a CTE used as an
 unaliased table

The table was taken as the CTE itself being visited, the CTEs it depends
on were missing from the query.
---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 21 ++++++++++++++-------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..b29617b 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -118,13 +118,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep.ctes[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
@@ -168,10 +168,10 @@ func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
 	return sel + ", " + touches, nil
 }
 
-func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	tables := make([]string, 0, len(b.tables))
 	for _, t := range b.tables {
-		if b.distinct && t.Optional && !dep[t.Names] {
+		if b.distinct && t.Optional && !dep.tables[t.Names] {
 			continue
 		}
 		c, err := t.Fragment.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 561901e..29915b8 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -6,8 +6,15 @@ import (
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
+// dependencies are the tables and CTEs required by the query. They are
+// separated because a CTE and an unaliased table may have the same name.
+type dependencies struct {
+	tables map[TableAliased]bool
+	ctes   map[Table]bool
+}
+
 // collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+func (b *QueryBuilder) collectDependencies() (*dependencies, error) {
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.touches,
@@ -42,23 +49,23 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 		}
 	}
 	// mark for CTEs
+	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
-			b.collectDepsFromCTE(deps, cte)
+			b.collectDepsFromCTE(ctes, cte)
 		}
 	}
-	return deps, nil
+	return &dependencies{tables: deps, ctes: ctes}, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
+func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) error {
+	if deps[cte.name] {
 		return nil
 	}
-	deps[key] = true
+	deps[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
 			err := b.collectDepsFromCTE(deps, cte)
-- 
2.43.0


From 1075c1262417a37b2eb65eae335664de2656bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 13/37] fix: report the error of an invalid order in the first
 build

It was found after the collected errors are checked, the first build
succeeded without the order and the second failed.
---
 sqlb/query_builder_order.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..8a473c4 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -35,6 +35,10 @@ type orderItem struct {
 
 // OrderBy set the sorting order. the order can be "ASC", "DESC", "ASC NULLS FIRST" or "DESC NULLS LAST"
 func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
+	if order > DescNullsLast {
+		b.pushError(fmt.Errorf("invalid order: %d", order))
+		return b
+	}
 	b.orders = append(b.orders, &orderItem{column: column, order: order})
 	return b
 }
@@ -42,10 +46,6 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
-		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
-		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
 				"#f1 "+orders[item.order],
-- 
2.43.0


From 5cbcd0e4839dc61006661d233c4aa3822e52746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 14/37] fix: don't accumulate order columns in builds of the
 same builder

Each build of a SELECT DISTINCT query with ORDER BY selected the _order_N
columns one more time.
---
 sqlb/query_builder_order.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 8a473c4..0dc1cdf 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -44,6 +44,7 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 }
 
 func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
+	b.touches.WithFragments()
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
 		if !b.distinct {
-- 
2.43.0


From 7452e67d560b6fc5e7115a9ac1ece560bd6f09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 15/37] fix: commit the args of SELECT before those of the
 following clauses

For the Question style, args in the selected columns were bound to the
placeholders of other clauses, and vice versa.
---
 sqlb/query_builder_build.go | 19 +++++++++----------
 sqlb/query_builder_order.go |  5 +++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index b29617b..539fe51 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,14 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	// prepareOrders may update touches, it must be called before buildSelects.
+	// Clauses are built in the order they appear in the query, so are the args.
+	orders := b.prepareOrders()
+	sel, err := b.buildSelects(ctx)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,7 +86,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,12 +99,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 0dc1cdf..496a035 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -43,7 +43,8 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
+// prepareOrders returns the ORDER BY clause and updates the touches for it.
+func (b *QueryBuilder) prepareOrders() *sqlf.Fragment {
 	b.touches.WithFragments()
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
@@ -62,5 +63,5 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return f
 }
-- 
2.43.0


From e4c1e3dd88abf3f5690b9de8bc21c3c32b1b2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 16/37] fix: don't mix up the from table and the joined tables

- A join with the alias of the from table replaced it: 'FROM LEFT JOIN...'
- A from table with the alias of a joined table duplicated the alias.
- A replaced from table could still be referenced.
---
 sqlb/query_builder_join.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 01c849c..082460f 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -21,9 +21,16 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 		Fragment: sqlf.F(tableAndAlias),
 		Optional: false,
 	}
+	joined, ok := b.tablesDict[t.AppliedName()]
+	if ok && joined != b.tables[0] {
+		b.pushError(fmt.Errorf("table '%s' is already joined", t.AppliedName()))
+		return b
+	}
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		// the replaced table can not be referenced any more
+		delete(b.tablesDict, b.tables[0].Names.AppliedName())
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
@@ -113,6 +120,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("table '%s' is already the from table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From 6ddd9bb0c1119b2544d4e1ffa83e14508de19ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 17/37] fix: don't build 'UNION ()' if all union queries are
 empty

---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 539fe51..50cf5bf 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -194,5 +194,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From 7efb8eb0da3b5a18b8475599848bcf97560b52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 18/37] fix: report the error of missing args in Interpolate

It panicked, and so did Count() when it reports the error from the database.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..b304ef8 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: invalid bind var index %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From 339986ac8d729c298d68c9599328d324f72534ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 19/37] fix: interpolate nil pointers of Valuer and Stringer
 types as NULL

e.g. a nil *time.Time: it panicked.
---
 util/interpolate.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index b304ef8..dadae59 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -69,12 +69,20 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 	return b.String(), nil
 }
 
+var valuerType = reflect.TypeOf((*driver.Valuer)(nil)).Elem()
+
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
 	switch v := arg.(type) {
 	case nil:
 		buf.WriteString("NULL")
 	case driver.Valuer:
+		if rv := reflect.ValueOf(arg); rv.Kind() == reflect.Pointer && rv.IsNil() &&
+			rv.Type().Elem().Implements(valuerType) {
+			// the same as database/sql, a value method panics on nil pointers
+			buf.WriteString("NULL")
+			break
+		}
 		val, err := v.Value()
 		if err != nil {
 			return nil, err
@@ -95,6 +103,10 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		buf.WriteString(v.Format(opts.TimeFormat))
 		buf.WriteRune('\'')
 	case fmt.Stringer:
+		if rv := reflect.ValueOf(arg); rv.Kind() == reflect.Pointer && rv.IsNil() {
+			buf.WriteString("NULL")
+			break
+		}
 		buf.Write(quoteStringValue(v.String()))
 	default:
 		primative := reflect.ValueOf(arg)
-- 
2.43.0


From b7c34b8e2d998d2be899d32ba75cd7db10d737a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 20/37] fix: don't start a comment when interpolating a
 negative number after '-'

---
 util/interpolate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index dadae59..768bbf1 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -61,6 +61,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 			if err != nil {
 				return "", err
 			}
+			if bytes.HasPrefix(v, []byte("-")) && strings.HasSuffix(b.String(), "-") {
+				// "5-?" with -1 is not "5--1", where a comment starts
+				b.WriteByte(' ')
+			}
 			b.Write(v)
 		default:
 			return "", fmt.Errorf("%s: unsupported declaration", decl.Pos())
-- 
2.43.0


From 9b3639748ac1764db8b35b39a185f0c0f3bf3cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 21/37] fix: report the error which interrupts the iteration in
 Scan

Scan returned the rows read so far without any error.
---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From b736e162d6a62fe497a36a15d7eaa6145ba22ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 22/37] fix: don't panic on nil slice pointers in ArgsFlatted

Take them as values, like the nil pointers of any other type.
---
 util/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/args.go b/util/args.go
index b685cd5..62a85ea 100644
--- a/util/args.go
+++ b/util/args.go
@@ -21,6 +21,10 @@ func ArgsFlatted(valueOrSlices ...any) []any {
 }
 
 func argsFrom(v any) []any {
+	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
+		// NULL to database/sql, there's nothing to extract
+		return []any{v}
+	}
 	switch a := v.(type) {
 	case []any:
 		return a
-- 
2.43.0


From 355529b9dd285f44043984597ac8e5fae8f0842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 23/37] fix: don't write to the caller's array when appending
 to a fragment

Fragments created from the same slice, Fa(raw, s...), overwrote the args
appended to each other.
---
 fragment.go | 4 ++--
 shortcut.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..29c4497 100644
--- a/fragment.go
+++ b/fragment.go
@@ -24,13 +24,13 @@ func (f *Fragment) WithSuffix(suffix string) *Fragment {
 
 // WithArgs sets the args of f.
 func (f *Fragment) WithArgs(args ...any) *Fragment {
-	f.Args = args
+	f.Args = args[:len(args):len(args)] // appending to f never writes to the caller's array
 	return f
 }
 
 // WithFragments sets the fragments of f.
 func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = fragments
+	f.Fragments = fragments[:len(fragments):len(fragments)]
 	return f
 }
 
diff --git a/shortcut.go b/shortcut.go
index e27b83e..7d494fa 100644
--- a/shortcut.go
+++ b/shortcut.go
@@ -11,7 +11,7 @@ func F(raw string) *Fragment {
 func Fa(raw string, args ...any) *Fragment {
 	return &Fragment{
 		Raw:  raw,
-		Args: args,
+		Args: args[:len(args):len(args)], // appending to f never writes to the caller's array
 	}
 }
 
@@ -19,6 +19,6 @@ func Fa(raw string, args ...any) *Fragment {
 func Ff(raw string, fragments ...FragmentBuilder) *Fragment {
 	return &Fragment{
 		Raw:       raw,
-		Fragments: fragments,
+		Fragments: fragments[:len(fragments):len(fragments)],
 	}
 }
-- 
2.43.0


From f1d89a34e836bb0dac28394a7bf9e00ab601467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 24/37] fix: don't share the spare capacity of the args
 returned by Context.Args

---
 context_args.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/context_args.go b/context_args.go
index f3a3d7c..41764b1 100644
--- a/context_args.go
+++ b/context_args.go
@@ -6,7 +6,9 @@ import (
 
 // Args returns the built args of the context.
 func (c *Context) Args() []any {
-	return c.root().argStore.Args()
+	args := c.root().argStore.Args()
+	// the args committed later and the ones appended by the caller don't overwrite each other
+	return args[:len(args):len(args)]
 }
 
 // CommitArg commits an built arg to the context and returns the built bindvar.
-- 
2.43.0


From 1fd2eedd136a6edbeda4f3c59a6aa0ad995e5dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 25/37] fix: don't write to the caller's array in ScanRow when
 dropping extra columns

---
 util/scan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/scan.go b/util/scan.go
index 7d23223..fe631d9 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -61,6 +61,7 @@ func ScanRow(rows *sql.Rows, dest ...any) error {
 	}
 	nBlacholes := len(cols) - len(dest)
 	bh := &blackhole{}
+	dest = dest[:len(dest):len(dest)] // don't write to the caller's array
 	for i := 0; i < nBlacholes; i++ {
 		dest = append(dest, &bh)
 	}
-- 
2.43.0


From 446ec53c9ca23c30862a7172e40fed6efae599b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 26/37] fix: report the error when a number overflows the
 parameter of a function

---
 func_exec.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/func_exec.go b/func_exec.go
index 29d9d4e..e361e36 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -2,6 +2,7 @@ package sqlf
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -118,6 +119,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		argType = "number"
 		if numberType(typ.Kind()) {
 			v = reflect.ValueOf(arg).Convert(typ)
+			if overflowed(arg, v) {
+				return v, fmt.Errorf("number %v overflows %s", arg, typ)
+			}
 		}
 	case bool:
 		argType = "bool"
@@ -143,6 +147,15 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	return v, fmt.Errorf("can't assign %s to %s", argType, typ)
 }
 
+// overflowed reports whether the literal number does not fit in the integer it's converted to.
+func overflowed(arg any, converted reflect.Value) bool {
+	f, ok := arg.(float64)
+	if !ok || converted.Kind() == reflect.Float32 || converted.Kind() == reflect.Float64 {
+		return false
+	}
+	return converted.Convert(reflect.TypeOf(f)).Float() != math.Trunc(f)
+}
+
 func convertString(v reflect.Value) (string, error) {
 	any := unwrap(v).Interface()
 	val, ok := any.(string)
-- 
2.43.0


From 3ab80ea52a7ef2191292f33af286977f1ef1b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 27/37] fix: accept string and bool parameters of named types
 in functions

---
 func_exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index e361e36..1ae3809 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -126,12 +126,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From 90cc9f9b54fbd0ecdc22864662a68f1ccd23ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:04 +0000
Subject: [PATCH 28/37] fix: don't panic on nil CTE and union builders

---
 sqlb/query_builder_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 50cf5bf..b9e625e 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -123,7 +123,7 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string,
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep.ctes[cte.name] {
+		if !dep.ctes[cte.name] || cte.FragmentBuilder == nil {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
@@ -185,6 +185,9 @@ func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep *dependencies) (string,
 func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 	clauses := make([]string, 0, len(b.unions))
 	for _, union := range b.unions {
+		if union == nil {
+			continue
+		}
 		query, err := union.BuildFragment(ctx)
 		if err != nil {
 			return "", err
-- 
2.43.0


From 88347b7bd754460c615ab24e10fe40864e7bf79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 29/37] fix: nil column used as CTE or union panics

---
 sqlb/table_column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlb/table_column.go b/sqlb/table_column.go
index 71f31f2..8f66510 100644
--- a/sqlb/table_column.go
+++ b/sqlb/table_column.go
@@ -1,6 +1,8 @@
 package sqlb
 
 import (
+	"errors"
+
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
@@ -20,6 +22,9 @@ type Column struct {
 
 // BuildFragment implements FragmentBuilder
 func (c *Column) BuildFragment(ctx *sqlf.Context) (query string, err error) {
+	if c == nil {
+		return "", errors.New("nil column")
+	}
 	return c.fragment.BuildFragment(ctx)
 }
 
-- 
2.43.0


From 31e3a801be3d44db1adef3c1af581630e29aee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 30/37] fix: escape quotes in interpolated times

---
 util/interpolate.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 768bbf1..6b94b60 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -103,9 +103,8 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		}
 		// In SQL standard, the precision of fractional seconds in time literal is up to 6 digits.
 		v = v.Round(time.Microsecond)
-		buf.WriteRune('\'')
-		buf.WriteString(v.Format(opts.TimeFormat))
-		buf.WriteRune('\'')
+		// the format and the zone abbreviation may have quotes
+		buf.Write(quoteStringValue(v.Format(opts.TimeFormat)))
 	case fmt.Stringer:
 		if rv := reflect.ValueOf(arg); rv.Kind() == reflect.Pointer && rv.IsNil() {
 			buf.WriteString("NULL")
-- 
2.43.0


From d10798fe579422a7d7922d86b04193e431f7f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 31/37] fix: interpolate nil pointers of any type as NULL

---
 util/interpolate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 6b94b60..46aad40 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -128,6 +128,11 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
 		case reflect.String:
 			buf.Write(quoteStringValue(primative.String()))
+		case reflect.Pointer:
+			if !primative.IsNil() {
+				return nil, fmt.Errorf("unsupported type %T", arg)
+			}
+			buf.WriteString("NULL")
 		default:
 			return nil, fmt.Errorf("unsupported type %T", arg)
 		}
-- 
2.43.0


From 18859d0e42de8a4f55b4d4b6307cf20ea189d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 32/37] fix: building a query builder wrote to it, racing with
 other builds of it

---
 sqlb/query_builder.go           |  2 --
 sqlb/query_builder_build.go     | 16 ++++++++--------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 13 +++++++------
 4 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..acde3d5 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index b9e625e..41a1b22 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,10 +57,9 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// prepareOrders may update touches, it must be called before buildSelects.
 	// Clauses are built in the order they appear in the query, so are the args.
-	orders := b.prepareOrders()
-	sel, err := b.buildSelects(ctx)
+	orders, touches := b.prepareOrders()
+	sel, err := b.buildSelects(ctx, touches)
 	if err != nil {
 		return "", err
 	}
@@ -144,17 +143,18 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string,
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, touched *sqlf.Fragment) (string, error) {
+	selects := *b.selects
 	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
+		selects.Prefix = "SELECT DISTINCT"
 	} else {
-		b.selects.Prefix = "SELECT"
+		selects.Prefix = "SELECT"
 	}
-	sel, err := b.selects.BuildFragment(ctx)
+	sel, err := selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touches, err := touched.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 29915b8..7136170 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -17,7 +17,6 @@ type dependencies struct {
 func (b *QueryBuilder) collectDependencies() (*dependencies, error) {
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 496a035..c370f42 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -43,10 +43,11 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-// prepareOrders returns the ORDER BY clause and updates the touches for it.
-func (b *QueryBuilder) prepareOrders() *sqlf.Fragment {
-	b.touches.WithFragments()
-	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+// prepareOrders returns the ORDER BY clause and the columns to select for it.
+// It doesn't change the builder, which may be building in other goroutines.
+func (b *QueryBuilder) prepareOrders() (f, touches *sqlf.Fragment) {
+	touches = sqlf.F("#join('#fragment', ', ')")
+	f = sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -58,10 +59,10 @@ func (b *QueryBuilder) prepareOrders() *sqlf.Fragment {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f
+	return f, touches
 }
-- 
2.43.0


From 2e5d955b52387084d3717e046e45af782d6defac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:17 +0000
Subject: [PATCH 33/37] fix: log the args of the sub-query itself in debug mode

---
 sqlb/query_builder_build.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 41a1b22..b484078 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -42,6 +42,10 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if err := b.anyError(); err != nil {
 		return "", err
 	}
+	argsBefore := 0
+	if b.debug && ctx != nil {
+		argsBefore = len(ctx.Args())
+	}
 	clauses := make([]string, 0)
 
 	dep, err := b.collectDependencies()
@@ -107,7 +111,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		query = strings.TrimSpace(query + " " + union)
 	}
 	if b.debug {
-		interpolated, err := util.Interpolate(query, ctx.Args())
+		interpolated, err := util.Interpolate(query, debugArgs(query, ctx.Args(), argsBefore))
 		if err != nil {
 			log.Printf("debug: interpolated query: %s\n", err)
 		}
@@ -116,6 +120,22 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
+// debugArgs returns the args the placeholders of the query refer to. In the
+// question style they are counted from the first one of the query, which is
+// behind the args committed before it in case of a sub-query.
+func debugArgs(query string, args []any, before int) []any {
+	exprs, err := syntax.Parse(query)
+	if err != nil {
+		return args
+	}
+	for _, expr := range exprs.ExprList {
+		if v, ok := expr.(*syntax.BindVarExpr); ok && v.Type == syntax.Question {
+			return args[before:]
+		}
+	}
+	return args
+}
+
 func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep *dependencies) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
-- 
2.43.0


From db40c34b74ac8bacbb0ce5497484da783c6dce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:09 +0000
Subject: [PATCH 34/37] fix: building a nil item of Properties returns an error
 instead of panicking

---
 property.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/property.go b/property.go
index 7bd51b5..a85cfa0 100644
--- a/property.go
+++ b/property.go
@@ -1,5 +1,7 @@
 package sqlf
 
+import "errors"
+
 // Property is the interface for properties.
 type Property interface {
 	FragmentBuilder
@@ -36,5 +38,8 @@ func (p *defaultProperty) Used() bool {
 // BuildFragment builds the fragment.
 func (p *defaultProperty) BuildFragment(ctx *Context) (string, error) {
 	p.used = true
+	if p.value == nil {
+		return "", errors.New("nil fragment builder")
+	}
 	return p.value.BuildFragment(ctx)
 }
-- 
2.43.0


From 45b4d47ec9c42a8a6ec7d3e0ccb1ef9a91ddeef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:45 +0000
Subject: [PATCH 35/37] fix: #join wrapped indexes which overflow the parameter
 of a function

---
 func_exec.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index 1ae3809..cf186fc 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -120,7 +120,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		if numberType(typ.Kind()) {
 			v = reflect.ValueOf(arg).Convert(typ)
 			if overflowed(arg, v) {
-				return v, fmt.Errorf("number %v overflows %s", arg, typ)
+				err := fmt.Errorf("number %v overflows %s", arg, typ)
+				if _, ok := arg.(int); ok {
+					// an index of #join, the function has no such item
+					err = fmt.Errorf("%w: %v", ErrInvalidIndex, err)
+				}
+				return v, err
 			}
 		}
 	case bool:
@@ -147,9 +152,13 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	return v, fmt.Errorf("can't assign %s to %s", argType, typ)
 }
 
-// overflowed reports whether the literal number does not fit in the integer it's converted to.
+// overflowed reports whether the literal number, or the index of #join, does
+// not fit in the integer it's converted to.
 func overflowed(arg any, converted reflect.Value) bool {
 	f, ok := arg.(float64)
+	if i, isInt := arg.(int); isInt {
+		f, ok = float64(i), true
+	}
 	if !ok || converted.Kind() == reflect.Float32 || converted.Kind() == reflect.Float64 {
 		return false
 	}
-- 
2.43.0


From 97e07f027fed0af69e9306e72bf5d473dda70ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 36/37] fix: building an arg property without context returns
 an error instead of panicking

---
 properties.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties.go b/properties.go
index 0dde716..92cd41a 100644
--- a/properties.go
+++ b/properties.go
@@ -59,6 +59,9 @@ type arg struct {
 
 // BuildFragment implements FragmentBuilder
 func (c *arg) BuildFragment(ctx *Context) (query string, err error) {
+	if ctx == nil {
+		return "", fmt.Errorf("nil context")
+	}
 	built := ctx.CommitArg(c.any)
 	return built, nil
 }
-- 
2.43.0


From 0bf285c43c3216eb2238bbc119458949a00b21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:49 +0000
Subject: [PATCH 37/37] fix: a panicking Value or String method of an arg
 panicked debug builds and Count

The interpolation of an arg is for debugging: a builder in debug mode and
an error of Count lost the query, or the error, by it.
---
 util/interpolate.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 46aad40..ef39f8c 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -75,7 +75,13 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 
 var valuerType = reflect.TypeOf((*driver.Valuer)(nil)).Elem()
 
-func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
+func encodeValue(arg any, opts *interpolateOptions) (literal []byte, err error) {
+	defer func() {
+		// a Value or String method of the user
+		if r := recover(); r != nil {
+			literal, err = nil, fmt.Errorf("encode %T: panic: %v", arg, r)
+		}
+	}()
 	buf := bytes.NewBuffer(nil)
 	switch v := arg.(type) {
 	case nil:
-- 
2.43.0

