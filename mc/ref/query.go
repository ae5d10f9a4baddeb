package ref

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
)

// Tbl is a table with alias.
type Tbl struct{ Name, Alias string }

// Applied is the identifier to refer to the table.
func (t Tbl) Applied() string {
	if t.Alias != "" {
		return t.Alias
	}
	return t.Name
}

func (t Tbl) decl() string {
	if t.Alias != "" {
		return t.Name + " AS " + t.Alias
	}
	return t.Name
}

// Impl is the table of the implementation.
func (t Tbl) Impl() sqlb.TableAliased {
	return sqlb.NewTableAliased(sqlb.Table(t.Name), sqlb.Table(t.Alias))
}

// TblItem is a table used as an item: by applied name or as aliased table.
type TblItem struct {
	T       Tbl
	Aliased bool
}

// ToImpl makes the item of the implementation.
func (t TblItem) ToImpl(*Impl) sqlf.FragmentBuilder {
	if t.Aliased {
		return t.T.Impl()
	}
	return sqlb.Table(t.T.Applied())
}

// RefBuild builds in the model.
func (t TblItem) RefBuild(*Eval) (string, error) { return t.T.Applied(), nil }

// Show renders it.
func (t TblItem) Show() string { return "table:" + t.T.decl() }

// Col is a column.
type Col struct {
	Table    string // applied name
	Name     string
	Anon     bool
	ViaAlias bool // made from a TableAliased
	IsExpr   bool
	Expr     *Frag
}

// C is a plain column of the table.
func C(table, name string) *Col { return &Col{Table: table, Name: name} }

// X is an expression column.
func X(f *Frag) *Col { return &Col{IsExpr: true, Expr: f} }

// Column makes the column of the implementation.
func (c *Col) Column(im *Impl) *sqlb.Column {
	if im.o == nil {
		im.o = map[any]any{}
	}
	if o, ok := im.o[c]; ok {
		return o.(*sqlb.Column)
	}
	var r *sqlb.Column
	switch {
	case c.IsExpr:
		r = sqlb.ExprColumn(im.Fragment(c.Expr))
	case c.ViaAlias && c.Anon:
		r = sqlb.NewTableAliased("base_"+sqlb.Table(c.Table), sqlb.Table(c.Table)).AnonymousColumn(c.Name)
	case c.ViaAlias:
		r = sqlb.NewTableAliased("base_"+sqlb.Table(c.Table), sqlb.Table(c.Table)).Column(c.Name)
	case c.Anon:
		r = sqlb.Table(c.Table).AnonymousColumn(c.Name)
	default:
		r = sqlb.Table(c.Table).Column(c.Name)
	}
	im.o[c] = r
	return r
}

// ToImpl makes the item of the implementation.
func (c *Col) ToImpl(im *Impl) sqlf.FragmentBuilder { return c.Column(im) }

// Text is the text of a column of a table.
func (c *Col) Text() string {
	if c.Name == "" || c.Anon || c.Table == "" {
		return c.Name
	}
	return c.Table + "." + c.Name
}

// RefBuild builds in the model.
func (c *Col) RefBuild(e *Eval) (string, error) {
	if c.IsExpr {
		return e.Build(c.Expr)
	}
	return e.Build(&Frag{Raw: c.Text()})
}

// Show renders it.
func (c *Col) Show() string {
	if c == nil {
		return "nil"
	}
	if c.IsExpr {
		return "expr" + c.Expr.Show()
	}
	return "col:" + c.Table + "/" + c.Text()
}

// refs adds the tables the items refer to.
func refs(set *[]string, items ...any) {
	for _, it := range items {
		switch it := it.(type) {
		case *Frag:
			if it != nil {
				refs(set, it.Items...)
			}
		case *Col:
			if it == nil {
				continue
			}
			if it.IsExpr {
				refs(set, it.Expr)
			} else if it.Table != "" {
				*set = append(*set, it.Table)
			}
		case TblItem:
			*set = append(*set, it.T.Applied())
		}
	}
}

// Op is a call of a method of the query builder.
type Op struct {
	Do    string // the method
	Tbl   Tbl
	On    *Frag // nil allowed
	Cols  []*Col
	Frag  *Frag
	N     int64
	Order sqlb.Order
	Items []any // Union, With
	Deps  []string
	Str   string
	Val   any
}

// Show renders the call.
func (o Op) Show() string {
	b := new(strings.Builder)
	fmt.Fprintf(b, ".%s(", o.Do)
	switch o.Do {
	case "From", "CrossJoin":
		fmt.Fprint(b, o.Tbl.decl())
	case "InnerJoin", "LeftJoin", "LeftJoinOptional", "RightJoin", "FullJoin":
		fmt.Fprint(b, o.Tbl.decl(), ", ", o.On.Show())
	case "Select", "GroupBy":
		for i, c := range o.Cols {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(c.Show())
		}
	case "Where":
		b.WriteString(o.Frag.Show())
	case "Where2", "WhereIn", "WhereNotIn":
		fmt.Fprintf(b, "%s, %q, %#v", o.Cols[0].Show(), o.Str, o.Val)
	case "OrderBy":
		fmt.Fprintf(b, "%s, %d", o.Cols[0].Show(), o.Order)
	case "Limit", "Offset":
		fmt.Fprint(b, o.N)
	case "Union", "With":
		fmt.Fprint(b, o.Str)
		for _, it := range o.Items {
			switch it := it.(type) {
			case interface{ Show() string }:
				b.WriteString(" " + it.Show())
			default:
				fmt.Fprintf(b, " %T%v", it, it)
			}
		}
		fmt.Fprint(b, " ", o.Deps)
	}
	b.WriteString(")")
	return b.String()
}

// Query is a history of calls.
type Query struct {
	Ops []Op
}

// Q makes a query of calls.
func Q(ops ...Op) *Query { return &Query{ops} }

// Show renders it.
func (q *Query) Show() string {
	if q == nil {
		return "nil"
	}
	b := new(strings.Builder)
	b.WriteString("B")
	for _, o := range q.Ops {
		b.WriteString(o.Show())
	}
	return b.String()
}

// Apply makes the call on the builder of the implementation.
func (o Op) Apply(im *Impl, b *sqlb.QueryBuilder) {
	cols := func() []*sqlb.Column {
		var r []*sqlb.Column
		for _, c := range o.Cols {
			r = append(r, c.Column(im))
		}
		return r
	}
	switch o.Do {
	case "Distinct":
		b.Distinct()
	case "Debug":
		b.Debug()
	case "Select":
		b.Select(cols()...)
	case "From":
		b.From(o.Tbl.Impl())
	case "InnerJoin":
		b.InnerJoin(o.Tbl.Impl(), im.Fragment(o.On))
	case "LeftJoin":
		b.LeftJoin(o.Tbl.Impl(), im.Fragment(o.On))
	case "LeftJoinOptional":
		b.LeftJoinOptional(o.Tbl.Impl(), im.Fragment(o.On))
	case "RightJoin":
		b.RightJoin(o.Tbl.Impl(), im.Fragment(o.On))
	case "FullJoin":
		b.FullJoin(o.Tbl.Impl(), im.Fragment(o.On))
	case "CrossJoin":
		b.CrossJoin(o.Tbl.Impl())
	case "Where":
		b.Where(im.Fragment(o.Frag))
	case "Where2":
		b.Where2(cols()[0], o.Str, o.Val)
	case "WhereIn":
		b.WhereIn(cols()[0], o.Val)
	case "WhereNotIn":
		b.WhereNotIn(cols()[0], o.Val)
	case "GroupBy":
		b.GroupBy(cols()...)
	case "OrderBy":
		b.OrderBy(cols()[0], o.Order)
	case "Limit":
		b.Limit(o.N)
	case "Offset":
		b.Offset(o.N)
	case "Union":
		var us []sqlf.FragmentBuilder
		for _, it := range o.Items {
			us = append(us, im.Item(it))
		}
		b.Union(us...)
	case "With":
		var deps []sqlb.Table
		for _, d := range o.Deps {
			deps = append(deps, sqlb.Table(d))
		}
		b.With(sqlb.Table(o.Str), im.Item(o.Items[0]), deps...)
	default:
		panic("ex: unknown call " + o.Do)
	}
}

// Builder makes the builder of the implementation.
func (im *Impl) Builder(q *Query) *sqlb.QueryBuilder {
	if im.o == nil {
		im.o = map[any]any{}
	}
	if o, ok := im.o[q]; ok {
		return o.(*sqlb.QueryBuilder)
	}
	b := sqlb.NewQueryBuilder()
	im.o[q] = b
	for _, o := range q.Ops {
		o.Apply(im, b)
	}
	return b
}

// ToImpl makes the item of the implementation.
func (q *Query) ToImpl(im *Impl) sqlf.FragmentBuilder {
	if q == nil {
		return (*sqlb.QueryBuilder)(nil)
	}
	return im.Builder(q)
}

// Join is a joined table of the model.
type Join struct {
	Kind     string
	Tbl      Tbl
	On       *Frag
	Optional bool
}

type orderBy struct {
	col *Col
	dir sqlb.Order
}

type cteDecl struct {
	name    string
	builder any
	deps    []string
}

// State is the state of the model of a builder.
type State struct {
	From          *Tbl
	Joins         []*Join
	Selects       []*Col
	Distinct      bool
	Where         []*Frag
	Groups        []*Col
	orders        []orderBy
	Limit, Offset int64
	Unions        []any
	ctes          []cteDecl
	Invalid       bool
}

var joinKinds = map[string]string{"InnerJoin": "INNER JOIN", "LeftJoin": "LEFT JOIN", "LeftJoinOptional": "LEFT JOIN", "RightJoin": "RIGHT JOIN", "FullJoin": "FULL JOIN", "CrossJoin": "CROSS JOIN"}

var directions = []string{"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST"}

// Flatten is what the list of WhereIn means.
func Flatten(list any) []any {
	l := reflect.ValueOf(list)
	if l.Kind() == reflect.Pointer && !l.IsNil() {
		l = l.Elem()
	}
	if k := l.Kind(); k != reflect.Slice && k != reflect.Array {
		return []any{list}
	}
	var r []any
	for i := 0; i < l.Len(); i++ {
		r = append(r, l.Index(i).Interface())
	}
	return r
}

// Key is the canonical form of the state.
func (s *State) Key() string {
	b := new(strings.Builder)
	if s.From != nil {
		fmt.Fprintf(b, "from %s;", s.From.decl())
	}
	for _, j := range s.Joins {
		fmt.Fprintf(b, "%s %s %v %s;", j.Kind, j.Tbl.decl(), j.Optional, j.On.Show())
	}
	for _, c := range s.Selects {
		fmt.Fprintf(b, "sel %s;", c.Show())
	}
	for _, f := range s.Where {
		fmt.Fprintf(b, "where %s;", f.Show())
	}
	for _, c := range s.Groups {
		fmt.Fprintf(b, "group %s;", c.Show())
	}
	for _, o := range s.orders {
		fmt.Fprintf(b, "order %s %d;", o.col.Show(), o.dir)
	}
	show := func(it any) string {
		if sh, ok := it.(interface{ Show() string }); ok {
			return sh.Show()
		}
		return fmt.Sprintf("%T%v", it, it)
	}
	for _, u := range s.Unions {
		fmt.Fprintf(b, "union %s;", show(u))
	}
	for _, c := range s.ctes {
		fmt.Fprintf(b, "with %s %s %v;", c.name, show(c.builder), c.deps)
	}
	fmt.Fprintf(b, "%v %d %d %v", s.Distinct, s.Limit, s.Offset, s.Invalid)
	return b.String()
}

// ApplyOp replays one more call.
func (s *State) ApplyOp(o Op) { s.apply(o) }

// Result builds in the state.
func (s *State) Result(dollar bool) Result {
	e := &Eval{Dollar: dollar}
	t, err := s.Build(e)
	if err != nil {
		return Result{Err: nest(err), Unspec: e.Unspec, Steps: e.Steps}
	}
	return Result{Query: t, Args: e.Args, Unspec: e.Unspec, Steps: e.Steps}
}

// State replays the calls.
func (q *Query) State() *State {
	s := &State{}
	for _, o := range q.Ops {
		s.apply(o)
	}
	return s
}

func (s *State) apply(o Op) {
	switch o.Do {
	case "Distinct":
		s.Distinct = true
	case "Debug": // logs only
	case "Select":
		if len(o.Cols) > 0 {
			s.Selects = o.Cols
		}
	case "From":
		if o.Tbl.Name == "" {
			s.Invalid = true
			return
		}
		for _, j := range s.Joins {
			if j.Tbl.Applied() == o.Tbl.Applied() {
				s.Invalid = true
				return
			}
		}
		t := o.Tbl
		s.From = &t
	case "InnerJoin", "LeftJoin", "LeftJoinOptional", "RightJoin", "FullJoin", "CrossJoin":
		if o.Tbl.Name == "" || s.From != nil && s.From.Applied() == o.Tbl.Applied() {
			s.Invalid = true
			return
		}
		n := &Join{Kind: joinKinds[o.Do], Tbl: o.Tbl, On: o.On, Optional: o.Do == "LeftJoinOptional"}
		for i, j := range s.Joins {
			if j.Tbl.Applied() == o.Tbl.Applied() {
				s.Joins[i] = n
				return
			}
		}
		s.Joins = append(s.Joins, n)
	case "Where":
		if o.Frag != nil {
			s.Where = append(s.Where, o.Frag)
		}
	case "Where2":
		s.Where = append(s.Where, &Frag{Raw: "#f1" + o.Str + "$1", Items: []any{o.Cols[0]}, Args: []any{o.Val}})
	case "WhereIn", "WhereNotIn":
		in := "IN"
		if o.Do == "WhereNotIn" {
			in = "NOT IN"
		}
		s.Where = append(s.Where, &Frag{Raw: "#f1 " + in + " (#join('#arg', ', '))", Items: []any{o.Cols[0]}, Args: Flatten(o.Val)})
	case "GroupBy":
		s.Groups = append(s.Groups, o.Cols...)
	case "OrderBy":
		if o.Order > 5 {
			s.Invalid = true
			return
		}
		s.orders = append(s.orders, orderBy{o.Cols[0], o.Order})
	case "Limit":
		if o.N > 0 {
			s.Limit = o.N
		}
	case "Offset":
		if o.N > 0 {
			s.Offset = o.N
		}
	case "Union":
		s.Unions = append(s.Unions, o.Items...)
	case "With":
		s.ctes = append(s.ctes, cteDecl{o.Str, o.Items[0], o.Deps})
	default:
		panic("ex: unknown call " + o.Do)
	}
}

// Kept tells which joins are kept, ok is false if an undeclared table is referred to.
func (s *State) Kept() (kept []bool, ok bool) {
	kept = make([]bool, len(s.Joins))
	byName := map[string]int{}
	for i, j := range s.Joins {
		byName[j.Tbl.Applied()] = i
	}
	ok = true
	var need func(name string)
	keep := func(i int) {
		if kept[i] {
			return
		}
		kept[i] = true
		var rs []string
		refs(&rs, s.Joins[i].On)
		for _, r := range rs {
			need(r)
		}
	}
	need = func(name string) {
		if s.From != nil && name == s.From.Applied() {
			return
		}
		if i, found := byName[name]; found {
			keep(i)
			return
		}
		ok = false
	}
	var direct []string
	for _, c := range s.Selects {
		refs(&direct, c)
	}
	for _, f := range s.Where {
		refs(&direct, f)
	}
	for _, c := range s.Groups {
		refs(&direct, c)
	}
	for _, o := range s.orders {
		refs(&direct, o.col)
	}
	for _, r := range direct {
		need(r)
	}
	for i, j := range s.Joins {
		if !s.Distinct || !j.Optional {
			keep(i)
		}
	}
	return kept, ok
}

// NeededCTEs tells which CTEs are rendered.
func (s *State) NeededCTEs(kept []bool) map[string]bool {
	needed := map[string]bool{}
	deps := map[string][]string{}
	for _, c := range s.ctes {
		deps[c.name] = c.deps
	}
	var mark func(name string)
	mark = func(name string) {
		d, declared := deps[name]
		if !declared || needed[name] {
			return
		}
		needed[name] = true
		for _, x := range d {
			mark(x)
		}
	}
	mark(s.From.Name)
	for i, j := range s.Joins {
		if kept[i] {
			mark(j.Tbl.Name)
		}
	}
	return needed
}

// Build renders the query.
func (s *State) Build(e *Eval) (string, error) {
	e.Steps++
	if s.Invalid {
		return "", invalid("invalid call")
	}
	if s.From == nil {
		return "", invalid("no from table")
	}
	kept, ok := s.Kept()
	if !ok {
		return "", invalid("undeclared table")
	}
	var parts []string
	add := func(prefix, sep string, list []string) {
		if len(list) > 0 {
			parts = append(parts, prefix+strings.Join(list, sep))
		}
	}
	needed := s.NeededCTEs(kept)
	var list []string
	seen := map[string]bool{}
	for _, c := range s.ctes {
		if seen[c.name] {
			e.Unspec = true // which of the CTEs of that name counts is not specified
		}
		seen[c.name] = true
		if !needed[c.name] {
			continue
		}
		t, err := e.optional(c.builder)
		if err != nil {
			return "", err
		}
		if t != "" {
			list = append(list, c.name+" AS ("+t+")")
		}
	}
	add("With ", ", ", list)

	list = nil
	for _, c := range s.Selects {
		t, err := c.RefBuild(e)
		if err != nil {
			return "", err
		}
		if t != "" {
			list = append(list, t)
		}
	}
	if len(list) == 0 {
		return "", invalid("no column selected")
	}
	sel := "SELECT "
	if s.Distinct {
		sel = "SELECT DISTINCT "
		for i, o := range s.orders {
			t, err := o.col.RefBuild(e)
			if err != nil {
				return "", err
			}
			if t == "" {
				e.Unspec = true
			}
			list = append(list, fmt.Sprintf("%s AS _order_%d", t, i+1))
		}
	}
	add(sel, ", ", list)

	list = []string{s.From.decl()}
	for i, j := range s.Joins {
		if !kept[i] {
			continue
		}
		t := j.Kind + " " + j.Tbl.decl()
		on, err := e.Build(j.On)
		if err != nil {
			return "", err
		}
		if on != "" {
			if j.On.Prefix != "ON" {
				on = "ON " + on
			}
			t += " " + on
		}
		list = append(list, t)
	}
	add("FROM ", " ", list)

	list = nil
	for _, f := range s.Where {
		t, err := e.Build(f)
		if err != nil {
			return "", err
		}
		if t != "" {
			list = append(list, t)
		}
	}
	add("WHERE ", " AND ", list)

	list = nil
	for _, c := range s.Groups {
		t, err := c.RefBuild(e)
		if err != nil {
			return "", err
		}
		if t != "" {
			list = append(list, t)
		}
	}
	add("GROUP BY ", ", ", list)

	list = nil
	for i, o := range s.orders {
		if s.Distinct {
			list = append(list, fmt.Sprintf("_order_%d %s", i+1, directions[o.dir]))
			continue
		}
		t, err := o.col.RefBuild(e)
		if err != nil {
			return "", err
		}
		if t == "" {
			e.Unspec = true
		}
		list = append(list, t+" "+directions[o.dir])
	}
	add("ORDER BY ", ", ", list)
	if s.Limit > 0 {
		parts = append(parts, fmt.Sprintf("LIMIT %d", s.Limit))
	}
	if s.Offset > 0 {
		parts = append(parts, fmt.Sprintf("OFFSET %d", s.Offset))
	}
	for _, u := range s.Unions {
		t, err := e.optional(u)
		if err != nil {
			return "", err
		}
		if t != "" {
			parts = append(parts, "UNION ("+t+")")
		}
	}
	return strings.Join(parts, " "), nil
}

// optional builds an item which may be nil.
func (e *Eval) optional(it any) (string, error) {
	if it == nil {
		return "", nil
	}
	return e.BuildItem(it)
}

// RefBuild builds in the model.
func (q *Query) RefBuild(e *Eval) (string, error) {
	if q == nil {
		return "", nil
	}
	s, err := q.State().Build(e)
	if err != nil {
		return "", nest(err)
	}
	if e.OnQuery != nil {
		e.OnQuery(q)
	}
	return s, nil
}

// Debugged tells whether debug mode is on.
func (q *Query) Debugged() bool {
	for _, o := range q.Ops {
		if o.Do == "Debug" {
			return true
		}
	}
	return false
}

// Result builds q in the model.
func (q *Query) Result(dollar bool) Result {
	e := &Eval{Dollar: dollar}
	s, err := q.RefBuild(e)
	if err != nil {
		return Result{Err: err, Unspec: e.Unspec, Steps: e.Steps}
	}
	return Result{Query: s, Args: e.Args, Unspec: e.Unspec, Steps: e.Steps}
}
