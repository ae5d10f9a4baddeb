// Package conc holds the scenarios of concurrent and nested use: small
// programs which use objects shared by all of them, each with one result.
package conc

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

// World is what all the scenarios share: none of it is changed by building.
type World struct {
	Sub, Top, Zip, Bad, Cond *sqlf.Fragment
	Text                     *sqlf.Fragment
	SubQuery                 *sqlf.Fragment
	Query                    *sqlb.QueryBuilder
	Funcs, Funcs2            sqlf.FuncMap
	Users, Orders            sqlb.TableAliased
	ID, Name, Total          *sqlb.Column
	Expr                     *sqlb.Column
	Args                     []any
	List                     []int
	When                     time.Time

	// Hook is called by callbacks, in the middle of builds; place says where
	Hook func(place string)
}

func (w *World) hook(place string) {
	if w.Hook != nil {
		w.Hook(place)
	}
}

// callback is a custom builder.
type callback struct {
	w *World
	s string
}

func (c *callback) BuildFragment(ctx *sqlf.Context) (string, error) {
	a := ctx.CommitArg(c.s)
	c.w.hook("builder " + c.s)
	return "cb(" + a + ")", nil
}

// valuer is a driver value.
type valuer struct {
	w *World
	s string
}

func (v valuer) Value() (driver.Value, error) {
	v.w.hook("value " + v.s)
	return v.s, nil
}

var errBad = errors.New("bad")

type failing struct{}

func (failing) BuildFragment(*sqlf.Context) (string, error) { return "", errBad }

// NewWorld makes a world.
func NewWorld() *World {
	w := &World{
		Args:   []any{1, "a", nil},
		List:   []int{7, 8},
		When:   time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC),
		Users:  sqlb.NewTableAliased("users", "u"),
		Orders: sqlb.NewTableAliased("orders", "o"),
	}
	w.Sub = sqlf.Fa("s=?", "sub").WithPrefix("(").WithSuffix(")")
	w.Cond = sqlf.Fa("c IN (#join('#arg',','))", 1, 2)
	w.Top = sqlf.Ff("T #f1 ? #join('#f',';',2)", w.Sub, w.Cond, w.Sub, &callback{w, "top"}).WithArgs("a")
	w.Zip = sqlf.Ff("#join('#f=#arg',',')", sqlf.F("x"), w.Sub).WithArgs(1, 1)
	w.Bad = sqlf.Ff("#f1 #f2 #f3", w.Sub, &callback{w, "bad"}, failing{})
	w.Text = sqlf.F(" 'q$1' \"#f\" é$$ ")
	w.ID, w.Name, w.Total = w.Users.Column("id"), w.Users.Column("name"), w.Orders.Column("total")
	w.Expr = sqlb.ExprColumn(sqlf.Ff("c(#f1,?)", w.ID).WithArgs("e"))
	q := sqlb.NewQueryBuilder().From(w.Users).Select(w.ID).Where2(w.Name, "=", "n")
	w.SubQuery = sqlf.Ff("EXISTS(#f1) #f2", q, w.Sub)
	w.Query = sqlb.NewQueryBuilder().From(w.Users).LeftJoinOptional(w.Orders, sqlf.Ff("#f1=?", w.Total).WithArgs(1)).
		Distinct().Select(w.ID).OrderBy(w.Expr, sqlb.AscNullsLast).With("users", sqlf.Ff("#f1", w.Sub))
	w.Funcs = sqlf.FuncMap{
		"p": func(i int) (string, error) {
			if i < 1 || i > 2 {
				return "", sqlf.ErrInvalidIndex
			}
			w.hook("function p")
			return fmt.Sprint("P", i), nil
		},
		"g": func(ctx *sqlf.Context, s string) (string, error) {
			w.hook("function g")
			return sqlf.Fa("g(?)", s).BuildFragment(ctx)
		},
	}
	w.Funcs2 = sqlf.FuncMap{
		"p":   func() string { return "other" },
		"arg": func(ctx *sqlf.Context, i int) string { return "A" + ctx.CommitArg(i) },
	}
	return w
}

// Scenario is a program.
type Scenario struct {
	Name string
	Do   func(w *World) string
}

func result(q string, args []any, err error) string {
	if err != nil {
		return fmt.Sprintf("error (%v,%v,%v) %q %v", errors.Is(err, errBad), errors.Is(err, sqlf.ErrInvalidIndex), len(args), q, args != nil)
	}
	return fmt.Sprintf("%q %#v", q, args)
}

func build(f func(w *World) sqlf.QueryBuilder, style syntax.BindVarStyle) func(w *World) string {
	return func(w *World) string { return result(f(w).BuildQuery(style)) }
}

func parse(t string) func(*World) string {
	return func(*World) string {
		c, err := syntax.Parse(t)
		if err != nil {
			return "error"
		}
		var b strings.Builder
		for _, e := range c.ExprList {
			switch e := e.(type) {
			case *syntax.PlainExpr:
				fmt.Fprintf(&b, "%q ", e.Text)
			case *syntax.BindVarExpr:
				fmt.Fprintf(&b, "bind %v %v ", e.Type, e.Index)
			case *syntax.FuncCallExpr:
				fmt.Fprintf(&b, "call %s %#v ", e.Name, e.Args)
			case *syntax.FuncExpr:
				fmt.Fprintf(&b, "func %s ", e.Name)
			}
			if _, ok := e.(*syntax.PlainExpr); !ok {
				p := e.Pos()
				fmt.Fprintf(&b, "at %v; ", p)
			}
		}
		return b.String()
	}
}

// Scenarios are all of them.
var Scenarios = []Scenario{
	{"build Top ?", build(func(w *World) sqlf.QueryBuilder { return w.Top }, syntax.Question)},
	{"build Top $", build(func(w *World) sqlf.QueryBuilder { return w.Top }, syntax.Dollar)},
	{"build Zip $", build(func(w *World) sqlf.QueryBuilder { return w.Zip }, syntax.Dollar)},
	{"build Bad ?", build(func(w *World) sqlf.QueryBuilder { return w.Bad }, syntax.Question)},
	{"build Text in SubQuery $", build(func(w *World) sqlf.QueryBuilder {
		return sqlf.Ff("#f1#f2", w.Text, w.SubQuery)
	}, syntax.Dollar)},
	{"parse valid", parse("T #f1 ? #g('x''',2,true)é\n'#f1'#join('#f',';',2)")},
	{"parse another", parse("$2'#f1'#f#arg$1")},
	{"parse invalid", parse("#f(1 $1")},
	{"interpolate ?", func(w *World) string {
		s, err := util.Interpolate("a=? AND b='?' OR c=? ?", []any{"it's", w.When, valuer{w, "v'"}}, util.WithTimeFormat("2006"))
		return fmt.Sprintf("%q %v", s, err != nil)
	}},
	{"interpolate $", func(w *World) string {
		s, err := util.Interpolate("$3 $1 $2", w.Args)
		return fmt.Sprintf("%q %v", s, err != nil)
	}},
	{"query $", func(w *World) string {
		b := sqlb.NewQueryBuilder().With("users", w.Cond).From(w.Users).
			LeftJoinOptional(w.Orders, sqlf.Ff("#f1=#f2", w.Total, w.ID)).
			Select(w.ID, w.Expr).Where(w.Sub).Where(sqlf.Ff("#f1", &callback{w, "query"})).Union(w.Zip)
		b.OrderBy(w.Name, sqlb.Desc).Distinct()
		return result(b.BuildQuery(syntax.Dollar))
	}},
	{"query ?", func(w *World) string {
		b := sqlb.NewQueryBuilder().From(w.Orders).InnerJoin(w.Users, w.Sub).
			Select(w.Total).Where(w.Cond).WhereIn(w.ID, w.List).GroupBy(w.Expr).Limit(3)
		return result(b.BuildQuery(syntax.Question)) + result(b.BuildQuery(syntax.Question))
	}},
	{"shared query ?", build(func(w *World) sqlf.QueryBuilder { return w.Query }, syntax.Question)},
	{"shared query in fragment $", build(func(w *World) sqlf.QueryBuilder { return sqlf.Ff("x (#f1) y", w.Query) }, syntax.Dollar)},
	{"query invalid", func(w *World) string {
		b := sqlb.NewQueryBuilder().From(w.Orders).Select(w.ID)
		return result(b.BuildQuery(syntax.Question))
	}},
	{"functions", func(w *World) string {
		root := sqlf.NewContext(syntax.Dollar)
		ctx, err := sqlf.ContextWithFuncs(root, w.Funcs)
		if err != nil {
			return "error"
		}
		q, err := sqlf.Ff("#p2 #join('#p',',') #f1", sqlf.F("#g('x') #g('y')")).BuildFragment(ctx)
		return result(q, ctx.Args(), err)
	}},
	{"other functions", func(w *World) string {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Question), w.Funcs2)
		if err != nil {
			return "error"
		}
		a, err := sqlf.Fa("#p() #arg1 ?", 5).BuildFragment(ctx)
		b, err2 := w.Sub.BuildFragment(ctx)
		return result(a, nil, err) + result(b, ctx.Args(), err2)
	}},
	{"edit", func(w *World) string {
		f := sqlf.Fa("?,?,?,?", w.Args...).AppendArgs("x")
		g := sqlf.Fa("?,?,?,?", w.Args...).AppendArgs("y").WithPrefix("G")
		return result(f.BuildQuery(syntax.Question)) + result(g.BuildQuery(syntax.Dollar))
	}},
	{"flatten", func(w *World) string {
		return fmt.Sprintf("%#v %#v", util.ArgsFlatted(w.List, "s", w.Args, &w.List), util.Ttoa(w.List))
	}},
	{"scan", func(w *World) string {
		db := sql.OpenDB(&fake{})
		defer db.Close()
		r, err := util.ScanBuilder(db, w.Sub, syntax.Dollar, func() (*[2]int64, []any) {
			r := &[2]int64{}
			w.hook("destination")
			return r, []any{&r[0], &r[1]}
		})
		s := fmt.Sprint(err)
		for _, x := range r {
			s += fmt.Sprint(*x)
		}
		return s
	}},
	{"count", func(w *World) string {
		db := sql.OpenDB(&fake{})
		defer db.Close()
		f := &fake{}
		db2 := sql.OpenDB(f)
		defer db2.Close()
		n, err := util.CountBuilder(db2, w.Zip, syntax.Question)
		return fmt.Sprint(n, err, f.got)
	}},
}

// fake is a database of two rows.
type fake struct{ got string }

func (d *fake) Connect(context.Context) (driver.Conn, error) { return &fakeConn{d}, nil }
func (d *fake) Driver() driver.Driver                        { return d }
func (d *fake) Open(string) (driver.Conn, error)             { return d.Connect(nil) }

type fakeConn struct{ d *fake }

func (c *fakeConn) Prepare(string) (driver.Stmt, error) { return nil, errBad }
func (c *fakeConn) Close() error                        { return nil }
func (c *fakeConn) Begin() (driver.Tx, error)           { return nil, errBad }
func (c *fakeConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.d.got += q
	for _, a := range args {
		c.d.got += fmt.Sprint(a.Value)
	}
	return &fakeRows{}, nil
}

type fakeRows struct{ n int }

func (r *fakeRows) Columns() []string { return []string{"a", "b", "c"} }
func (r *fakeRows) Close() error      { return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.n == 2 {
		return io.EOF
	}
	for i := range dest {
		dest[i] = int64(10*r.n + i)
	}
	r.n++
	return nil
}
